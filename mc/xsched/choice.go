package xsched

import (
	"fmt"
	"reflect"
	"sort"
)

const maxChoices = 1 << 14

// Run holds the choices of one execution: the first N are given, the rest are 0 and recorded.
type Run struct {
	Path  [maxChoices]int32 // taken
	Arity [maxChoices]int32 // how many there were
	N     int               // given
	Len   int               // taken so far
	Over  bool
}

// Choose returns the next choice, 0..n-1.
//
//go:norace
func (r *Run) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if r.Len >= maxChoices {
		r.Over = true
		return 0
	}
	c := int32(0)
	if r.Len < r.N {
		c = r.Path[r.Len]
		if c >= int32(n) {
			c = 0
			r.Over = true
		}
	}
	r.Path[r.Len] = c
	r.Arity[r.Len] = int32(n)
	r.Len++
	return int(c)
}

// Next moves on to the next unexplored list of choices; false when all are done.
func (r *Run) Next() bool {
	for i := r.Len - 1; i >= 0; i-- {
		if r.Path[i]+1 < r.Arity[i] {
			r.Path[i]++
			r.N = i + 1
			r.Len = 0
			return true
		}
	}
	return false
}

// Choices prints the list of choices up to the last which is not 0.
func (r *Run) Choices() []int {
	n := r.Len
	for n > 0 && r.Path[n-1] == 0 {
		n--
	}
	out := make([]int, n)
	for i := range out {
		out[i] = int(r.Path[i])
	}
	return out
}

func (r *Run) Set(c []int) {
	for i, x := range c {
		r.Path[i] = int32(x)
	}
	r.N, r.Len = len(c), 0
}

// Task is a controlled goroutine.
type Task struct {
	run   *Run
	sched *Sched
	id    int
	maps  bool // map iteration order is a choice
	rot   int  // without choices: 0 sorted, 1 reversed
}

// WithMaps runs f on this goroutine with every map iteration order decided by r.
func WithMaps(r *Run, f func()) {
	t := &Task{run: r, maps: true}
	old := getLabel()
	defer setLabel(old)
	setLabel(ptr(t))
	f()
}

// Keys returns the keys of map m as a slice, in the order chosen for this iteration.
func Keys(m interface{}) interface{} {
	v := reflect.ValueOf(m)
	ks := v.MapKeys()
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	t := cur()
	if t != nil && t.maps && len(ks) > 1 && len(ks) <= 5 {
		for i := range ks {
			j := i + t.run.Choose(len(ks)-i)
			k := ks[j]
			copy(ks[i+1:j+1], ks[i:j])
			ks[i] = k
		}
	} else if t != nil && t.maps && len(ks) > 5 {
		// too many orders: every rotation, both ways
		c := t.run.Choose(2 * len(ks))
		n := c % len(ks)
		ks = append(append([]reflect.Value{}, ks[n:]...), ks[:n]...)
		if c >= len(ks) {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	out := reflect.MakeSlice(reflect.SliceOf(v.Type().Key()), len(ks), len(ks))
	for i := range ks {
		out.Index(i).Set(ks[i])
	}
	return out.Interface()
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
}
