package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Case is one replayable execution.
type Case struct {
	Kind  string `json:"kind"`
	Src   string `json:"grammar,omitempty"`
	Rule  string `json:"rule,omitempty"`
	Text  string `json:"text,omitempty"`
	Flag  int    `json:"flag,omitempty"`
	Start int    `json:"start,omitempty"`
	Extra string `json:"extra,omitempty"`
}

type Violation struct {
	Property string `json:"property"`
	Case     Case   `json:"case"`
	What     string `json:"what"`
}

// key identifies a violation for the known findings file
func (v Violation) key() string {
	c := v.Case
	return strings.Join([]string{v.Property, c.Kind, c.Src, c.Rule, c.Text, strconv.Itoa(c.Flag), strconv.Itoa(c.Start), c.Extra}, "\x1f")
}

type prop struct {
	id     string
	level  string
	rule   string // how cases are made
	assume []string
	run    func(*Ctx)
	replay func(*W, Case) string
}

var props []*prop

func register(p *prop) {
	props = append(props, p)
	sort.Slice(props, func(i, j int) bool { return props[i].id < props[j].id })
}

func findProp(id string) *prop {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}

// Report is what a child tells its parent.
type Report struct {
	States, Transitions, Traces int64
	Cases                       int64
	Samples                     []interface{}
	Violations                  []Violation
	Exhaustive                  bool
	Counts                      map[string]int64
	Done                        bool
}

const slotSize = 1 << 18

type Ctx struct {
	P        *prop
	Thorough bool
	Seed     int
	deadline time.Time
	stop     atomic.Bool
	late     atomic.Bool
	mu       sync.Mutex
	rep      Report
	slots    []byte
	ws       []*W
	nw       int
}

// W is one worker.
type W struct {
	c                          *Ctx
	id                         int
	states, trans, traces, cas int64
	counts                     map[string]int64
	started                    atomic.Int64 // unix nano of the current case, 0 if none
	cur                        Case
	slot                       []byte
	lastSrc, lastKind          string
	srcLen                     int
}

func (c *Ctx) pick(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

func (c *Ctx) sample(v interface{}) {
	c.mu.Lock()
	if len(c.rep.Samples) < 12 {
		c.rep.Samples = append(c.rep.Samples, v)
	}
	c.mu.Unlock()
}

func (w *W) count(s string) { w.counts[s]++ }

// begin records the case which is about to run, so that a crash or hang can be attributed.
func (w *W) begin(cs *Case) {
	w.cur = *cs
	w.cas++
	if w.slot != nil {
		n := 8
		put := func(s string) {
			if n+32+len(s) > len(w.slot) {
				s = ""
			}
			w.slot[n], w.slot[n+1], w.slot[n+2] = byte(len(s)), byte(len(s)>>8), byte(len(s)>>16)
			n += 3
			n += copy(w.slot[n:], s)
		}
		if cs.Src != w.lastSrc || cs.Kind != w.lastKind || w.srcLen == 0 {
			put(cs.Kind)
			put(cs.Src)
			w.lastSrc, w.lastKind = cs.Src, cs.Kind
			w.srcLen = n
		} else {
			n = w.srcLen
		}
		put(cs.Rule)
		put(cs.Text)
		put(cs.Extra)
		binary.LittleEndian.PutUint32(w.slot[n:], uint32(int32(cs.Flag)))
		binary.LittleEndian.PutUint32(w.slot[n+4:], uint32(int32(cs.Start)))
		w.slot[0] = 1
	}
	w.started.Store(time.Now().UnixNano())
}

// beat says that the current case is alive: one of its many executions has ended.
func (w *W) beat() { w.slow(); w.started.Store(time.Now().UnixNano()) }

// slow tells which cases take long.
func (w *W) slow() {
	if slowAfter > 0 && w.started.Load() != 0 {
		if d := time.Duration(time.Now().UnixNano() - w.started.Load()); d > slowAfter {
			fmt.Printf("slow %v %s %.60q %s %.60q %d %d %.60q\n", d, w.cur.Kind, w.cur.Src, w.cur.Rule, w.cur.Text, w.cur.Flag, w.cur.Start, w.cur.Extra)
		}
	}
}

var slowAfter, _ = time.ParseDuration(os.Getenv("XMC_SLOW"))

func (w *W) end() {
	w.slow()
	w.started.Store(0)
	if w.slot != nil {
		w.slot[0] = 0
	}
}

func readSlot(b []byte) (Case, bool) {
	var c Case
	if b[0] == 0 {
		return c, false
	}
	n := 8
	get := func() string {
		l := int(b[n]) | int(b[n+1])<<8 | int(b[n+2])<<16
		n += 3
		s := string(b[n : n+l])
		n += l
		return s
	}
	c.Kind = get()
	c.Src = get()
	c.Rule = get()
	c.Text = get()
	c.Extra = get()
	c.Flag = int(int32(binary.LittleEndian.Uint32(b[n:])))
	c.Start = int(int32(binary.LittleEndian.Uint32(b[n+4:])))
	return c, true
}

const maxViolations = 5

func (w *W) fail(cs Case, what string) {
	c := w.c
	c.mu.Lock()
	defer c.mu.Unlock()
	v := Violation{c.P.id, cs, what}
	for _, k := range c.known() {
		if k == v.key() {
			// a listed finding does not use up the budget of reports
			c.rep.Violations = append(c.rep.Violations, v)
			return
		}
	}
	c.rep.Violations = append(c.rep.Violations, v)
	n := 0
	for _, x := range c.rep.Violations {
		if !isKnown(x) {
			n++
		}
	}
	if n >= maxViolations {
		c.stop.Store(true)
	}
}

// do runs one case, turning a panic into a violation.
func (w *W) do(cs *Case, f func() string) {
	w.begin(cs)
	defer func() {
		w.end()
		if x := recover(); x != nil {
			w.fail(*cs, fmt.Sprintf("panic: %v", x))
		}
	}()
	if msg := f(); msg != "" {
		w.fail(*cs, msg)
	}
}

// each runs f for 0..n-1 on all workers; it returns early when the budget is used up.
func (c *Ctx) each(n int, f func(w *W, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for _, w := range c.ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			for !c.stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if i&15 == 0 && time.Now().After(c.deadline) {
					c.late.Store(true)
					return
				}
				func() {
					defer func() {
						if x := recover(); x != nil {
							buf := make([]byte, 4096)
							buf = buf[:runtime.Stack(buf, false)]
							w.fail(w.cur, fmt.Sprintf("panic: %v\n%s", x, buf))
						}
					}()
					f(w, i)
				}()
			}
		}(w)
	}
	wg.Wait()
}

var verifDir = func() string {
	if d := os.Getenv("XMC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}()

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // open | fixed
	Case     *Case  `json:"case,omitempty"`
	What     string `json:"what"`
	Line     string `json:"line,omitempty"`
}

var knownOnce sync.Once
var knownList []finding

func loadKnown() []finding {
	knownOnce.Do(func() {
		b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
		if err != nil {
			return
		}
		var f struct {
			Findings []finding `json:"findings"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
		knownList = f.Findings
	})
	return knownList
}

func (c *Ctx) known() []string {
	var out []string
	for _, f := range loadKnown() {
		if f.Status == "open" && f.Case != nil {
			out = append(out, Violation{f.Property, *f.Case, ""}.key())
		}
	}
	return out
}

func isKnown(v Violation) bool {
	for _, f := range loadKnown() {
		if f.Status == "open" && f.Case != nil && (Violation{f.Property, *f.Case, ""}).key() == v.key() {
			return true
		}
	}
	return false
}

func budget(thorough bool) time.Duration {
	if s := os.Getenv("XMC_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if thorough {
		return 780 * time.Second
	}
	return 400 * time.Second
}

func newCtx(p *prop, slots []byte) *Ctx {
	c := &Ctx{P: p, slots: slots, nw: runtime.GOMAXPROCS(0)}
	if c.nw > 16 {
		c.nw = 16
	}
	c.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	c.deadline = time.Now().Add(budget(c.Thorough))
	for i := 0; i < c.nw; i++ {
		w := &W{c: c, id: i, counts: map[string]int64{}}
		if slots != nil {
			w.slot = slots[i*slotSize : (i+1)*slotSize]
		}
		c.ws = append(c.ws, w)
	}
	return c
}

const (
	exitHang   = 41
	exitMemory = 42
	memLimit   = 8 << 30
)

// hangAfter is long enough for a machine which does other things meanwhile.
var hangAfter = func() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("XMC_HANG")); err == nil && n > 0 {
		return time.Duration(n) * time.Second
	}
	return 60 * time.Second
}()

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// watch ends the process when one case does not end.
func (c *Ctx) watch() {
	for {
		time.Sleep(250 * time.Millisecond)
		now := time.Now().UnixNano()
		for _, w := range c.ws {
			if s := w.started.Load(); s != 0 && now-s > int64(hangAfter) {
				os.Exit(exitHang)
			}
		}
		if rss() > memLimit {
			os.Exit(exitMemory)
		}
	}
}

func child(id, out, slotFile string) int {
	p := findProp(id)
	if p == nil {
		fmt.Println("no such property", id)
		return 2
	}
	var slots []byte
	if slotFile != "" {
		f, err := os.OpenFile(slotFile, os.O_RDWR, 0)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		slots, err = syscall.Mmap(int(f.Fd()), 0, 16*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fmt.Println(err)
			return 2
		}
	}
	c := newCtx(p, slots)
	go c.watch()
	p.run(c)
	c.rep.Counts = map[string]int64{}
	for _, w := range c.ws {
		c.rep.States += w.states
		c.rep.Transitions += w.trans
		c.rep.Traces += w.traces
		c.rep.Cases += w.cas
		for k, v := range w.counts {
			c.rep.Counts[k] += v
		}
	}
	c.rep.Exhaustive = !c.late.Load() && !c.stop.Load()
	c.rep.Done = true
	b, err := json.Marshal(&c.rep)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if out == "" {
		fmt.Println(string(b))
		return 0
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	return 0
}

func replay(v Violation) int {
	p := findProp(v.Property)
	if p == nil || p.replay == nil {
		fmt.Println("can't replay", v.Property)
		return 2
	}
	c := newCtx(p, nil)
	go c.watch()
	w := c.ws[0]
	w.do(&v.Case, func() string { return p.replay(w, v.Case) })
	if len(c.rep.Violations) > 0 {
		fmt.Printf("reproduced: %s\n", c.rep.Violations[0].What)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

// runReplay replays a case in its own process.
func runReplay(v Violation, limit time.Duration) (bad bool, what string) {
	dir, err := os.MkdirTemp("", "xmcr")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "case.json")
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0o644)
	cmd := exec.Command(os.Args[0], "replay", f)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &limited{b: &sb, n: 2000}
	if err := cmd.Start(); err != nil {
		return false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return true, fmt.Sprintf("does not end within %s", limit)
	}
	code := cmd.ProcessState.ExitCode()
	o := strings.TrimSpace(sb.String())
	switch code {
	case 0:
		return false, o
	case 1:
		return true, o
	case exitHang:
		return true, fmt.Sprintf("does not end within %s", hangAfter)
	case exitMemory:
		return true, "uses more than 8 GB of memory"
	default:
		if i := strings.IndexByte(o, '\n'); i > 0 {
			o = o[:i]
		}
		return true, fmt.Sprintf("process died (exit %d): %s", code, o)
	}
}

type limited struct {
	b *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if k := len(p); l.n > 0 {
		if k > l.n {
			k = l.n
		}
		l.b.Write(p[:k])
		l.n -= k
	}
	return len(p), nil
}

func parent(id string) int {
	t0 := time.Now()
	p := findProp(id)
	if p == nil {
		fmt.Println("no such property", id)
		return 2
	}
	dir, err := os.MkdirTemp("", "xmc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	slotFile := filepath.Join(dir, "slots")
	if err := os.WriteFile(slotFile, make([]byte, 16*slotSize), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	out := filepath.Join(dir, "report.json")
	var rep Report
	var runErr error
	var errb strings.Builder
	for try := 0; !rep.Done && len(rep.Violations) == 0 && try < 2; try++ {
		cmd := exec.Command(os.Args[0], "explore", id, "-out", out, "-slots", slotFile)
		if try > 0 { // what ended it does not show again by itself: perhaps the machine was busy
			cmd.Env = append(os.Environ(), "XMC_HANG=240", fmt.Sprintf("XMC_BUDGET=%d", max(60, int((850*time.Second-time.Since(t0)).Seconds()))))
		}
		cmd.Stdout = os.Stdout
		cmd.Stderr = &limited{b: &errb, n: 6000}
		runErr = cmd.Run()
		if b, err := os.ReadFile(out); err == nil {
			json.Unmarshal(b, &rep)
		}
		if rep.Done {
			break
		}
		// the explorer died: find the case which did it
		sb, _ := os.ReadFile(slotFile)
		n := 0
		for i := 0; i < 16; i++ {
			cs, ok := readSlot(sb[i*slotSize : (i+1)*slotSize])
			if !ok {
				continue
			}
			v := Violation{id, cs, ""}
			if bad, what := runReplay(v, 100*time.Second); bad {
				v.What = what
				rep.Violations = append(rep.Violations, v)
				if n++; n == 2 {
					break
				}
			}
		}
	}
	if !rep.Done && len(rep.Violations) == 0 {
		fmt.Printf("explorer failed: %v\n%s\n", runErr, errb.String())
		return 2
	}
	// a violation counts when it shows again on its own; what was seen once is reported too, marked so
	var bad, shaky []Violation
	knownSeen := map[string]string{}
	for _, v := range rep.Violations {
		if isKnown(v) {
			knownSeen[v.key()] = v.What
			continue
		}
		if p.replay != nil && len(bad) < maxViolations {
			again := 0
			for i := 0; i < 5; i++ {
				if b, _ := runReplay(v, 100*time.Second); b {
					again++
				}
				if strings.Contains(v.What, "does not end") {
					break
				}
			}
			v.What += fmt.Sprintf(" [replayed: %d of 5]", again)
			if again == 0 {
				shaky = append(shaky, v)
				continue
			}
		}
		bad = append(bad, v)
	}
	if len(bad) == 0 {
		bad = shaky // e.g. a data race seen while several cases ran
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"states":                        rep.States,
		"transitions":                   rep.Transitions,
		"traces_validated_against_impl": rep.Traces,
		"executions":                    rep.Cases,
		"exhaustive":                    rep.Exhaustive,
		"rule":                          p.rule,
		"samples":                       rep.Samples,
		"counts":                        rep.Counts,
	}
	if rep.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
		"assumptions": p.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d executions, %d states, %d transitions, exhaustive=%v, %.1fs\n", id, rep.Cases, rep.States, rep.Transitions, rep.Exhaustive, time.Since(t0).Seconds())
	for _, f := range loadKnown() {
		if f.Status == "open" && f.Property == id && f.Case != nil {
			if _, ok := knownSeen[Violation{id, *f.Case, ""}.key()]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
			}
		}
	}
	if len(bad) == 0 {
		return 0
	}
	rdir := filepath.Join(verifDir, "out", id)
	os.RemoveAll(rdir)
	os.MkdirAll(rdir, 0o755)
	for i, v := range bad {
		f := filepath.Join(rdir, fmt.Sprintf("violation%d.json", i+1))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
		fmt.Printf("%s\n  grammar: %q rule %q text %q flag %d start %d %s\n", v.What, v.Case.Src, v.Case.Rule, v.Case.Text, v.Case.Flag, v.Case.Start, v.Case.Extra)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
	}
	return 1
}
