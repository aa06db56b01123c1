// xmc model checks the xbnf implementation in /repo against the reference model in xmc/spec.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
)

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		fmt.Println("usage: xmc check ID | explore ID | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props {
			fmt.Println(p.id)
		}
	case "check":
		os.Exit(parent(os.Args[2]))
	case "explore":
		fs := flag.NewFlagSet("explore", flag.ExitOnError)
		out := fs.String("out", "", "")
		slots := fs.String("slots", "", "")
		fs.Parse(os.Args[3:])
		os.Exit(child(os.Args[2], *out, *slots))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(replay(v))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
	_ = runtime.NumCPU
}
