package main

import (
	"fmt"
	"os"
)

type check struct {
	run  func(c *Ctx)
	rule string
	asm  []string
}

var checks = map[string]check{}

func main() {
	if os.Getenv("PROBE_LOG") != "" {
		probeMain()
	}
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain()
		return
	case "check":
		id := os.Args[2]
		k, ok := checks[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown check", id)
			os.Exit(2)
		}
		c := newCtx(id)
		c.Rule, c.Assume = k.rule, k.asm
		c.regress()
		if os.Getenv("VERIF_CORPUS") == "" { // development: regression inputs only
			k.run(c)
		}
		os.Exit(c.finish())
	}
	if f, ok := tools[os.Args[1]]; ok {
		f(os.Args[2:])
		return
	}
	os.Exit(2)
}

var tools = map[string]func(args []string){}
