package main

import "math/rand/v2"

func init() {
	checks["C05"] = check{run: runC05,
		rule: "the generators and tables of C01-C04 with 32-bit integers and a cmd-neutral string alphabet; the emitted Batch script is executed by a model of cmd.exe (percent expansion per line, delayed expansion, compound commands, forward-then-wrap label search, numeric vs. string IF, call frames, 32-bit SET /A) and compared with the reference interpreter; a share of the programs is also executed by /bin/bash. Distinct = distinct program text; non-trivial = at least one loop, branch or call and one line of output.",
		asm:  []string{"the model of cmd.exe in harness/cmdsim.go represents cmd.exe (calibrated on the expectations of the repository's own programs)", "-2147483648 as an operand, strings with characters special to cmd.exe, files, input and commands are not executed in the model"}}
}

var neutralStrings = []string{"", "a", "b", "ab", "abc", "Hello", "x y", "hello world", "0", "1", "00", "-1", "z9", "A", "AbC", "1 0", "foo.bar", "a-b", "q_r", "12345", "a,b", "k=v", "p;q", "(x)", "on", "off", "/?", " lead", "trail ", "x:y", "[z]", "#1", "$5", "a'b", "back`tick", "{}", "@at", "*", "?", "~1", "a:~1", "+1", "\\n\\"}

func batchify(i int, o GenOpt) GenOpt {
	o.Bits = 32
	if i%2 == 1 {
		o.StrLit = func(r *rand.Rand) string { return neutralStrings[r.IntN(len(neutralStrings))] }
	}
	return o
}

func runC05(c *Ctx) {
	c.opTables(onBatch, 32)
	c.ctlTables(onBatch, 32)
	c.tableProgs("calls", callTable(32), onBatch, 32)
	c.tableProgs("substr", subTable(c.thorough()), onBatch, 32)
	c.tableProgs("scale", scaleTable("sflt", 32, c.thorough()), onBatch, 32)
	c.tableProgs("sites", siteTable(c.thorough()), onBatch, 32)
	c.matrix([]Type{TInt, TBool, TStr, SInt, SBool, SStr}, mxPlain, onBatch, 32, c.pick(1, 3), false)
	c.histories(c.pick(1500, 20000), onBatch, 32)
	c.evalOrder(onBatch, 32)
	nt := func(in *Interp) bool {
		return in.Lines > 0 && in.Kinds[SFor]+in.Kinds[SIf]+in.Kinds[SSwitch]+in.Kinds[SRange]+in.calls > 0
	}
	c.genPhase("scalar", c.pick(4000, 60000), func(i int) GenOpt { return batchify(i, scalarOpt(i)) }, onBatch, nt)
	c.genPhase("func", c.pick(4000, 60000), func(i int) GenOpt { return batchify(i, funcOpt(i)) }, onBatch, nt)
	c.genPhase("slice", c.pick(4000, 60000), func(i int) GenOpt { return batchify(i, sliceOpt(i)) }, onBatch, nt)
	c.genPhase("trace", c.pick(3000, 40000), func(i int) GenOpt { return batchify(i, traceOpt(i)) }, onBatch, nt)
	c.genPhase("both", c.pick(300, 5000), func(i int) GenOpt {
		o := batchify(i, sliceOpt(i))
		o.BigInts, o.NoWrap = false, true
		return o
	}, onBash|onBatch, nt)
}
