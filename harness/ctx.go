package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------------------------------------------
// Coordinator: parallel case execution, violations, known findings, evidence.
// ---------------------------------------------------------------------------------------------------------

type Slot struct {
	id       int
	c        *Ctx
	w        *Worker
	dir      string // scratch (owned by root)
	roDir    string // empty working directory for scripts without file operations
	restarts int
}

type Violation struct {
	Case   string
	What   string
	Detail map[string]string
	Key    string
}

type Ctx struct {
	ID        string
	Tier      string
	Seed      int64
	Verif     string
	Work      string
	Level     string
	Rule      string
	Assume    []string
	Slots     []*Slot
	mu        sync.Mutex
	counts    map[string]int64
	distinct  map[uint64]struct{}
	samples   []string
	sampled   map[string]int
	viol      []Violation
	known     []string
	inconc    []string
	evals     int64
	stop      atomic.Bool
	start     time.Time
	only      int64 // replay of a single case index
	onlyPh    string
	verbose   bool
	scriptCPU time.Duration
	samp      uint64 // development: run one of samp cases, end at the first violation
}

func newCtx(id string) *Ctx {
	c := &Ctx{ID: id, Tier: os.Getenv("VERIF_TIER"), Level: "exploration", counts: map[string]int64{}, distinct: map[uint64]struct{}{}, sampled: map[string]int{}, start: time.Now(), only: -1}
	if c.Tier == "" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c.Verif = os.Getenv("VERIF_ROOT")
	if c.Verif == "" {
		c.Verif = "/verif"
	}
	exe, _ := os.Executable()
	c.Work = filepath.Dir(exe)
	if s := os.Getenv("VERIF_ONLY"); s != "" { // PHASE or PHASE:INDEX
		p := strings.SplitN(s, ":", 2)
		c.onlyPh = p[0]
		if len(p) > 1 {
			c.only, _ = strconv.ParseInt(p[1], 10, 64)
		}
	}
	c.verbose = os.Getenv("VERIF_VERBOSE") != ""
	c.samp, _ = strconv.ParseUint(os.Getenv("VERIF_SAMPLE"), 10, 64)
	n := 8
	if s := os.Getenv("VERIF_JOBS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	for i := 0; i < n; i++ {
		s := &Slot{id: i, c: c, dir: filepath.Join(c.Work, "slot"+strconv.Itoa(i))}
		os.MkdirAll(s.dir, 0o755)
		s.roDir = filepath.Join(s.dir, "cwd")
		os.MkdirAll(s.roDir, 0o755)
		c.Slots = append(c.Slots, s)
	}
	probeDrop()
	return c
}

func (c *Ctx) thorough() bool { return c.Tier == "thorough" }

// pick chooses the number of cases for the tier.
func (c *Ctx) pick(quick, thorough int) int {
	if c.thorough() {
		return thorough
	}
	return quick
}

func seedFor(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return h.Sum64()
}

func (c *Ctx) rng(phase string, i int) *rand.Rand {
	return rand.New(rand.NewPCG(seedFor(c.Seed, "/", c.ID, "/", phase), uint64(i)*0x9E3779B97F4A7C15+1))
}

// each runs n cases of a phase on all slots. Cases only depend on seed, check, phase and index.
func (c *Ctx) each(phase string, n int, f func(s *Slot, i int, r *rand.Rand)) {
	if c.only < 0 && c.onlyPh != "" && c.onlyPh != phase && phase != "base" {
		return
	}
	if c.only >= 0 && phase != "base" {
		if c.onlyPh == phase {
			f(c.Slots[0], int(c.only), c.rng(phase, int(c.only)))
		}
		return
	}
	t0 := time.Now()
	var next atomic.Int64
	var wg sync.WaitGroup
	for _, s := range c.Slots {
		wg.Add(1)
		go func(s *Slot) {
			defer wg.Done()
			for !c.stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if c.samp > 1 && phase != "base" && seedFor("sample", phase, i)%c.samp != 0 {
					continue
				}
				f(s, i, c.rng(phase, i))
			}
		}(s)
	}
	wg.Wait()
	fmt.Fprintf(os.Stderr, "[%s] phase %s: %d cases, %.1f s\n", c.ID, phase, n, time.Since(t0).Seconds())
}

// maxCPU notes the CPU time of the most expensive script.
func (c *Ctx) maxCPU(d time.Duration) {
	c.mu.Lock()
	c.scriptCPU = max(c.scriptCPU, d)
	c.mu.Unlock()
}

func (c *Ctx) eval(n int) { atomic.AddInt64(&c.evals, int64(n)) }

func (c *Ctx) count(key string, n int) {
	c.mu.Lock()
	c.counts[key] += int64(n)
	c.mu.Unlock()
}

func (c *Ctx) seen(parts ...any) {
	h := seedFor(parts...)
	c.mu.Lock()
	c.distinct[h] = struct{}{}
	c.mu.Unlock()
}

func (c *Ctx) sample(kind, s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampled[kind] < 2 && len(c.samples) < 16 {
		c.sampled[kind]++
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.samples = append(c.samples, kind+": "+strings.ToValidUTF8(s, "?"))
	}
}

func (c *Ctx) violate(kase, what string, detail map[string]string) {
	if c.samp > 0 {
		fmt.Printf("VIOLATION property=%s (sampled run) %s: %s\n", c.ID, kase, what)
		os.Exit(1)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viol) == 0 {
		// The verdict is settled. Do not spend much more time on further cases (they might all run into limits).
		time.AfterFunc(45*time.Second, func() { c.stop.Store(true) })
	}
	if len(c.viol) < 5 {
		c.viol = append(c.viol, Violation{Case: kase, What: what, Detail: detail})
	}
	if len(c.viol) >= 3 {
		c.stop.Store(true)
	}
}

func (c *Ctx) inconclusive(what string) {
	c.mu.Lock()
	c.inconc = append(c.inconc, what)
	n := len(c.inconc)
	c.mu.Unlock()
	if n > 20 {
		c.stop.Store(true)
	}
}

func readKnown(verif, id string) (keys []string) {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" key=") {
			keys = append(keys, strings.TrimPrefix(l, "finding: property="+id+" key="))
		}
	}
	return keys
}

func (c *Ctx) finish() int {
	for _, s := range c.Slots {
		if s.w != nil {
			s.w.stop()
		}
	}
	real := []Violation{}
	for _, v := range c.viol {
		isKnown := false
		for _, k := range readKnown(c.Verif, c.ID) {
			key, what, _ := strings.Cut(k, " ")
			if key == v.Key && v.Key != "" {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
			}
		}
		if !isKnown {
			real = append(real, v)
		}
	}
	exit := 0
	for i, v := range real {
		dir := filepath.Join(c.Verif, "replays")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", c.ID, i))
		b := bytes.Buffer{}
		fmt.Fprintf(&b, "property: %s\nseed: %d\ntier: %s\ncase: %s\nwhat: %s\n", c.ID, c.Seed, c.Tier, v.Case, v.What)
		keys := []string{}
		for k := range v.Detail {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(&b, "\n===== %s =====\n%s\n", k, v.Detail[k])
		}
		os.WriteFile(p, b.Bytes(), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		fmt.Printf("  %s\n", strings.SplitN(v.What, "\n", 2)[0])
		exit = 1
	}
	wall := time.Since(c.start).Seconds()
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.Rule,
		"samples":             c.samples,
		"observed":            c.counts,
		"inconclusive":        len(c.inconc),
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "assumptions": c.Assume, "wall_s": wall, "violations": len(real),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.Verif, "evidence"), 0o755)
	if c.only < 0 {
		if err := os.WriteFile(filepath.Join(c.Verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if exit == 0 {
		if len(c.inconc) > 0 {
			fmt.Fprintf(os.Stderr, "inconclusive: %d cases, first: %s\n", len(c.inconc), c.inconc[0])
			// A few cases without an answer on a loaded machine do not decide anything; many make the run useless.
			if len(c.inconc) > 20 {
				return 2
			}
		}
		if (c.evals == 0 || len(c.distinct) == 0) && c.only < 0 {
			fmt.Fprintln(os.Stderr, "nothing was observed")
			return 2
		}
	}
	if exit == 0 {
		fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n", c.ID, c.evals, len(c.distinct), wall)
		fmt.Fprintf(os.Stderr, "[%s] most expensive script: %.1f s CPU\n", c.ID, c.scriptCPU.Seconds())
	}
	return exit
}
