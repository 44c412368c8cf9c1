// Package h is the shared part of the property checks: case accounting for the
// evidence files, scratch directories, error classification and generators.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// InfraExit is the exit status of a run that could not decide anything.
const InfraExit = 3

// Infra ends the process: the machine, not the code under test, failed.
func Infra(format string, args ...any) {
	fmt.Printf("VERIF-INFRA: "+format+"\n", args...)
	os.Exit(InfraExit)
}

// Thorough tells which tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed is the base seed of this process (never 0).
func Seed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_RAPID_SEED"), 10, 64)
	if err != nil || n == 0 {
		return 1
	}
	return n
}

// Opt bounds a check: the number of cases per process and tier.
type Opt struct {
	Quick, Thorough int
	Steps           int // average steps of t.Repeat
}

type record struct {
	Test        string         `json:"test"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    []uint64       `json:"distinct"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Skipped     int            `json:"skipped"`
	WallS       float64        `json:"wall_s"`
}

type rec struct {
	mu       sync.Mutex
	r        record
	distinct map[uint64]bool
}

// C is one generated case.
type C struct {
	*rapid.T
	trace      []string
	traceLen   int
	classes    map[string]bool
	nontrivial bool
	defers     []func()
	dirs       []string
	mu         sync.Mutex // guards trace against the watchdog
}

// Op records a step of the case; it shows in samples and failure output and
// identifies the case when distinct cases are counted.
func (c *C) Op(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	c.mu.Lock()
	c.trace = append(c.trace, s)
	c.mu.Unlock()
	c.T.Log(s)
}

// Class labels the case.
func (c *C) Class(name string) { c.classes[name] = true }

// NonTrivial marks the case as one that exercises what the property is about.
func (c *C) NonTrivial() { c.nontrivial = true }

// Defer runs f when the case ends, last first.
func (c *C) Defer(f func()) { c.defers = append(c.defers, f) }

// Must fails the case if err is not nil: the operation is one that has to succeed.
func (c *C) Must(err error, what string, args ...any) {
	c.T.Helper()
	if err != nil {
		CheckInfra(err)
		c.Fatalf("%s: unexpected error: %v", fmt.Sprintf(what, args...), err)
	}
}

// CheckInfra ends the process if err says that the machine failed.
func CheckInfra(err error) {
	if err == nil {
		return
	}
	s := err.Error()
	for _, m := range []string{"no space left", "cannot allocate memory", "too many open files", "disk is full", "database or disk is full", "out of memory"} {
		if strings.Contains(s, m) {
			Infra("%s", s)
		}
	}
}

// Dir returns a fresh scratch directory that goes with the case.
func (c *C) Dir() string {
	d, err := os.MkdirTemp(ScratchBase(), "c")
	if err != nil {
		Infra("scratch: %v", err)
	}
	c.dirs = append(c.dirs, d)
	return d
}

// ScratchBase is this process's scratch directory, made and removed by the driver.
func ScratchBase() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

func (c *C) end() {
	for i := len(c.defers) - 1; i >= 0; i-- {
		c.defers[i]()
	}
	for _, d := range c.dirs {
		_ = os.RemoveAll(d)
	}
}

var start = time.Now()

func budget() time.Duration {
	n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S"))
	if err != nil || n <= 0 {
		n = 60
	}
	return time.Duration(n) * time.Second
}

// Check runs prop over generated cases.
func Check(t *testing.T, o Opt, prop func(c *C)) {
	t.Helper()
	n := o.Quick
	if Thorough() {
		n = o.Thorough
	}
	if n < 1 {
		n = 1
	}
	if m, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && m > 0 {
		n = int(float64(n)*m) + 1
	}
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			Infra("%v", err)
		}
	}
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.seed", strconv.FormatUint(Seed(), 10))
	if os.Getenv("VERIF_SHRINK") != "" {
		set("rapid.shrinktime", os.Getenv("VERIF_SHRINK"))
	} else {
		set("rapid.shrinktime", "20s")
	}
	if o.Steps > 0 {
		set("rapid.steps", strconv.Itoa(o.Steps))
	}
	if f := os.Getenv("VERIF_FAILFILE"); f != "" {
		set("rapid.failfile", f)
	}
	r := &rec{distinct: map[uint64]bool{}, r: record{Test: t.Name(), Classes: map[string]int{}}}
	began := time.Now()
	failing := false
	defer func() {
		r.r.WallS = time.Since(began).Seconds()
		r.write()
	}()
	rapid.Check(t, func(rt *rapid.T) {
		if !failing && time.Since(start) > budget() {
			r.r.Skipped++
			return
		}
		c := &C{T: rt, classes: map[string]bool{}}
		ok := false
		watching(c)
		defer func() {
			c.end()
			watching(nil)
			if ok {
				r.add(c)
			} else {
				failing = true // the budget does not cut shrinking short
			}
		}()
		prop(c)
		ok = !rt.Failed()
	})
}

func (r *rec) add(c *C) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.r.Evaluations++
	for k := range c.classes {
		r.r.Classes[k]++
	}
	if !c.nontrivial {
		return
	}
	r.r.NonTrivial++
	h := fnv.New64a()
	for _, s := range c.trace {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	sum := h.Sum64()
	if !r.distinct[sum] {
		r.distinct[sum] = true
		if len(r.r.Samples) < 3 {
			s := strings.Join(c.trace, "; ")
			if len(s) > 700 {
				s = s[:700] + "..."
			}
			r.r.Samples = append(r.r.Samples, strings.ToValidUTF8(s, "?"))
		}
	}
}

func (r *rec) write() {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		return
	}
	for k := range r.distinct {
		r.r.Distinct = append(r.r.Distinct, k)
	}
	sort.Slice(r.r.Distinct, func(i, j int) bool { return r.r.Distinct[i] < r.r.Distinct[j] })
	b, err := json.Marshal(r.r)
	if err != nil {
		Infra("%v", err)
	}
	if err := os.WriteFile(filepath.Join(out, strings.ReplaceAll(r.r.Test, "/", "_")+".json"), b, 0o644); err != nil {
		Infra("%v", err)
	}
}
