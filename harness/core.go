// Package main is the runtime-monitoring harness for coveooss/gotemplate.
//
// Every property is a set of suites. A suite is a fixed, PRNG-determined list of
// cases; running a case drives the real code (through its exported API or through
// the built command line binary) and a monitor compares what was observed with an
// independent oracle. Cases are sharded over child processes so that the process
// wide state of the code under test is never shared between concurrent cases.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

// Suite is a list of Quick (or Thorough) cases.
type Suite struct {
	Name            string
	Quick, Thorough int
	Run             func(c *Ctx)
	// Need lists events that must have been observed at least once (over all cases) for
	// the suite to mean anything: their absence makes the run inconclusive.
	Need []string
	// Once is run one time per child process before the first case.
	Once func(c *Ctx)
}

// Property groups the suites that decide one property.
type Property struct {
	ID          string
	Rule        string
	Assumptions []string
	Suites      []Suite
	Race        bool // run the children from a -race build
	Seq         bool // a single child
}

// Failure is one observed violation.
type Failure struct {
	Property string `json:"property"`
	Suite    string `json:"suite"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Kind     string `json:"kind"`
	Detail   string `json:"detail"`
}

// Report is what a child hands to its parent.
type Report struct {
	Evaluations int
	Hashes      []uint64
	Events      map[string]int
	Samples     []string
	Failures    []Failure
	PerSuite    map[string]int
}

// Ctx is given to each case.
type Ctx struct {
	Prop     *Property
	Suite    *Suite
	Index    int
	Rng      *rand.Rand
	Seed     int64
	Thorough bool
	Scratch  string // a private, existing, empty directory removed after the case (created on demand by Dir)
	rep      *childState
	failed   int
}

type childState struct {
	report  Report
	seen    map[uint64]struct{}
	sampled map[string]int
	base    string
	nDir    int
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func caseSeed(seed int64, prop, suite string, idx int) int64 {
	return int64(hash64(fmt.Sprintf("%d|%s|%s|%d", seed, prop, suite, idx)) >> 1)
}

// Obs records one evaluation. key identifies the case, nontrivial says whether it
// counts as a meaningful one under the rule of the property.
func (c *Ctx) Obs(key string, nontrivial bool) {
	c.rep.report.Evaluations++
	c.rep.report.PerSuite[c.Suite.Name]++
	if nontrivial {
		c.rep.seen[hash64(c.Suite.Name+"\x00"+key)] = struct{}{}
		if c.rep.sampled[c.Suite.Name] < 2 {
			c.rep.sampled[c.Suite.Name]++
			c.rep.report.Samples = append(c.rep.report.Samples, clip(fmt.Sprintf("%s: %s", c.Suite.Name, key), 600))
		}
	}
}

// Event counts something that the monitor really saw.
func (c *Ctx) Event(name string, n ...int) {
	k := 1
	if len(n) > 0 {
		k = n[0]
	}
	if k != 0 {
		c.rep.report.Events[name] += k
	}
}

// Fail records a violation.
func (c *Ctx) Fail(kind, format string, args ...interface{}) {
	c.failed++
	if len(c.rep.report.Failures) < 50 {
		c.rep.report.Failures = append(c.rep.report.Failures, Failure{
			c.Prop.ID, c.Suite.Name, c.Index, c.Seed, kind, clip(fmt.Sprintf(format, args...), 6000),
		})
	}
}

// Dir returns a new empty private directory, removed when the case ends.
func (c *Ctx) Dir() string {
	if c.Scratch == "" {
		c.rep.nDir++
		c.Scratch = fmt.Sprintf("%s/c%d", c.rep.base, c.rep.nDir)
		must0(os.MkdirAll(c.Scratch, 0755))
	}
	return c.Scratch
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}

func must0(err error) {
	if err != nil {
		panic(err)
	}
}

func must1[T any](v T, err error) T {
	must0(err)
	return v
}

// runCase runs one case; a panic escaping the code under test is a violation.
func runCase(st *childState, p *Property, s *Suite, idx int, seed int64, thorough bool) {
	c := &Ctx{Prop: p, Suite: s, Index: idx, Seed: seed, Thorough: thorough, rep: st,
		Rng: rand.New(rand.NewSource(caseSeed(seed, p.ID, s.Name, idx)))}
	defer func() {
		if rec := recover(); rec != nil {
			c.Fail("panic", "panic: %v\n%s", rec, debug.Stack())
		}
		if c.Scratch != "" {
			os.RemoveAll(c.Scratch)
		}
	}()
	s.Run(c)
}

// Try calls f and turns a panic into (true, description).
func Try(f func()) (panicked bool, what string) {
	defer func() {
		if rec := recover(); rec != nil {
			panicked, what = true, fmt.Sprintf("%v", rec)
		}
	}()
	f()
	return
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// pick returns a random element.
func pick[T any](r *rand.Rand, list ...T) T { return list[r.Intn(len(list))] }

func randString(r *rand.Rand, alphabet string, min, max int) string {
	runes := []rune(alphabet)
	n := min
	if max > min {
		n += r.Intn(max - min + 1)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(runes[r.Intn(len(runes))])
	}
	return sb.String()
}
