package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/coveooss/gotemplate/v3/collections"
	gjson "github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/template"
	"github.com/fatih/color"
)

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

// Environment handed by the wrapper script.
var (
	cliBinary = os.Getenv("VMON_CLI")     // gotemplate built from /repo
	raceSelf  = os.Getenv("VMON_RACE")    // -race build of this harness
	verifDir  = os.Getenv("VMON_DIR")     // /verif
	workDir   = os.Getenv("VMON_SCRATCH") // scratch directory removed by the wrapper
)

const hangLimit = 150 * time.Second

func main() {
	syscall.Umask(022) // the modes of the files created must not depend on the caller
	args := os.Args[1:]
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmon run|child|replay PROPERTY ...")
		os.Exit(2)
	}
	p := properties[args[1]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", args[1])
		os.Exit(2)
	}
	switch args[0] {
	case "run":
		os.Exit(runProperty(p))
	case "child":
		runChild(p, args[2:])
	case "cold": // cold PROPERTY seed: the first concurrent use of the library in a process
		initLibrary()
		coldEngines(must1(strconv.ParseInt(args[2], 10, 64)))
	case "replay": // replay PROPERTY suite index
		replay(p, args[2], must1(strconv.Atoi(args[3])))
	}
}

func seedAndTier() (int64, string) {
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return seed, tier
}

func initLibrary() {
	// Same collection helpers as the command line
	collections.SetListHelper(gjson.GenericListHelper)
	collections.SetDictionaryHelper(gjson.DictionaryHelper)
	color.NoColor = true
	template.InternalLog.SetHookLevel("", "panic")
	template.TemplateLog.SetHookLevel("", "panic")
}

func newState(base string) *childState {
	return &childState{base: base, seen: map[uint64]struct{}{}, sampled: map[string]int{},
		report: Report{Events: map[string]int{}, PerSuite: map[string]int{}}}
}

func suiteSize(s *Suite, thorough bool) int {
	if thorough {
		if s.Thorough == 0 {
			return s.Quick
		}
		return s.Thorough
	}
	return s.Quick
}

// child PROPERTY shard shards outfile progressfile skip,skip,...
func runChild(p *Property, args []string) {
	shard, shards := must1(strconv.Atoi(args[0])), must1(strconv.Atoi(args[1]))
	out, progress := args[2], args[3]
	skip := map[string]bool{}
	for _, s := range strings.Split(args[4], ",") {
		skip[s] = true
	}
	seed, tier := seedAndTier()
	base := filepath.Join(workDir, fmt.Sprintf("%s-%d", p.ID, shard))
	must0(os.MkdirAll(base, 0755))
	defer os.RemoveAll(base)
	must0(os.Chdir(base))
	initLibrary()
	st := newState(base)
	pf := must1(os.OpenFile(progress, os.O_CREATE|os.O_RDWR, 0644))
	n := 0
	for i := range p.Suites {
		s := &p.Suites[i]
		if s.Once != nil {
			s.Once(&Ctx{Prop: p, Suite: s, rep: st})
		}
		for idx := 0; idx < suiteSize(s, tier == "thorough"); idx++ {
			if idx%shards != shard {
				continue
			}
			id := fmt.Sprintf("%s:%d", s.Name, idx)
			if skip[id] {
				continue
			}
			n++
			pf.WriteAt([]byte(fmt.Sprintf("%-60s %12d\n", id, n)), 0)
			runCase(st, p, s, idx, seed, tier == "thorough")
			if len(st.report.Failures) >= 50 {
				break
			}
		}
	}
	for h := range st.seen {
		st.report.Hashes = append(st.report.Hashes, h)
	}
	must0(os.WriteFile(out, must1(json.Marshal(st.report)), 0644))
}

func replay(p *Property, suite string, idx int) {
	seed, tier := seedAndTier()
	base := must1(os.MkdirTemp("", "vmon-replay-"))
	defer os.RemoveAll(base)
	must0(os.Chdir(base))
	initLibrary()
	st := newState(base)
	for i := range p.Suites {
		if p.Suites[i].Name == suite {
			if s := &p.Suites[i]; s.Once != nil {
				s.Once(&Ctx{Prop: p, Suite: s, rep: st})
			}
			runCase(st, p, &p.Suites[i], idx, seed, tier == "thorough")
		}
	}
	for _, f := range st.report.Failures {
		fmt.Printf("FAIL %s %s:%d %s\n%s\n", f.Property, f.Suite, f.Index, f.Kind, f.Detail)
	}
	fmt.Println("events", st.report.Events)
}

type shardResult struct {
	report   Report
	failures []Failure
	inconcl  string
	log      string
}

func runShard(p *Property, shard, shards int, tmp string) (res shardResult) {
	seed, _ := seedAndTier()
	exe := must1(os.Executable())
	if p.Race {
		exe = raceSelf
	}
	var skips []string
	for attempt := 0; attempt < 4; attempt++ {
		out := filepath.Join(tmp, fmt.Sprintf("out-%d", shard))
		progress := filepath.Join(tmp, fmt.Sprintf("progress-%d", shard))
		logf := filepath.Join(tmp, fmt.Sprintf("log-%d", shard))
		os.Remove(out)
		lf := must1(os.Create(logf))
		cmd := exec.Command(exe, "child", p.ID, fmt.Sprint(shard), fmt.Sprint(shards), out, progress, strings.Join(skips, ","))
		cmd.Stdout, cmd.Stderr = lf, lf
		cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOTEMPLATE_NO_STDIN=1")
		if p.Race {
			cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(tmp, fmt.Sprintf("race-%d", shard)))
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		must0(cmd.Start())
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		hung := false
		var err error
		last, lastChange := "", time.Now()
		ticker := time.NewTicker(time.Second)
	wait:
		for {
			select {
			case err = <-done:
				break wait
			case <-ticker.C:
				b, _ := os.ReadFile(progress)
				if string(b) != last {
					last, lastChange = string(b), time.Now()
				} else if time.Since(lastChange) > hangLimit {
					hung = true
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					err = <-done
					break wait
				}
				if info, e := os.Stat(logf); e == nil && info.Size() > 200<<20 {
					os.Truncate(logf, 0)
				}
			}
		}
		ticker.Stop()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // whatever the child left behind
		lf.Close()
		b, rerr := os.ReadFile(out)
		if err == nil && rerr == nil && json.Unmarshal(b, &res.report) == nil {
			return
		}
		pb, _ := os.ReadFile(progress)
		current := strings.TrimSpace(strings.SplitN(string(pb)+" ", " ", 2)[0])
		suite, idxs, _ := strings.Cut(current, ":")
		idx, _ := strconv.Atoi(idxs)
		logb, _ := os.ReadFile(logf)
		tail := string(logb)
		if len(tail) > 5000 {
			head := tail[:0]
			if k := strings.Index(tail, "fatal error:"); k >= 0 {
				head = clip(tail[k:], 2500)
			} else if k := strings.Index(tail, "panic:"); k >= 0 {
				head = clip(tail[k:], 2500)
			}
			tail = head + "\n...\n" + tail[len(tail)-2500:]
		}
		if current == "" {
			res.inconcl = fmt.Sprintf("child %d did not start: %v\n%s", shard, err, tail)
			return
		}
		kind := "process-died"
		if hung {
			kind = "no-progress"
		}
		res.failures = append(res.failures, Failure{p.ID, suite, idx, seed, kind,
			fmt.Sprintf("the process running the code under test ended abnormally (%v, hung=%v) during this case\n%s", err, hung, tail)})
		skips = append(skips, current)
		if hung && len(res.failures) >= 1 {
			break
		}
	}
	return
}

func runProperty(p *Property) int {
	start := time.Now()
	seed, tier := seedAndTier()
	tmp := must1(os.MkdirTemp(workDir, "run-"))
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if p.Seq {
		shards = 1
	}
	results := make([]shardResult, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); results[i] = runShard(p, i, shards, tmp) }(i)
	}
	wg.Wait()

	total := Report{Events: map[string]int{}, PerSuite: map[string]int{}}
	distinct := map[uint64]struct{}{}
	var inconclusive []string
	for _, r := range results {
		total.Evaluations += r.report.Evaluations
		for _, h := range r.report.Hashes {
			distinct[h] = struct{}{}
		}
		for k, v := range r.report.Events {
			total.Events[k] += v
		}
		for k, v := range r.report.PerSuite {
			total.PerSuite[k] += v
		}
		if len(total.Samples) < 12 {
			total.Samples = append(total.Samples, r.report.Samples...)
		}
		total.Failures = append(total.Failures, r.report.Failures...)
		total.Failures = append(total.Failures, r.failures...)
		if r.inconcl != "" {
			inconclusive = append(inconclusive, r.inconcl)
		}
	}
	if p.Race {
		total.Failures = append(total.Failures, raceReports(p, tmp, seed)...)
	}
	if len(total.Samples) > 12 {
		total.Samples = total.Samples[:12]
	}
	if len(total.Failures) == 0 {
		for i := range p.Suites {
			s := &p.Suites[i]
			if total.PerSuite[s.Name] == 0 {
				inconclusive = append(inconclusive, "suite "+s.Name+" observed nothing")
			}
			for _, e := range s.Need {
				if total.Events[e] == 0 {
					inconclusive = append(inconclusive, "event "+e+" of suite "+s.Name+" never observed")
				}
			}
		}
	}

	known := loadKnown(p.ID)
	var fresh []Failure
	shownKnown := map[string]bool{}
	for _, f := range total.Failures {
		if k := known.match(f); k != "" {
			shownKnown[k] = true
			continue
		}
		fresh = append(fresh, f)
	}
	for _, k := range sortedKeys(shownKnown) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}

	evidence := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             total.Samples,
			"events_observed":     total.Events,
			"cases_per_suite":     total.PerSuite,
			"child_processes":     shards,
			"race_detector":       p.Race,
		},
		"assumptions": append([]string{"held on the executions counted here, nothing is claimed about inputs the workload did not produce"}, p.Assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(fresh),
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0755)
	must0(os.WriteFile(filepath.Join(evDir, p.ID+".json"), append(must1(json.MarshalIndent(evidence, "", " ")), '\n'), 0644))

	if len(fresh) > 0 {
		rp := filepath.Join(evDir, "replay-"+p.ID+".json")
		os.WriteFile(rp, append(must1(json.MarshalIndent(fresh, "", " ")), '\n'), 0644)
		for i, f := range fresh {
			if i == 8 {
				fmt.Printf("... and %d more\n", len(fresh)-i)
				break
			}
			fmt.Printf("--- %s %s case %d [%s]\n%s\n", f.Property, f.Suite, f.Index, f.Kind, clip(f.Detail, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
		return 1
	}
	if len(inconclusive) > 0 {
		fmt.Println("INCONCLUSIVE", p.ID, strings.Join(inconclusive, "; "))
		return 2
	}
	fmt.Printf("held property=%s evaluations=%d distinct=%d events=%s wall=%.1fs\n", p.ID, total.Evaluations, len(distinct), js(total.Events), time.Since(start).Seconds())
	return 0
}

// raceReports collects the race detector logs of the children, one failure per distinct pair of locations.
func raceReports(p *Property, tmp string, seed int64) (result []Failure) {
	files, _ := filepath.Glob(filepath.Join(tmp, "race-*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, block := range strings.Split(string(b), "==================") {
			if !strings.Contains(block, "WARNING: DATA RACE") {
				continue
			}
			key := raceKey(block)
			if !seen[key] {
				seen[key] = true
				result = append(result, Failure{p.ID, "race-detector", 0, seed, "data-race", key + "\n" + clip(strings.TrimSpace(block), 5000)})
			}
		}
	}
	return
}

// raceKey keeps the function names of the two accesses, without line numbers.
func raceKey(block string) string {
	var names []string
	lines := strings.Split(block, "\n")
	for i, l := range lines {
		if strings.Contains(l, "by goroutine") || strings.Contains(l, "by main goroutine") {
			for j := i + 1; j < len(lines) && j < i+12; j++ {
				t := strings.TrimSpace(lines[j])
				if strings.Contains(t, "gotemplate/v3") && strings.HasSuffix(t, ")") {
					names = append(names, t)
					break
				}
			}
		}
	}
	return strings.Join(names, " <-> ")
}
