package main

// One check: run every harness of a property, replay what was found, write the evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type harnessReport struct {
	Harness     string         `json:"harness"`
	Bound       string         `json:"bound"`
	Paths       int            `json:"paths"`
	Infeasible  int            `json:"paths_cut_by_assumptions"`
	Decisions   int            `json:"decisions"`
	Steps       int            `json:"instructions"`
	MaxSteps    int            `json:"longest_path_instructions"`
	Asserts     int            `json:"assertions_checked"`
	Proved      int            `json:"assertions_discharged"`
	Complete    bool           `json:"bound_exhausted"`
	Why         string         `json:"why_incomplete,omitempty"`
	Unsupported map[string]int `json:"not_encoded,omitempty"`
	Unknown     int            `json:"solver_unknown"`
	Reached     map[string]int `json:"witnesses"`
	Missing     []string       `json:"witnesses_missing,omitempty"`
	Rejects     int            `json:"deliberate_rejections"`
	RaceQueries int            `json:"race_queries,omitempty"`
	RacePairs   int            `json:"conflicting_access_pairs,omitempty"`
	Queries     int            `json:"queries"`
	SolverS     float64        `json:"solver_s"`
	WallS       float64        `json:"wall_s"`
	Validated   int            `json:"paths_replayed_natively"`
	Disagree    int            `json:"replay_disagreements"`
	Findings    int            `json:"solver_findings"`
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

func loadKnown(dir string) []knownFinding {
	var k struct {
		Findings []knownFinding `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err == nil {
		json.Unmarshal(b, &k)
	}
	return k.Findings
}

func hasTier(h *Harness, t string) bool {
	for _, x := range h.Tiers {
		if x == t {
			return true
		}
	}
	return false
}

func runCheck(cfg *Config, prop, tier string) int {
	t0 := time.Now()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	hs, err := harnesses(filepath.Join(cfg.Verif, "harness"))
	if err != nil {
		fmt.Println("harness files:", err)
		return 2
	}
	var mine []*Harness
	for _, h := range hs {
		if h.Prop == prop && (hasTier(h, tier)) && (cfg.Only == "" || cfg.Only == h.Name) {
			mine = append(mine, h)
		}
	}
	if len(mine) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	p, err := load(cfg.Repo, filepath.Join(cfg.Verif, "harness"))
	if err != nil {
		fmt.Println("load:", err)
		return 2
	}
	for _, h := range mine {
		h.fn = p.main.Func(h.Name)
		if h.fn == nil {
			fmt.Println("harness function missing:", h.Name)
			return 2
		}
	}
	budget := 180
	if tier == "thorough" {
		budget = 420
	}
	if cfg.BudgetSec > 0 {
		budget = cfg.BudgetSec
	}
	nat := newNative(cfg)
	defer nat.close()
	natReady := make(chan bool)
	if !cfg.NoReplay {
		go func() { nat.build(false); close(natReady) }()
	} else {
		close(natReady)
	}
	cp := newCompiler(p)
	deadline := time.Now().Add(time.Duration(budget) * time.Second)
	ws := make([]*Worker, cfg.Workers)
	for i := range ws {
		ws[i] = newWorker(i, cp, cfg)
		if cfg.Profile {
			ws[i].profile = map[string]int{}
		}
	}
	var reports []*harnessReport
	var viols []*Violation
	var samples []any
	userFuncs, libFuncs := map[string]bool{}, map[string]bool{}
	sort.SliceStable(mine, func(i, j int) bool { return mine[i].Weight < mine[j].Weight })
	totW := 0.0
	for _, h := range mine {
		totW += h.Weight
	}
	replayed, disagree := 0, 0
	paths, decisions, steps := 0, 0, 0
	var notes []string
	for _, h := range mine {
		left := time.Until(deadline)
		share := time.Duration(float64(left) * h.Weight / totW)
		totW -= h.Weight
		before := sumStats(ws)
		x := &Explorer{h: h, deadline: time.Now().Add(share), maxPaths: h.MaxPaths}
		ht := time.Now()
		x.run(ws)
		after := sumStats(ws)
		r := &harnessReport{Harness: h.Name, Bound: h.Bound, Paths: x.paths, Infeasible: x.infeasible, Decisions: x.branches, Steps: x.steps, MaxSteps: x.maxSteps,
			Asserts: x.asserts, Proved: x.assertProved, Unknown: x.unknown, Reached: x.reached, Rejects: x.rejects, RaceQueries: x.raceQ, RacePairs: x.racePairs,
			Queries: after.Queries - before.Queries, SolverS: (after.Time - before.Time).Seconds(), WallS: time.Since(ht).Seconds(), Findings: x.nViol}
		if len(x.unsup) > 0 {
			r.Unsupported = x.unsup
		}
		var why []string
		if x.timedOut {
			why = append(why, fmt.Sprintf("time budget reached with %d prefixes unexplored", len(x.queue)))
		}
		if x.pathCap {
			why = append(why, "path cap reached")
		}
		if x.unknown > 0 {
			why = append(why, "solver answered unknown")
		}
		if len(x.unsup) > 0 {
			why = append(why, "some paths use code that is not encoded")
		}
		if x.nViol >= 300 || x.nHang >= 40 {
			why = append(why, "stopped after many findings")
		}
		r.Complete = len(why) == 0
		r.Why = strings.Join(why, "; ")
		for _, l := range h.Reach {
			if x.reached[l] == 0 {
				r.Missing = append(r.Missing, l)
			}
		}
		for f := range x.userFuncs {
			userFuncs[f] = true
		}
		for f := range x.funcs {
			libFuncs[f] = true
		}
		paths += x.paths
		decisions += x.branches
		steps += x.steps
		if len(r.Missing) > 0 && x.nViol == 0 {
			notes = append(notes, fmt.Sprintf("%s: witness not reached: %s", h.Name, strings.Join(r.Missing, ",")))
		}
		vs := x.violations()
		viols = append(viols, vs...)
		// translation validation: some explored paths are run on the real code
		if !cfg.NoReplay && h.Native && !h.NoValid && len(vs) == 0 {
			<-natReady
			n := 6
			if tier == "thorough" {
				n = 16
			}
			ok, bad, why := nat.validate(h, pickSamples(x.samples, n))
			r.Validated, r.Disagree = ok+bad, bad
			replayed += ok + bad
			disagree += bad
			notes = append(notes, why...)
		}
		for i, s := range x.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.Name, "inputs": clip(s.Vector, 12), "observed": clip(s.Obs, 8), "end": s.End})
			}
		}
		reports = append(reports, r)
		fmt.Printf("%s %s: %d paths, %d decisions, %d assertions, %d queries (%.1fs solver), %.1fs%s\n", prop, h.Name, x.paths, x.branches, x.asserts, r.Queries, r.SolverS, r.WallS,
			map[bool]string{true: ", bound exhausted", false: ", INCOMPLETE: " + r.Why}[r.Complete])
		if len(x.unsup) > 0 {
			for _, k := range sortedKeys(x.unsup) {
				fmt.Printf("   not encoded: %s (%d paths)\n", k, x.unsup[k])
			}
		}
		if len(r.Missing) > 0 {
			fmt.Printf("   witnesses missing: %v (reached %v)\n", r.Missing, x.reached)
		}
	}
	if cfg.Profile {
		tot := map[string]int{}
		for _, w := range ws {
			for k, v := range w.profile {
				tot[k] += v
			}
		}
		ks := sortedKeys(tot)
		sort.Slice(ks, func(i, j int) bool { return tot[ks[i]] > tot[ks[j]] })
		for i := 0; i < len(ks); i++ {
			if i >= 30 && !strings.HasPrefix(ks[i], "FORK") {
				continue
			}
			fmt.Println("  ", tot[ks[i]], ks[i])
		}
	}
	st := sumStats(ws)
	for _, w := range ws {
		w.s.close()
		if w.cross != nil {
			w.cross.close()
		}
		if w.rp != nil {
			w.rp.cmd.Process.Kill()
			w.rp.cmd.Wait()
		}
	}
	// replay what the solver found against the real code
	known := loadKnown(cfg.Verif)
	code := 0
	nrep, nviol := 0, 0
	knownHit := map[int]bool{}
	var unrepro []string
	byH := map[string]*Harness{}
	for _, h := range mine {
		byH[h.Name] = h
	}
	if len(viols) > 0 && !cfg.NoReplay {
		<-natReady
	}
	rdir := filepath.Join(cfg.Verif, "evidence", "replays")
	shown := map[string]bool{}
	replayStart := time.Now()
	replayEnd := replayStart.Add(240 * time.Second)
	cost := func(v *Violation) int {
		switch {
		case v.Kind == "hang":
			return 1
		case v.Sched:
			return 2
		}
		return 0
	}
	sort.SliceStable(viols, func(i, j int) bool { return cost(viols[i]) < cost(viols[j]) })
	skipped := 0
	for _, v := range viols {
		if shown[v.Harness+v.Sig] {
			continue
		}
		if cfg.Verbose || cfg.NoReplay {
			fmt.Printf("   finding %s [%s] %s (x%d)\n", v.Harness, v.Kind, v.Msg, v.Count)
			for _, l := range clip(v.Vector, 30) {
				fmt.Println("      in  ", l)
			}
			for _, l := range v.Stack {
				fmt.Println("      at  ", l)
			}
			for _, l := range v.Sites {
				fmt.Println("      preempted at ", l)
			}
		}
		if cfg.NoReplay {
			continue
		}
		if nviol > 0 && time.Since(replayStart) > 45*time.Second {
			skipped++
			continue
		}
		if time.Now().After(replayEnd) {
			unrepro = append(unrepro, v.Harness+": "+v.Msg+" (no time left to replay)")
			continue
		}
		nrep++
		ok, detail := nat.replay(byH[v.Harness], v)
		v.Detail = detail
		if !ok {
			unrepro = append(unrepro, fmt.Sprintf("%s: %s: %s", v.Harness, v.Msg, firstLine(detail)))
			continue
		}
		shown[v.Harness+v.Sig] = true
		isKnown := -1
		for i, k := range known {
			if k.Property == prop && (k.Harness == "" || k.Harness == v.Harness) && strings.Contains(v.Kind+": "+v.Msg, k.Match) {
				isKnown = i
			}
		}
		if isKnown >= 0 {
			if !knownHit[isKnown] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, known[isKnown].What)
			}
			knownHit[isKnown] = true
			continue
		}
		nviol++
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.txt", prop, nviol))
		var sb strings.Builder
		fmt.Fprintf(&sb, "# property %s, harness %s\n# %s: %s\n# replay: %s/replay.sh %s\n", prop, v.Harness, v.Kind, v.Msg, cfg.Verif, path)
		for _, l := range v.Stack {
			fmt.Fprintf(&sb, "# at %s\n", l)
		}
		for _, l := range v.Sites {
			fmt.Fprintf(&sb, "# preempted at %s\n", l)
		}
		for _, l := range strings.Split(detail, "\n") {
			fmt.Fprintf(&sb, "# native: %s\n", l)
		}
		fmt.Fprintf(&sb, "harness %s\n", v.Harness)
		for _, l := range v.Vector {
			sb.WriteString(l + "\n")
		}
		os.WriteFile(path, []byte(sb.String()), 0o644)
		fmt.Printf("%s: %s: %s\n   native: %s\n", v.Harness, v.Kind, v.Msg, firstLine(detail))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	if skipped > 0 {
		fmt.Println("   further findings not replayed:", skipped)
	}
	for _, u := range unrepro {
		fmt.Println("   not reproduced natively, not reported:", u)
	}
	for _, n := range notes {
		fmt.Println("   note:", n)
	}
	if cfg.Only == "" {
		writeEvidence(cfg, prop, tier, reports, st, userFuncs, libFuncs, samples, paths, decisions, steps, replayed, disagree, nrep, nviol, unrepro, notes, time.Since(t0).Seconds())
	}
	fmt.Printf("%s %s: %s in %.1fs\n", prop, tier, map[int]string{0: "held on everything explored", 1: "VIOLATED"}[code], time.Since(t0).Seconds())
	return code
}

func sumStats(ws []*Worker) SolverStats {
	var s SolverStats
	for _, w := range ws {
		s.add(w.total)
		s.add(w.s.stats)
	}
	return s
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func clip(s []string, n int) []string {
	var out []string
	for i, x := range s {
		if i >= n {
			out = append(out, fmt.Sprintf("... %d more", len(s)-n))
			break
		}
		if len(x) > 160 {
			x = x[:160] + "..."
		}
		out = append(out, x)
	}
	return out
}

func pickSamples(s []*Sample, n int) []*Sample {
	if len(s) <= n {
		return s
	}
	var out []*Sample
	for i := 0; i < n; i++ {
		out = append(out, s[i*len(s)/n])
	}
	return out
}

func writeEvidence(cfg *Config, prop, tier string, reports []*harnessReport, st SolverStats, uf, lf map[string]bool, samples []any, paths, decisions, steps, replayed, disagree, nrep, nviol int, unrepro, notes []string, wall float64) {
	complete := true
	asserts, proved := 0, 0
	for _, r := range reports {
		complete = complete && r.Complete
		asserts += r.Asserts
		proved += r.Proved
	}
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   decisions,
		"traces_validated_against_impl": replayed - disagree,
		"samples":                       samples,
		"exhaustive":                    complete,
		"instructions_executed":         steps,
		"assertions_checked":            asserts,
		"assertions_discharged":         proved,
		"functions_encoded":             sortedKeys(uf),
		"library_functions_encoded":     len(lf),
		"queries":                       st.Queries,
		"queries_sat":                   st.Sat,
		"queries_unsat":                 st.Unsat,
		"queries_unknown":               st.Unknown,
		"queries_cross_checked":         st.CrossChecked,
		"cross_check_disagreements":     st.CrossDisagree,
		"solver_s":                      st.Time.Seconds(),
		"harnesses":                     reports,
		"native_replays_of_findings":    nrep,
		"findings_not_reproduced":       unrepro,
		"notes":                         notes,
		"meaning":                       "states = symbolic execution paths decided, each standing for all inputs satisfying its path condition; transitions = solver-decided branch, scheduling and choice decisions along them",
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": cfg.Seed, "level": "model_checking", "coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": []string{
			"Claims hold within each harness's stated bound only; see coverage.harnesses[].bound and DESIGN.md.",
			"The SSA form of /repo's current source and of the standard library (golang.org/x/tools/go/ssa), the engine's encoding of it and the SMT solver are trusted; a sample of paths is replayed on the compiled code each run.",
			"Sockets, clock, scheduler, logging (lane) and map iteration order are environment models described in DESIGN.md.",
		},
	}
	os.MkdirAll(filepath.Join(cfg.Verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(cfg.Verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

// runReplay runs one recorded counterexample on the compiled code.
func runReplay(cfg *Config, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	hs, err := harnesses(filepath.Join(cfg.Verif, "harness"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	v := &Violation{Kind: "assert"}
	var h *Harness
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.HasPrefix(l, "# preempted at "):
			v.Sites = append(v.Sites, l[15:])
		case strings.HasPrefix(l, "# race"):
			v.Kind = "race"
		case strings.HasPrefix(l, "#") || l == "":
		case strings.HasPrefix(l, "harness "):
			for _, x := range hs {
				if x.Name == l[8:] {
					h = x
				}
			}
		default:
			v.Vector = append(v.Vector, l)
		}
	}
	if h == nil {
		fmt.Println("unknown harness in", file)
		return 2
	}
	nat := newNative(cfg)
	defer nat.close()
	nat.build(false)
	ok, detail := nat.replay(h, v)
	fmt.Println(detail)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", h.Prop, file)
		return 1
	}
	return 0
}
