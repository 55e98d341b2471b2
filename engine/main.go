package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	Repo      string
	Verif     string
	Solver    string
	Solver2   string
	QueryMs   int
	Workers   int
	Thorough  bool
	Seed      int
	BudgetSec int
	CrossEach int
	Only      string
	NoReplay  bool
	Verbose   bool
	Profile   bool
}

// Harness is one symbolic test: an ordinary Go function in harness/, marked //verif key=value ...
type Harness struct {
	Name     string
	Prop     string
	fn       *ssa.Function
	Tiers    []string
	MaxSteps int
	MaxPaths int
	Weight   float64
	Reach    []string
	Sched    bool
	Race     bool
	Native   bool
	NoValid  bool // paths are not sampled natively (they take long in real time)
	Bound    string
	TimeoutS int
}

// harnesses reads the //verif directives of the harness files.
func harnesses(dir string) ([]*Harness, error) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	var out []*Harness
	for _, f := range fs {
		if strings.HasSuffix(f, "_native.go") {
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil || fd.Recv != nil {
				continue
			}
			for _, cm := range fd.Doc.List {
				if !strings.HasPrefix(cm.Text, "//verif ") {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Tiers: []string{"quick", "thorough"}, MaxSteps: 3000000, MaxPaths: 1 << 30, Weight: 1, Native: true, TimeoutS: 20}
				var bound []string
				for _, kv := range strings.Fields(cm.Text[8:]) {
					k, v, ok := strings.Cut(kv, "=")
					if !ok {
						switch kv {
						case "sched":
							h.Sched = true
						case "race":
							h.Race, h.Sched = true, true
						case "nonative":
							h.Native = false
						case "novalidate":
							h.NoValid = true
						}
						continue
					}
					switch k {
					case "prop":
						h.Prop = v
					case "tiers":
						h.Tiers = strings.Split(v, ",")
					case "steps":
						h.MaxSteps, _ = strconv.Atoi(v)
					case "paths":
						h.MaxPaths, _ = strconv.Atoi(v)
					case "weight":
						h.Weight, _ = strconv.ParseFloat(v, 64)
					case "reach":
						h.Reach = strings.Split(v, ",")
					case "timeout":
						h.TimeoutS, _ = strconv.Atoi(v)
					}
				}
				for _, c2 := range fd.Doc.List {
					if !strings.HasPrefix(c2.Text, "//verif") {
						bound = append(bound, strings.TrimSpace(strings.TrimPrefix(c2.Text, "//")))
					}
				}
				h.Bound = strings.Join(bound, " ")
				out = append(out, h)
			}
		}
	}
	return out, nil
}

func main() {
	cfg := &Config{}
	var prop, tier string
	var list bool
	flag.StringVar(&cfg.Repo, "repo", "/repo", "repository under test")
	flag.StringVar(&cfg.Verif, "verif", "/verif", "verification directory")
	flag.StringVar(&cfg.Solver, "solver", "z3", "SMT solver")
	flag.StringVar(&cfg.Solver2, "solver2", "cvc5 --lang=smt2 --incremental --tlimit-per=10000 -q", "second SMT solver for cross-checks")
	flag.IntVar(&cfg.QueryMs, "query-ms", 10000, "solver time limit per query")
	flag.IntVar(&cfg.Workers, "workers", 8, "parallel workers")
	flag.IntVar(&cfg.BudgetSec, "budget", 0, "wall budget in seconds (0: by tier)")
	flag.StringVar(&cfg.Only, "only", "", "run only this harness")
	flag.BoolVar(&cfg.NoReplay, "noreplay", false, "skip native replay")
	flag.BoolVar(&cfg.Verbose, "v", false, "verbose")
	flag.BoolVar(&cfg.Profile, "profile", false, "count calls per function and forks per line")
	flag.StringVar(&prop, "prop", "", "property id")
	flag.StringVar(&tier, "tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	var replay string
	flag.StringVar(&replay, "replay", "", "run this replay file against the compiled code")
	flag.BoolVar(&list, "list", false, "list harnesses")
	flag.Parse()
	if tier == "" {
		tier = "quick"
	}
	cfg.Thorough = tier == "thorough"
	cfg.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if cfg.Thorough {
		cfg.CrossEach = 25
	} else {
		cfg.CrossEach = 60
	}
	if list {
		hs, err := harnesses(filepath.Join(cfg.Verif, "harness"))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, h := range hs {
			fmt.Println(h.Prop, h.Name, h.Tiers)
		}
		return
	}
	if replay != "" {
		os.Exit(runReplay(cfg, replay))
	}
	if prop == "" {
		fmt.Fprintln(os.Stderr, "usage: engine -prop ID [-tier quick|thorough]")
		os.Exit(2)
	}
	os.Exit(runCheck(cfg, prop, tier))
}
