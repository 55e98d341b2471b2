package main

// Replay on the real, compiled code: the same harness functions are built into a test binary of the
// package under test (through an overlay) and fed the inputs the solver chose.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Native struct {
	cfg  *Config
	dir  string
	bin  string
	err  string
	pbin string // race-enabled, perturbation-instrumented build
	perr string
	once [2]sync.Once
}

func newNative(cfg *Config) *Native {
	d, err := os.MkdirTemp("", "verif-native-")
	n := &Native{cfg: cfg, dir: d}
	if err != nil {
		n.err = err.Error()
	}
	return n
}

func (n *Native) close() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

func (n *Native) build(perturb bool) {
	k := 0
	if perturb {
		k = 1
	}
	n.once[k].Do(func() {
		bin, err := n.build1(perturb)
		if perturb {
			n.pbin, n.perr = bin, err
		} else {
			n.bin, n.err = bin, err
		}
		if err != "" {
			fmt.Println("   native build failed:", firstLine(err))
			if n.cfg.Verbose {
				fmt.Println(err)
			}
		}
	})
}

func (n *Native) build1(perturb bool) (string, string) {
	repo := n.cfg.Repo
	hd := filepath.Join(n.cfg.Verif, "harness")
	files, err := overlayFiles(repo, hd, "native")
	if err != nil {
		return "", err.Error()
	}
	tag := "plain"
	if perturb {
		tag = "perturb"
	}
	hs, err := harnesses(hd)
	if err != nil {
		return "", err.Error()
	}
	var sb strings.Builder
	sb.WriteString("package kafkamock\n\nimport (\n\t\"os\"\n\t\"testing\"\n)\n\nfunc TestMain(m *testing.M) { os.Exit(vNativeMain(map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t%q: %s,\n", h.Name, h.Name)
	}
	sb.WriteString("}))\n}\n\nfunc TestNothing(t *testing.T) {}\n")
	mf := filepath.Join(n.dir, tag+"_main_test.go")
	os.WriteFile(mf, []byte(sb.String()), 0o644)
	files[filepath.Join(repo, "zz_verif_main_test.go")] = mf
	all, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	for _, f := range all {
		if strings.HasSuffix(f, "_test.go") {
			files[f] = ""
			continue
		}
		if perturb {
			out, err := instrument(f)
			if err == nil {
				pf := filepath.Join(n.dir, "p_"+filepath.Base(f))
				os.WriteFile(pf, out, 0o644)
				files[f] = pf
			}
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": files})
	of := filepath.Join(n.dir, tag+".json")
	os.WriteFile(of, ov, 0o644)
	bin := filepath.Join(n.dir, tag+".test")
	args := []string{"test", "-c", "-overlay", of, "-o", bin}
	env := append(os.Environ(), "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOFLAGS=")
	if perturb {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Sprintf("go %v: %v\n%s", args, err, out)
	}
	return bin, ""
}

// instrument inserts a call to vAt before every statement, keeping line numbers.
func instrument(file string) ([]byte, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type ins struct {
		off  int
		text string
	}
	var is []ins
	add := func(list []ast.Stmt) {
		for _, s := range list {
			p := fset.Position(s.Pos())
			is = append(is, ins{p.Offset, fmt.Sprintf("vAt(\"%s:%d\"); ", filepath.Base(file), p.Line)})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses, not statements
			if len(b.List) > 0 {
				switch b.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(b.List)
		case *ast.CaseClause:
			add(b.Body)
		case *ast.CommClause:
			add(b.Body)
		}
		return true
	})
	sort.Slice(is, func(i, j int) bool { return is[i].off < is[j].off })
	var out bytes.Buffer
	last := 0
	for _, i := range is {
		out.Write(src[last:i.off])
		out.WriteString(i.text)
		last = i.off
	}
	out.Write(src[last:])
	return out.Bytes(), nil
}

type natResult struct {
	fail    string // non-empty: the run failed, and how
	obs     []string
	done    bool
	assume  bool
	reject  bool
	reached map[string]bool
	raw     string
}

func (n *Native) run(bin string, h *Harness, vec []string, extraEnv []string, timeout time.Duration) natResult {
	f, err := os.CreateTemp(n.dir, "vec")
	if err != nil {
		return natResult{raw: err.Error()}
	}
	f.WriteString(strings.Join(vec, "\n") + "\n")
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run=TestNothing", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "VERIF_HARNESS="+h.Name, "VERIF_VEC="+f.Name(), "GOTRACEBACK=all", "GOMEMLIMIT=2GiB", "VERIF_TIER_NATIVE="+fmt.Sprint(n.cfg.Thorough))
	cmd.Env = append(cmd.Env, extraEnv...)
	cmd.Dir = n.dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	r := natResult{reached: map[string]bool{}}
	may, relayed := false, ""
	for _, l := range strings.Split(so.String(), "\n") {
		if !strings.HasPrefix(l, "@@") {
			continue
		}
		k, v, _ := strings.Cut(l[2:], " ")
		switch k {
		case "FAIL":
			if r.fail == "" {
				r.fail = "assertion failed: " + v
			}
		case "ASSUME":
			r.assume = true
		case "OBS":
			r.obs = append(r.obs, v)
		case "REACH":
			r.reached[v] = true
		case "RELAY":
			relayed = v
		case "MAYREJECT":
			may, relayed = v == "true", "" // what was sent before counts for nothing
		case "DONE":
			r.done = true
		case "MISSING":
			r.raw += "missing input " + v + "\n"
		}
	}
	tail := se.String()
	if ctx.Err() != nil {
		if r.fail == "" {
			r.fail = fmt.Sprintf("did not finish within %v", timeout)
		}
		r.raw += head(tail, 3000)
		return r
	}
	if i := strings.Index(tail, "WARNING: DATA RACE"); i >= 0 && r.fail == "" {
		r.fail = "race detector: " + raceSummary(tail[i:])
		r.raw += head(tail[i:], 3000)
		return r
	}
	if err != nil && !r.done {
		i := strings.Index(tail, "panic: ")
		j := strings.Index(tail, "fatal error: ")
		switch {
		case j >= 0 && (i < 0 || j < i):
			r.fail = firstLine(tail[j:])
		case i >= 0:
			msg := firstLine(tail[i:])
			if isFaultText(msg) {
				r.fail = msg
			} else {
				r.reject = true
				if !may && r.fail == "" {
					r.fail = "unexpected " + msg
				} else if relayed != "" && r.fail == "" {
					r.fail = "assertion failed: rejected after sending " + relayed + " response bytes"
				}
			}
		case r.assume:
		default:
			if r.fail == "" {
				r.fail = "process ended: " + err.Error()
			}
		}
		r.raw += head(tail, 3000)
	}
	return r
}

func isFaultText(msg string) bool {
	for _, s := range []string{"runtime error", "reflect:", "reflect.", "interface conversion", "out of memory", "makeslice", "sync: ", "close of ", "send on closed", "bufio: ", "bytes.Buffer", "strings: negative", "slice bounds", "nil map", "all goroutines are asleep", "call of "} {
		if strings.Contains(msg, s) {
			return true
		}
	}
	return false
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func raceSummary(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous ") || strings.HasPrefix(t, "/repo/") || strings.Contains(t, "p_") {
			out = append(out, t)
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, " ")
}

// validate runs explored paths natively and compares what the harness observed.
func (n *Native) validate(h *Harness, ss []*Sample) (ok, bad int, notes []string) {
	if n.bin == "" {
		return 0, 0, []string{"native build unavailable"}
	}
	type res struct {
		good, skip bool
		note       string
	}
	out := make([]res, len(ss))
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for i, s := range ss {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r := n.run(n.bin, h, s.Vector, nil, time.Duration(h.TimeoutS)*time.Second)
			switch {
			case r.fail != "":
				out[i].note = fmt.Sprintf("%s: native run of an explored path fails: %s", h.Name, r.fail)
			case r.assume:
				out[i].note = fmt.Sprintf("%s: native run of an explored path violates an assumption", h.Name)
			case s.Reject != r.reject:
				out[i].note = fmt.Sprintf("%s: rejection differs (engine %v, native %v) %v", h.Name, s.Reject, r.reject, clip(s.Vector, 6))
			case !h.Sched && !s.Reject && strings.Join(s.Obs, "\n") != strings.Join(r.obs, "\n"):
				out[i].note = fmt.Sprintf("%s: observations differ: engine %v native %v", h.Name, clip(s.Obs, 5), clip(r.obs, 5))
			default:
				out[i].good = true
			}
		}()
	}
	wg.Wait()
	for _, r := range out {
		if r.good {
			ok++
		} else {
			bad++
			if len(notes) < 3 {
				notes = append(notes, r.note)
			}
		}
	}
	return
}

// replay reports whether the violation shows on the compiled code.
func (n *Native) replay(h *Harness, v *Violation) (bool, string) {
	if h.Native && !h.Race && n.bin != "" {
		to := time.Duration(h.TimeoutS) * time.Second
		r := n.run(n.bin, h, v.Vector, nil, to)
		if r.fail != "" && !r.assume {
			return true, r.fail + "\n" + r.raw
		}
		if !h.Sched {
			return false, fmt.Sprintf("native run passes (done=%v assume=%v reject=%v) %s", r.done, r.assume, r.reject, r.raw)
		}
	}
	if !h.Sched {
		return false, "no native binary: " + n.err
	}
	n.build(true)
	if n.pbin == "" {
		return false, "no perturbed binary: " + n.perr
	}
	// the schedule is steered by random delays where the engine preempted
	type att struct {
		r natResult
	}
	const batches, par = 10, 6
	for b := 0; b < batches; b++ {
		rs := make([]natResult, par)
		var wg sync.WaitGroup
		for i := 0; i < par; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				env := []string{fmt.Sprintf("VERIF_PERTURB=%d", 1+b*par+i), "VERIF_SITES=" + strings.Join(v.Sites, ","), "GORACE=halt_on_error=0 exitcode=0"}
				rs[i] = n.run(n.pbin, h, v.Vector, env, time.Duration(h.TimeoutS+10)*time.Second)
			}()
		}
		wg.Wait()
		for _, r := range rs {
			if r.fail != "" && !r.assume {
				return true, r.fail + "\n" + r.raw
			}
		}
		if v.Kind == "race" && b >= 4 {
			break
		}
	}
	return false, "not reproduced in perturbed runs"
}
