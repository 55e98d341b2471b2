package kafkamock

// Harness API, native side: inputs come from the file VERIF_VEC, results go to stdout.

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

var vn struct {
	mu    sync.Mutex
	in    map[string]string
	count map[string]int
	fails int
	alloc uint64
	base  uint64
	rng   *rand.Rand
	sites map[string]bool
	pert  bool
	start time.Time
}

type vStop struct{}

func vOut(f string, a ...any) {
	vn.mu.Lock()
	defer vn.mu.Unlock()
	fmt.Fprintf(os.Stdout, "@@"+f+"\n", a...)
}

func vNativeMain(hs map[string]func()) int {
	if vRelayMain() {
		return 0
	}
	name := os.Getenv("VERIF_HARNESS")
	vn.in = map[string]string{}
	vn.count = map[string]int{}
	vn.start = time.Now()
	f, err := os.Open(os.Getenv("VERIF_VEC"))
	if err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			k, v, ok := strings.Cut(sc.Text(), " ")
			if ok && !strings.HasPrefix(k, "#") && k != "harness" {
				vn.in[k] = v
			}
		}
		f.Close()
	}
	if p := os.Getenv("VERIF_PERTURB"); p != "" {
		n, _ := strconv.Atoi(p)
		vn.pert = true
		vn.rng = rand.New(rand.NewSource(int64(n)))
		vn.sites = map[string]bool{}
		for _, s := range strings.Split(os.Getenv("VERIF_SITES"), ",") {
			if s != "" {
				vn.sites[s] = true
			}
		}
	}
	h := hs[name]
	if h == nil {
		fmt.Println("@@FAIL unknown harness", name)
		return 3
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vStop); ok {
					return
				}
				panic(r)
			}
		}()
		h()
	}()
	vCheckAlloc()
	if vn.fails > 0 {
		return 4
	}
	vOut("DONE")
	return 0
}

func vGet(name string) (string, bool) {
	vn.mu.Lock()
	vn.count[name]++
	key := name
	if n := vn.count[name]; n > 1 {
		key = fmt.Sprintf("%s#%d", name, n)
	}
	v, ok := vn.in[key]
	vn.mu.Unlock()
	if !ok {
		vOut("MISSING %s", key)
	}
	return v, ok
}

func vNum(name string) uint64 {
	s, _ := vGet(name)
	n, _ := strconv.ParseUint(s, 10, 64)
	return n
}

func vU8(name string) uint8         { return uint8(vNum(name)) }
func vU16(name string) uint16       { return uint16(vNum(name)) }
func vU32(name string) uint32       { return uint32(vNum(name)) }
func vU64(name string) uint64       { return vNum(name) }
func vI8(name string) int8          { return int8(vNum(name)) }
func vI16(name string) int16        { return int16(vNum(name)) }
func vI32(name string) int32        { return int32(vNum(name)) }
func vI64(name string) int64        { return int64(vNum(name)) }
func vBool(name string) bool        { return vNum(name) != 0 }
func vFloat64(name string) float64  { return math.Float64frombits(vNum(name)) }
func vPick(name string, n int) int  { return int(vNum(name)) }
func vInt(name string, lo, hi int64) int64 {
	n := int64(vNum(name))
	vAssume(n >= lo && n <= hi)
	return n
}

func vBytes(name string, n int) []byte {
	s, _ := vGet(name)
	b := make([]byte, n)
	if strings.HasPrefix(s, "x") {
		d, _ := hex.DecodeString(s[1:])
		copy(b, d)
	}
	return b
}

func vStr(name string, n int) string { return string(vBytes(name, n)) }

func vAssume(cond bool) {
	if !cond {
		vOut("ASSUME")
		os.Exit(0)
	}
}

func vAssert(cond bool, msg string) {
	if !cond {
		vOut("FAIL %s", strings.ReplaceAll(msg, "\n", " "))
		vn.mu.Lock()
		vn.fails++
		vn.mu.Unlock()
		panic(vStop{})
	}
}

func vReach(label string)                 { vOut("REACH %s", label) }
func vObserve(name string, v uint64)      { vOut("OBS %s %d", name, v) }
func vObserveBytes(name string, b []byte) {
	var sb strings.Builder
	for _, x := range b {
		fmt.Fprintf(&sb, " %d", x)
	}
	vOut("OBS %s%s", name, sb.String())
}
func vBytesEq(a, b []byte) bool { return bytes.Equal(a, b) }
func vStrEq(a, b string) bool   { return a == b }
func vAnd(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func vOr(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func vNot(c bool) bool        { return !c }
func vImplies(a, b bool) bool { return !a || b }
func vIte(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func vMayReject(cond bool) { vOut("MAYREJECT %v", cond) }
func vOnReject(f func())   {}

func vAllocBudget(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	vn.base = ms.TotalAlloc
	vn.alloc = uint64(n)
}

// vCheckAlloc compares what was really allocated with twice the budget plus slack for the runtime.
func vCheckAlloc() {
	if vn.alloc == 0 {
		return
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if d := ms.TotalAlloc - vn.base; d > 2*vn.alloc+(1<<20) {
		vOut("FAIL allocated %d bytes, budget %d", d, vn.alloc)
		vn.fails++
	}
}

func vExplore(preempts, free int) {}
func vNoExplore()                 {}
func vFine()                       {}
func vRaces()                     {}
func vMapOrder()                  {}
func vClockNs() int64             { return int64(time.Since(vn.start)) }
func vMaxClock(ns int64)          {}
func vConcrete(n int64) int64     { return n }
func vPark(untilNs int64)         { time.Sleep(time.Millisecond) }
func vNotify()                    {}
func vYield()                     { runtime.Gosched() }
func vSettle()                    { time.Sleep(60 * time.Millisecond) }
func vSymbolic() bool             { return false }
func vThorough() bool             { return os.Getenv("VERIF_TIER_NATIVE") == "true" }
func vLog(s string)               { fmt.Fprintln(os.Stderr, s) }
func vCount() int                 { return runtime.NumGoroutine() }

// vAt is called before every statement in perturbed builds.
func vAt(site string) {
	if !vn.pert {
		return
	}
	vn.mu.Lock()
	n := vn.rng.Intn(1000)
	hot := vn.sites[site]
	vn.mu.Unlock()
	switch {
	case hot && n < 500:
		time.Sleep(time.Duration(n%30) * time.Millisecond)
	case n < 10:
		time.Sleep(time.Duration(n) * 100 * time.Microsecond)
	case n < 100:
		runtime.Gosched()
	}
}
