package kafkamock

// Harness API, symbolic side. The engine intercepts these functions by name (engine/api.go); the
// bodies here are never executed. Native counterparts are in api_native.go.

import "net"

func vU8(name string) uint8           { panic("intrinsic") }
func vU16(name string) uint16         { panic("intrinsic") }
func vU32(name string) uint32         { panic("intrinsic") }
func vU64(name string) uint64         { panic("intrinsic") }
func vI8(name string) int8            { panic("intrinsic") }
func vI16(name string) int16          { panic("intrinsic") }
func vI32(name string) int32          { panic("intrinsic") }
func vI64(name string) int64          { panic("intrinsic") }
func vBool(name string) bool          { panic("intrinsic") }
func vFloat64(name string) float64    { panic("intrinsic") }
func vBytes(name string, n int) []byte { panic("intrinsic") }
func vStr(name string, n int) string  { panic("intrinsic") }

// vPick explores every value 0..n-1.
func vPick(name string, n int) int { panic("intrinsic") }

// vInt is a symbolic integer in lo..hi.
func vInt(name string, lo, hi int64) int64 { panic("intrinsic") }

func vAssume(cond bool)                     { panic("intrinsic") }
func vAssert(cond bool, msg string)         { panic("intrinsic") }
func vReach(label string)                   { panic("intrinsic") }
func vObserve(name string, v uint64)        { panic("intrinsic") }
func vObserveBytes(name string, b []byte)   { panic("intrinsic") }
func vBytesEq(a, b []byte) bool             { panic("intrinsic") }
func vStrEq(a, b string) bool               { panic("intrinsic") }
func vAnd(c ...bool) bool                   { panic("intrinsic") }
func vOr(c ...bool) bool                    { panic("intrinsic") }
func vNot(c bool) bool                      { panic("intrinsic") }
func vImplies(a, b bool) bool               { panic("intrinsic") }
func vIte(c bool, a, b int64) int64         { panic("intrinsic") }

// vMayReject says when the server's deliberate panic is acceptable from now on.
func vMayReject(cond bool) { panic("intrinsic") }

// vOnReject registers a check that runs when the server rejects deliberately.
func vOnReject(f func()) { panic("intrinsic") }

// vAllocBudget bounds the bytes allocated by the code under test from now on.
func vAllocBudget(n int) { panic("intrinsic") }

// vExplore turns on schedule exploration: at most preempts preemptions and free switch choices.
func vExplore(preempts, free int) { panic("intrinsic") }
// vFine adds preemption right after each unlock, where accesses that should be guarded and are not may follow.
func vFine()                      { panic("intrinsic") }
func vNoExplore()                 { panic("intrinsic") }
func vRaces()                     { panic("intrinsic") }
func vMapOrder()                  { panic("intrinsic") }
func vClockNs() int64             { panic("intrinsic") }
func vMaxClock(ns int64)          { panic("intrinsic") }
func vConcrete(n int64) int64     { panic("intrinsic") }
func vPark(untilNs int64)         { panic("intrinsic") }
func vNotify()                    { panic("intrinsic") }
func vYield()                     { panic("intrinsic") }

// vSettle returns when every other goroutine is blocked or asleep.
func vSettle()       { panic("intrinsic") }
func vSymbolic() bool { panic("intrinsic") }
func vThorough() bool { panic("intrinsic") }
func vLog(s string)   { panic("intrinsic") }
func vCount() int     { panic("intrinsic") }

func vBindConn(c *net.TCPConn, id int) { panic("intrinsic") }
func vAt(site string)                  {}
