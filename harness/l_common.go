package kafkamock

import "sync"

// vReps is how often a native run repeats concurrent operations to give their overlap a chance.
func vReps() int {
	if vSymbolic() {
		return 1
	}
	return 12
}

// vGroup runs functions in goroutines and waits for them, for a limited time.
type vGroup struct {
	mu      sync.Mutex
	running int
}

func (g *vGroup) Go(f func()) {
	g.mu.Lock()
	g.running++
	g.mu.Unlock()
	go func() {
		f()
		g.mu.Lock()
		g.running--
		g.mu.Unlock()
	}()
}

// Wait reports whether all functions have ended within the time.
func (g *vGroup) Wait(ns int64) bool {
	end := vClockNs() + ns
	for {
		g.mu.Lock()
		n := g.running
		g.mu.Unlock()
		if n == 0 {
			return true
		}
		if vClockNs() > end {
			return false
		}
		vSleep(5 * vMsNs)
	}
}

// registered counts the clients the server has registered, and how many of them are c.
func (s *vSrv) registered(c *vCli) (all, mine int) {
	s.km.mu.Lock()
	defer s.km.mu.Unlock()
	for _, kc := range s.km.clients {
		all++
		if c != nil && c.SameConn(kc.conn) {
			mine++
		}
	}
	return
}

// beat asserts that the server answers on this connection.
func (c *vCli) beat(what string) {
	vErr0(c.callT(apiHeartbeat, new(vW).str("g").i32(0).str("m").b, 8*vSec, what), what)
}

// vTier is q in the quick tier and t in the thorough one.
func vTier(q, t int) int {
	if vThorough() {
		return t
	}
	return q
}

// vStalled is a client that has asked for more than its side takes in and does not read: the server is in
// the middle of writing a response to it. n is the number of pipelined requests, rec the record served.
func (s *vSrv) vStalled(n int) (c *vCli, rec vRec, full int) {
	window, size := vPick("window", 3)*9, 30
	if !vSymbolic() {
		window, size, n = 0, 1<<20, 12
	}
	rec = vRec{nil, make([]byte, size), 5}
	rec.value[size-1] = vU8("last")
	s.post("big", 0, rec)
	c = s.dial()
	c.beat("heartbeat")
	c.StopReading(window)
	for i := 0; i < n; i++ {
		c.Send(vReq(apiFetch, int32(i), vFetchBody(0, []vFetchTopic{{"big", []vFetchPart{{0, 0, 1 << 24}}}})))
	}
	if !vSymbolic() {
		vSleep(vSec / 2)
	}
	return c, rec, n
}
