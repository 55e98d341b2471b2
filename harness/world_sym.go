package kafkamock

// The network as an environment model: listeners, byte-stream connections with segments, half close,
// reset, read deadlines, and write errors after a reset. Functions named env... run atomically; they
// are the redirect targets of the socket operations (engine/simnet.go).

import (
	"strconv"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"
)

type wConn struct {
	id       int
	in       [][]byte // segments sent by the client, not yet read by the server
	eof      bool     // client sent FIN
	gone     bool     // client closed both directions: the first server write provokes a reset
	rst      bool     // connection reset
	rstErr   bool     // the reset has not been reported yet
	rstNo    syscall.Errno // how it is reported
	out      []byte   // everything the server wrote
	nWrites  int
	closed   bool // server closed it
	accepted bool
	readDl   int64
	writeDl  int64
	lport    int
	host     byte // of 127.0.0.0/8
	rport    int
	tc       *net.TCPConn
	file     int
	resetAt  int // reset when the server has made this many writes (-1: never)
	window   int // how many bytes more the client's side takes in before it reads again (-1: it reads)
}

type wListener struct {
	port    int
	addr    string
	pending []*wConn
	closed  bool
	conns   []*wConn
	dl      int64
}

var wListeners []*wListener
var wConns []*wConn
var wClosedWithPending int

func envNewConn() *wConn {
	c := &wConn{rstNo: syscall.ECONNRESET, id: len(wConns), host: wHost, rport: wFrom, readDl: -1, writeDl: -1, resetAt: -1, window: -1}
	if wFrom == 0 {
		c.rport = 50000 + c.id
	}
	c.tc = new(net.TCPConn)
	vBindConn(c.tc, c.id)
	wConns = append(wConns, c)
	return c
}

func envOpErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

func envListen(network, address string) (net.Listener, error) {
	tl, err := envOpen(address)
	if err != nil {
		return nil, err
	}
	return tl, nil
}

func envOpen(address string) (*net.TCPListener, error) {
	for _, o := range wListeners {
		if !o.closed && o.addr == address {
			return nil, envOpErr("listen", &os.SyscallError{Syscall: "bind", Err: syscall.EADDRINUSE})
		}
	}
	l := &wListener{addr: address, dl: -1}
	tl := new(net.TCPListener)
	vBindListener(tl, len(wListeners))
	wListeners = append(wListeners, l)
	vNotify()
	return tl, nil
}

func envListenCfg(lc *net.ListenConfig, ctx context.Context, network, address string) (net.Listener, error) {
	return envListen(network, address)
}

func envListenTCP(network string, a *net.TCPAddr) (*net.TCPListener, error) {
	host := ""
	if len(a.IP) != 0 && !a.IP.IsUnspecified() {
		host = "127.0.0.1"
	}
	return envOpen(fmt.Sprintf("%s:%d", host, a.Port))
}

func envResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(port)
	if err != nil {
		return nil, err
	}
	a := &net.TCPAddr{Port: n}
	if host == "localhost" || host == "127.0.0.1" {
		a.IP = net.IP{127, 0, 0, 1}
	}
	return a, nil
}

// vIPv4 and vIPString are net.IPv4 and IP.String (of IPv4 addresses).
func vIPv4(a, b, c, d byte) net.IP {
	return net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, a, b, c, d}
}

func vIPString(ip net.IP) string {
	if len(ip) == 0 {
		return "<nil>"
	}
	b := ip.To4()
	if b == nil {
		return "?"
	}
	return strconv.Itoa(int(b[0])) + "." + strconv.Itoa(int(b[1])) + "." + strconv.Itoa(int(b[2])) + "." + strconv.Itoa(int(b[3]))
}

func vBindListener(l *net.TCPListener, id int) { panic("intrinsic") }

func envLAccept(id int) (net.Conn, error) {
	c, err := envAccept(wListeners[id])
	if c == nil {
		return nil, err
	}
	return c, nil
}
func envLAcceptTCP(id int) (*net.TCPConn, error) { return envAccept(wListeners[id]) }
func envLClose(id int) error                     { return envListenerClose(wListeners[id]) }
func envLAddr(id int) net.Addr                   { return &net.TCPAddr{Port: wListeners[id].port} }
func envLSetDeadline(id int, t time.Time) error {
	l := wListeners[id]
	if l.closed {
		return envOpErr("set", net.ErrClosed)
	}
	l.dl = -1
	if !t.IsZero() {
		l.dl = vClockNs() + int64(time.Until(t))
		if l.dl < 0 {
			l.dl = 0
		}
	}
	vNotify()
	return nil
}

func envAccept(l *wListener) (*net.TCPConn, error) {
	for {
		if l.closed {
			return nil, envOpErr("accept", net.ErrClosed)
		}
		if len(l.pending) > 0 {
			c := l.pending[0]
			l.pending = l.pending[1:]
			c.accepted = true
			l.conns = append(l.conns, c)
			vNotify()
			return c.tc, nil
		}
		if l.dl >= 0 && vClockNs() >= l.dl {
			return nil, envOpErr("accept", os.ErrDeadlineExceeded)
		}
		vPark(l.dl)
	}
}

func envListenerClose(l *wListener) error {
	if l.closed {
		return envOpErr("close", net.ErrClosed)
	}
	l.closed = true
	for _, c := range l.pending {
		c.rst = true
		c.closed = true
	}
	l.pending = nil
	vNotify()
	return nil
}

func envRead(id int, b []byte) (int, error) {
	c := wConns[id]
	for {
		if c.closed {
			return 0, envOpErr("read", net.ErrClosed)
		}
		if c.readDl >= 0 && vClockNs() >= c.readDl {
			return 0, envOpErr("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.in) > 0 {
			seg := c.in[0]
			n := copy(b, seg)
			if n == len(seg) {
				c.in = c.in[1:]
			} else {
				c.in[0] = seg[n:]
			}
			vNotify()
			return n, nil
		}
		if c.rst {
			if c.rstErr {
				c.rstErr = false
				return 0, envOpErr("read", &os.SyscallError{Syscall: "read", Err: c.rstNo})
			}
			return 0, io.EOF
		}
		if c.eof {
			return 0, io.EOF
		}
		vPark(c.readDl)
	}
}

func envWrite(id int, b []byte) (int, error) {
	c := wConns[id]
	for done := 0; ; {
		if c.closed {
			return done, envOpErr("write", net.ErrClosed)
		}
		if c.rst {
			var e syscall.Errno = syscall.EPIPE
			if c.rstErr {
				c.rstErr = false
				e = c.rstNo
			}
			return done, envOpErr("write", &os.SyscallError{Syscall: "write", Err: e})
		}
		if c.writeDl >= 0 && vClockNs() >= c.writeDl {
			return done, envOpErr("write", os.ErrDeadlineExceeded)
		}
		if c.window >= 0 && !c.gone && len(b) > c.window {
			c.out = append(c.out, b[:c.window]...)
			b = b[c.window:]
			done += c.window
			c.window = 0
			vPark(c.writeDl)
			continue
		}
		c.nWrites++
		if c.gone {
			c.rst = true // the peer answers with a reset; FIN was seen first, so reads report EOF
			vNotify()
			return done + len(b), nil
		}
		if c.window >= 0 {
			c.window -= len(b)
		}
		c.out = append(c.out, b...)
		if c.resetAt >= 0 && c.nWrites >= c.resetAt {
			c.rst, c.rstErr = true, true
		}
		vNotify()
		return done + len(b), nil
	}
}

// StopReading makes the client take in nothing more than n bytes of what it is sent; Resume undoes it.
func (c *vCli) StopReading(n int) { c.c.window = n }
func (c *vCli) Resume() {
	c.c.window = -1
	vNotify()
}

// vReadFrom and vBuffersWriteTo are a connection's ReadFrom and net.Buffers' WriteTo.
func vReadFrom(c *net.TCPConn, r io.Reader) (n int64, err error) {
	b := make([]byte, 4096)
	for {
		k, e := r.Read(b)
		if k > 0 {
			w, we := c.Write(b[:k])
			n += int64(w)
			if we != nil {
				return n, we
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

func vBuffersWriteTo(v *net.Buffers, w io.Writer) (n int64, err error) {
	for _, b := range *v {
		k, e := w.Write(b)
		n += int64(k)
		if e != nil {
			return n, e
		}
	}
	*v = nil
	return n, nil
}

func envClose(id int) error {
	c := wConns[id]
	if c.closed {
		return envOpErr("close", net.ErrClosed)
	}
	c.closed = true
	vNotify()
	return nil
}

func envCloseRead(id int) error  { return nil }
func envCloseWrite(id int) error { return nil }

func envLocalAddr(id int) net.Addr  { return &net.TCPAddr{Port: wConns[id].lport} }
func envRemoteAddr(id int) net.Addr {
	return &net.TCPAddr{IP: net.IP{127, 0, 0, wConns[id].host}, Port: wConns[id].rport}
}

func envSetDl(id int, t time.Time, read, write bool) error {
	c := wConns[id]
	if c.closed {
		return envOpErr("set", net.ErrClosed)
	}
	at := int64(-1)
	if !t.IsZero() {
		at = vClockNs() + int64(time.Until(t))
		if at < 0 {
			at = 0
		}
	}
	if read {
		c.readDl = at
	}
	if write {
		c.writeDl = at
	}
	vNotify()
	return nil
}

func envSetDeadline(id int, t time.Time) error      { return envSetDl(id, t, true, true) }
func envSetReadDeadline(id int, t time.Time) error  { return envSetDl(id, t, true, false) }
func envSetWriteDeadline(id int, t time.Time) error { return envSetDl(id, t, false, true) }
func envSetInt(id int, n int) error                 { return nil }
func envSetBool(id int, b bool) error               { return nil }
func envSetDur(id int, d time.Duration) error       { return nil }
func envSyscallConn(id int) (syscall.RawConn, error) {
	return nil, errors.New("not modelled")
}

func vBindFile(f *os.File, id int) { panic("intrinsic") }

func envFile(id int) (*os.File, error) {
	c := wConns[id]
	if c.closed {
		return nil, envOpErr("file", net.ErrClosed)
	}
	f := new(os.File)
	vBindFile(f, id)
	return f, nil
}

func envFd(id int) uintptr        { return uintptr(id) }
func envFileClose(id int) error   { return nil }

func envRecvfrom(fd int, p []byte, flags int) (int, syscall.Sockaddr, error) {
	c := wConns[fd]
	if len(c.in) > 0 {
		return 1, nil, nil
	}
	if c.rst {
		if c.rstErr {
			c.rstErr = false
			return -1, nil, c.rstNo
		}
		return 0, nil, nil
	}
	if c.eof {
		return 0, nil, nil
	}
	return -1, nil, syscall.EAGAIN
}

// ---------------------------------------------------------------- client side

type vCli struct {
	c   *wConn
	pos int
}

var wPorts uint

func vFreePort() uint {
	wPorts++
	return 39091 + wPorts
}

// vFreePorts is the first of n neighbouring ports.
func vFreePorts(n uint) uint {
	wPorts += n
	return 39092 + wPorts - n
}

func wAddrIs(l *wListener, port uint) bool {
	for _, host := range []string{"", "0.0.0.0", "[::]", "localhost", "127.0.0.1"} {
		if l.addr == fmt.Sprintf("%s:%d", host, port) {
			l.port = int(port)
			return true
		}
	}
	return false
}

// envTryDial connects if a listener is open.
func envTryDial(port uint) *vCli {
	for i := len(wListeners) - 1; i >= 0; i-- {
		l := wListeners[i]
		if !l.closed && wAddrIs(l, port) {
			c := envNewConn()
			c.lport = int(port)
			l.pending = append(l.pending, c)
			vNotify()
			return &vCli{c: c}
		}
	}
	return nil
}

// vDial connects, waiting for the listener to come up; nil if it does not within timeoutNs.
func vDial(port uint, timeoutNs int64) *vCli { return envDial(port, timeoutNs) }

func envDial(port uint, timeoutNs int64) *vCli {
	end := vClockNs() + timeoutNs
	for {
		if c := envTryDial(port); c != nil {
			return c
		}
		if vClockNs() >= end {
			return nil
		}
		vPark(end)
	}
}

var wHost, wFrom = byte(1), 0

// vDialFrom connects from one of several addresses and ports.
func vDialFrom(port uint, host, from int, timeoutNs int64) *vCli {
	wHost, wFrom = byte(1+host), 45000+from
	c := vDial(port, timeoutNs)
	wHost, wFrom = 1, 0
	return c
}

func (c *vCli) envDo(f func()) { f(); vNotify() }

// Send delivers b to the server as one segment.
func (c *vCli) Send(b []byte) { envCliSend(c, b) }
func envCliSend(c *vCli, b []byte) {
	if len(b) == 0 || c.c.closed || c.c.rst {
		return
	}
	c.c.in = append(c.c.in, append([]byte(nil), b...))
	vNotify()
}

// Recv waits for n bytes; fewer are returned when the connection ends or the time is over.
func (c *vCli) Recv(n int, timeoutNs int64) []byte { return envCliRecv(c, n, timeoutNs) }
func envCliRecv(c *vCli, n int, timeoutNs int64) []byte {
	end := vClockNs() + timeoutNs
	for len(c.c.out)-c.pos < n && !c.c.closed && !c.c.rst && vClockNs() < end {
		vPark(end)
	}
	k := len(c.c.out) - c.pos
	if k > n {
		k = n
	}
	r := c.c.out[c.pos : c.pos+k]
	c.pos += k
	return r
}

// Pending returns the bytes received so far and not yet taken, without waiting.
func (c *vCli) Pending() int { return len(c.c.out) - c.pos }

// WaitClosed reports whether the server closes the connection in time.
func (c *vCli) WaitClosed(timeoutNs int64) bool { return envCliWaitClosed(c, timeoutNs) }
func envCliWaitClosed(c *vCli, timeoutNs int64) bool {
	end := vClockNs() + timeoutNs
	for !c.c.closed && !c.c.rst && vClockNs() < end {
		vPark(end)
	}
	return c.c.closed || c.c.rst
}

// Close closes both directions (FIN; a later server write is answered by a reset).
func (c *vCli) Close() { envCliClose(c) }
func envCliClose(c *vCli) {
	c.c.eof, c.c.gone = true, true
	if c.c.window >= 0 {
		c.c.rst, c.c.rstErr = true, true // there is unread data
	}
	vNotify()
}

// CloseWrite sends FIN but keeps reading.
func (c *vCli) CloseWrite() { envCliCloseWrite(c) }
func envCliCloseWrite(c *vCli) {
	c.c.eof = true
	vNotify()
}

// Reset aborts the connection (RST).
func (c *vCli) Reset() { envCliReset(c) }
func envCliReset(c *vCli) {
	if !c.c.closed {
		c.c.rst, c.c.rstErr = true, true
	}
	vNotify()
}

// vVanish makes the client's host silent: some time later the connection fails with a time-out.
func (s *vSrv) vVanish(c *vCli) { envVanish(c) }
func envVanish(c *vCli) {
	if !c.c.closed {
		c.c.rst, c.c.rstErr, c.c.rstNo = true, true, syscall.ETIMEDOUT
	}
	vNotify()
}

// ResetAfterWrites arms a reset that strikes when the server has made n socket writes.
func (c *vCli) ResetAfterWrites(n int) { c.c.resetAt = n }

// Registered reports whether the server side has accepted this connection.
func (c *vCli) Accepted() bool { return c.c.accepted }

// SameConn reports whether the server-side connection is this client's.
func (c *vCli) SameConn(nc net.Conn) bool { return nc == net.Conn(c.c.tc) }

func vListenAddr() string {
	if len(wListeners) == 0 {
		return ""
	}
	return wListeners[len(wListeners)-1].addr
}

func vOpenListeners() int {
	n := 0
	for _, l := range wListeners {
		if !l.closed {
			n++
		}
	}
	return n
}

// vSleep passes (virtual) time.
func vSleep(ns int64) { time.Sleep(time.Duration(ns)) }

var vCondGen = map[*sync.Cond]int{}

func vCondWait(c *sync.Cond) {
	gen := vCondGen[c]
	c.L.Unlock()
	envCondPark(c, gen)
	c.L.Lock()
}

func envCondPark(c *sync.Cond, gen int) {
	for vCondGen[c] == gen {
		vPark(-1)
	}
}

func vCondWake(c *sync.Cond) {
	vCondGen[c]++
	vNotify()
}

func vDialRelay(port uint, timeoutNs int64) *vCli { return vDial(port, timeoutNs) }

// vFprint is what fmt.Fprint... does with the formatted text.
func vFprint(w io.Writer, s string) (int, error) {
	if _, is := w.(*os.File); is {
		return len(s), nil
	}
	return w.Write([]byte(s))
}

func vAppendStr(b []byte, s string) []byte { return append(b, s...) }
