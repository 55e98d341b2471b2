package kafkamock

// The network for native replay: real TCP on the loopback interface.

import (
	"math/rand"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

type vCli struct {
	mu     sync.Mutex
	cond   *sync.Cond
	conn   *net.TCPConn
	buf    []byte
	ended  bool
	armed  int
	relay  bool
	closed bool
	laddr  *net.TCPAddr
	stall  bool
}

var vUsedPort uint

var vTakenPorts = map[uint]bool{}

// vFreePort is a port below the range that outgoing connections use.
func vFreePort() uint {
	for {
		port := uint(20000 + rand.Intn(12000))
		if vTakenPorts[port] {
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err != nil {
			continue
		}
		l.Close()
		vTakenPorts[port] = true
		vUsedPort = port
		return port
	}
}

// vFreePorts is the first of n neighbouring ports.
func vFreePorts(n uint) uint {
	for {
		port := vFreePort()
		ok := true
		for i := uint(1); i < n; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf(":%d", port+i))
			if err != nil || vTakenPorts[port+i] {
				ok = false
			}
			if err == nil {
				l.Close()
			}
		}
		if ok {
			for i := uint(1); i < n; i++ {
				vTakenPorts[port+i] = true
			}
			return port
		}
	}
}

func vDial(port uint, timeoutNs int64) *vCli { return vDialWith(net.Dialer{Timeout: time.Second}, port, timeoutNs) }

var vFromPort uint

// vDialFrom connects from one of several addresses and ports.
func vDialFrom(port uint, host, from int, timeoutNs int64) *vCli {
	if vFromPort == 0 {
		vFromPort = vFreePorts(2)
	}
	a := &net.TCPAddr{IP: net.IPv4(127, 0, 0, byte(1+host)), Port: int(vFromPort) + from}
	return vDialWith(net.Dialer{Timeout: time.Second, LocalAddr: a}, port, timeoutNs)
}

func vDialWith(d net.Dialer, port uint, timeoutNs int64) *vCli {
	end := time.Now().Add(time.Duration(timeoutNs) + 50*time.Millisecond)
	for {
		conn, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err == nil {
			c := &vCli{conn: conn.(*net.TCPConn), armed: -1}
			c.laddr = conn.LocalAddr().(*net.TCPAddr)
			c.conn.SetNoDelay(true)
			c.cond = sync.NewCond(&c.mu)
			go c.pump()
			return c
		}
		if time.Now().After(end) {
			return nil
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func (c *vCli) pump() {
	b := make([]byte, 65536)
	for {
		c.mu.Lock()
		for c.stall {
			c.cond.Wait()
		}
		c.mu.Unlock()
		n, err := c.conn.Read(b)
		c.mu.Lock()
		c.buf = append(c.buf, b[:n]...)
		if err != nil {
			c.ended = true
		}
		reset := c.armed > 0 && len(c.buf) >= 4*c.armed
		c.cond.Broadcast()
		c.mu.Unlock()
		if reset {
			c.Reset()
		}
		if err != nil {
			return
		}
	}
}

func (c *vCli) Send(b []byte) {
	if len(b) == 0 {
		return
	}
	c.conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
	c.conn.Write(b)
	time.Sleep(3 * time.Millisecond)
}

func (c *vCli) wait(cond func() bool, timeoutNs int64) {
	end := time.Now().Add(time.Duration(timeoutNs) + 200*time.Millisecond)
	t := time.AfterFunc(time.Until(end), func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	for !cond() && time.Now().Before(end) {
		c.cond.Wait()
	}
}

func (c *vCli) Recv(n int, timeoutNs int64) []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wait(func() bool { return len(c.buf) >= n || c.ended }, timeoutNs)
	if len(c.buf) < n {
		n = len(c.buf)
	}
	r := append([]byte(nil), c.buf[:n]...)
	c.buf = c.buf[n:]
	return r
}

func (c *vCli) Pending() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.buf)
}

// StopReading makes the client read nothing more (the kernel takes in some more); Resume undoes it.
func (c *vCli) StopReading(n int) {
	c.mu.Lock()
	c.stall = true
	c.mu.Unlock()
}

func (c *vCli) Resume() {
	c.mu.Lock()
	c.stall = false
	c.cond.Broadcast()
	c.mu.Unlock()
}

// vVanish makes the client's host silent: some time later the connection fails with a time-out. Here the
// server's side is told to wait for a short time only, and the client takes in no more.
func (s *vSrv) vVanish(c *vCli) {
	s.km.mu.Lock()
	for _, kc := range s.km.clients {
		if c.SameConn(kc.conn) {
			if rc, err := kc.conn.(*net.TCPConn).SyscallConn(); err == nil {
				rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.IPPROTO_TCP, 18, 500) })
			}
		}
	}
	s.km.mu.Unlock()
	c.StopReading(0)
}

func (c *vCli) WaitClosed(timeoutNs int64) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wait(func() bool { return c.ended }, timeoutNs)
	return c.ended
}

func (c *vCli) Close() {
	c.conn.Close()
	time.Sleep(3 * time.Millisecond)
}

func (c *vCli) CloseWrite() {
	c.conn.CloseWrite()
	time.Sleep(3 * time.Millisecond)
}

func (c *vCli) Reset() {
	c.conn.SetLinger(0)
	c.conn.Close()
	time.Sleep(3 * time.Millisecond)
}

func (c *vCli) ResetAfterWrites(n int) {
	c.mu.Lock()
	c.armed = n
	c.mu.Unlock()
}

func (c *vCli) Accepted() bool { return true }

func (c *vCli) SameConn(nc net.Conn) bool {
	a, ok := nc.RemoteAddr().(*net.TCPAddr)
	return ok && c.laddr != nil && a.Port == c.laddr.Port && a.IP.Equal(c.laddr.IP)
}

func vListenAddr() string { return fmt.Sprintf(":%d", vUsedPort) }

func vOpenListeners() int {
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", vUsedPort), 2*time.Second)
	if err != nil {
		return 0
	}
	conn.Close()
	return 1
}

func vSleep(ns int64) { time.Sleep(time.Duration(ns)) }

// vDialRelay connects through a helper process that outlives a crash of this one and reports how many
// bytes the server sent.
func vRelayMain() bool {
	spec := os.Getenv("VERIF_RELAY")
	if spec == "" {
		return false
	}
	parts := strings.Split(spec, ",")
	srv, err := net.Dial("tcp", "127.0.0.1:"+parts[0])
	if err != nil {
		return true
	}
	back, err := net.Dial("tcp", "127.0.0.1:"+parts[1])
	if err != nil {
		return true
	}
	done := make(chan bool)
	go func() { io.Copy(srv, back); done <- true }()
	total := 0
	b := make([]byte, 4096)
	srv.SetReadDeadline(time.Now().Add(15 * time.Second))
	for {
		n, err := srv.Read(b)
		if n > 0 {
			total += n
			fmt.Printf("@@RELAY %d\n", total)
			back.Write(b[:n])
		}
		if err != nil {
			break
		}
	}
	back.Close()
	return true
}

func vDialRelay(port uint, timeoutNs int64) *vCli {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil
	}
	defer l.Close()
	// wait for the server to listen
	probe := vDial(port, timeoutNs)
	if probe == nil {
		return nil
	}
	probe.Close()
	cmd := exec.Command(os.Args[0], "-test.run=TestNothing")
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_RELAY=%d,%d", port, l.Addr().(*net.TCPAddr).Port))
	cmd.Stdout, cmd.Stderr = os.Stdout, nil
	if cmd.Start() != nil {
		return nil
	}
	conn, err := l.Accept()
	if err != nil {
		return nil
	}
	c := &vCli{conn: conn.(*net.TCPConn), armed: -1}
	c.cond = sync.NewCond(&c.mu)
	go c.pump()
	return c
}
