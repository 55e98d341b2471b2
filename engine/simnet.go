package main

// Sockets: the operations on *net.TCPConn, os.File and syscalls used by servers are redirected to
// environment functions written in Go in the harness (harness/world_sym.go).

func initNet() {
	in := intrinsics
	_ = in
	toID := func(ip *Interp, g *G, a []Value) []Value {
		p, ok := a[0].(*Value)
		if !ok || p == nil {
			panic(goPanic{ip.runtimeError("invalid memory address or nil pointer dereference")})
		}
		id, ok := ip.connIDs[p]
		if !ok {
			unsupported("operation on an unknown connection or file")
		}
		r := append([]Value(nil), a...)
		r[0] = ip.c.BV(64, uint64(id))
		return r
	}
	for _, t := range []string{"(*net.conn).", "(*net.TCPConn)."} {
		for m, f := range map[string]string{
			"Read": "envRead", "Write": "envWrite", "Close": "envClose", "LocalAddr": "envLocalAddr", "RemoteAddr": "envRemoteAddr",
			"SetDeadline": "envSetDeadline", "SetReadDeadline": "envSetReadDeadline", "SetWriteDeadline": "envSetWriteDeadline",
			"File": "envFile", "CloseRead": "envCloseRead", "CloseWrite": "envCloseWrite", "SetLinger": "envSetInt", "SetNoDelay": "envSetBool", "SetKeepAlive": "envSetBool",
			"SetReadBuffer": "envSetInt", "SetWriteBuffer": "envSetInt", "SetKeepAlivePeriod": "envSetDur", "SyscallConn": "envSyscallConn",
		} {
			redirects[t+m] = redirect{target: f, rewrite: toID}
		}
	}
	for m, f := range map[string]string{"Accept": "envLAccept", "AcceptTCP": "envLAcceptTCP", "Close": "envLClose", "Addr": "envLAddr", "SetDeadline": "envLSetDeadline"} {
		redirects["(*net.TCPListener)."+m] = redirect{target: f, rewrite: toID}
	}
	redirects["(*net.TCPConn).ReadFrom"] = redirect{target: "vReadFrom"}
	redirects["(*net.Buffers).WriteTo"] = redirect{target: "vBuffersWriteTo"}
	harnessIntr["vBindListener"] = func(ip *Interp, g *G, a []Value) Value {
		ip.connIDs[a[0].(*Value)] = int(ip.concInt(g, a[1]))
		return nil
	}
	redirects["(*os.File).Fd"] = redirect{target: "envFd", rewrite: toID}
	redirects["(*os.File).Close"] = redirect{target: "envFileClose", rewrite: toID}
	redirects["syscall.Recvfrom"] = redirect{target: "envRecvfrom"}
	redirects["net.Listen"] = redirect{target: "envListen"}
	redirects["(*net.ListenConfig).Listen"] = redirect{target: "envListenCfg"}
	redirects["net.ResolveTCPAddr"] = redirect{target: "envResolveTCPAddr"}
	redirects["(net.IP).String"] = redirect{target: "vIPString"}
	redirects["net.IPv4"] = redirect{target: "vIPv4"}
	redirects["net.ListenTCP"] = redirect{target: "envListenTCP"}
	harnessIntr["vBindFile"] = func(ip *Interp, g *G, a []Value) Value {
		ip.connIDs[a[0].(*Value)] = int(ip.concInt(g, a[1]))
		return nil
	}
}
