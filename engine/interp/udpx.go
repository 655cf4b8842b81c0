package interp

import (
	"golang.org/x/tools/go/ssa"

	"gosym/term"
)

// redirects names the functions whose body is replaced by one of the harness
// API package (harness/verifnd/udp.go, tcp.go): a model of UDP and TCP
// sockets and of HTTP service in Go.
var redirects = map[string]string{
	"net.ListenUDP":                "udpListen",
	"net.DialUDP":                  "udpDial",
	"net.ResolveUDPAddr":           "udpResolve",
	"(*net.UDPConn).ReadFromUDP":   "udpReadFrom",
	"(*net.UDPConn).WriteToUDP":    "udpWriteTo",
	"(*net.conn).Read":             "udpRead",
	"(*net.conn).Write":            "udpWrite",
	"(*net.conn).Close":            "udpClose",
	"(*net.conn).LocalAddr":        "udpLocal",
	"(*net.conn).RemoteAddr":       "udpRemote",
	"(*net.conn).SetReadDeadline":  "udpDeadline",
	"(*net.conn).SetDeadline":      "udpDeadline",
	"(*net.conn).SetWriteDeadline": "udpNoDeadline",

	"net.ResolveTCPAddr":                "tcpResolve",
	"net.ListenTCP":                     "tcpListen",
	"net.Listen":                        "tcpListenAny",
	"net.Dial":                          "tcpDial",
	"net.DialTimeout":                   "tcpDialTimeout",
	"(*net.TCPListener).AcceptTCP":      "tcpAcceptTCP",
	"(*net.TCPListener).Accept":         "tcpAccept",
	"(*net.TCPListener).Close":          "tcpDoorClose",
	"(*net.TCPListener).Addr":           "tcpDoorAddr",
	"net/http.Serve":                    "httpServe",
	"(*net/http.Server).Serve":          "httpServerServe",
	"net/http.ListenAndServe":           "httpListenAndServe",
	"(*net/http.Server).ListenAndServe": "httpServerListenAndServe",
	"net/http.ServeFile":                "httpServeFile",
}

func init() {
	intr[ndPkg+".udpMake"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		z := zero(m.eng.pkgType("net", "UDPConn")).(Struct)
		fd := new(Value)
		*fd = a[0]
		z[0].(Struct)[0] = fd
		c := new(Value)
		*c = z
		return c
	}
	for name, typ := range map[string]string{"tcpMake": "TCPConn", "tcpMakeDoor": "TCPListener"} {
		typ := typ
		intr[ndPkg+"."+name] = func(m *Machine, fn *ssa.Function, a []Value) Value {
			z := zero(m.eng.pkgType("net", typ)).(Struct)
			fd := new(Value)
			*fd = a[0]
			if in, ok := z[0].(Struct); ok {
				in[0] = fd
			} else {
				z[0] = fd
			}
			c := new(Value)
			*c = z
			return c
		}
	}
	intr[ndPkg+".udpKey"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		v := a[0]
		if i, ok := v.(Iface); ok {
			v = i.v
		}
		p, ok := v.(*Value)
		if !ok || p == nil {
			return term.K(64, 0)
		}
		s, ok := (*p).(Struct)
		if ok && len(s) > 0 {
			if in, ok := s[0].(Struct); ok {
				s = in
			}
			if fd, ok := s[0].(*Value); ok && fd != nil {
				return *fd
			}
		}
		return term.K(64, 0)
	}
}
