package verifnd

import (
	"errors"
	"net"
	"time"
)

// A model of UDP on the loopback interface: the engine runs these bodies in
// place of the functions of package net named beside them. Nothing is lost,
// duplicated or reordered, and sockets of another host do not exist; natively
// (in replays) the real sockets are used. A read with a deadline set returns
// at once when nothing is there, so harnesses quiesce before reading.

type udpPkt struct {
	from int
	b    []byte
}

type udpSock struct {
	port     int
	peer     int
	in       chan udpPkt
	closed   chan struct{}
	gone     bool
	deadline bool
}

var (
	tcpConns = map[int]net.Conn{} //see tcp.go; those too are read, written and closed here
	udpPorts = map[int]*udpSock{}
	udpConns = map[int]*udpSock{}
	udpNext  = 20000
	errUDP   = errors.New("use of closed network connection")
	errUDPTO = errors.New("i/o timeout")
)

// udpMake and udpKey are engine intrinsics.
func udpMake(id int) *net.UDPConn { return nil }
func udpKey(c interface{}) int    { return 0 }

func udpOpen(port, peer int) *net.UDPConn {
	if port == 0 {
		port = udpNext
		udpNext += 2
	}
	s := &udpSock{port: port, peer: peer, in: make(chan udpPkt, 256), closed: make(chan struct{})}
	udpPorts[port] = s
	id := len(udpConns) + 1
	udpConns[id] = s
	return udpMake(id)
}

func udpListen(network string, laddr *net.UDPAddr) (*net.UDPConn, error) { // net.ListenUDP
	port := 0
	if laddr != nil {
		port = laddr.Port
	}
	if s := udpPorts[port]; port != 0 && s != nil && !s.gone {
		return nil, errors.New("address already in use")
	}
	return udpOpen(port, 0), nil
}

func udpDial(network string, laddr, raddr *net.UDPAddr) (*net.UDPConn, error) { // net.DialUDP
	port := 0
	if laddr != nil {
		port = laddr.Port
	}
	return udpOpen(port, raddr.Port), nil
}

func udpRecv(s *udpSock, b []byte) (int, int, error) {
	if s == nil || s.gone {
		return 0, 0, errUDP
	}
	for {
		var p udpPkt
		if s.deadline {
			select {
			case p = <-s.in:
			default:
				return 0, 0, errUDPTO
			}
		} else {
			select {
			case p = <-s.in:
			case <-s.closed:
				return 0, 0, errUDP
			}
		}
		if s.peer != 0 && p.from != s.peer {
			continue
		}
		return copy(b, p.b), p.from, nil
	}
}

func udpSend(s *udpSock, b []byte, port int) (int, error) {
	if s == nil || s.gone {
		return 0, errUDP
	}
	if d := udpPorts[port]; d != nil && !d.gone {
		select {
		case d.in <- udpPkt{s.port, append([]byte(nil), b...)}:
		default:
		}
	}
	return len(b), nil
}

func udpAddr(port int) *net.UDPAddr { return &net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: port} }

func udpReadFrom(c interface{}, b []byte) (int, *net.UDPAddr, error) { // (*net.UDPConn).ReadFromUDP
	n, from, err := udpRecv(udpConns[udpKey(c)], b)
	if err != nil {
		return 0, nil, err
	}
	return n, udpAddr(from), nil
}

func udpRead(c interface{}, b []byte) (int, error) { // (*net.conn).Read
	if t := tcpConns[udpKey(c)]; t != nil {
		return t.Read(b)
	}
	n, _, err := udpRecv(udpConns[udpKey(c)], b)
	return n, err
}

func udpWriteTo(c interface{}, b []byte, a *net.UDPAddr) (int, error) { // (*net.UDPConn).WriteToUDP
	if a == nil {
		return 0, errors.New("missing address")
	}
	s := udpConns[udpKey(c)]
	if s != nil && s.peer != 0 {
		return 0, errors.New("use of WriteTo with pre-connected connection")
	}
	if a.Port <= 0 || a.Port > 65535 {
		return 0, errors.New("invalid port")
	}
	return udpSend(s, b, a.Port)
}

func udpWrite(c interface{}, b []byte) (int, error) { // (*net.conn).Write
	if t := tcpConns[udpKey(c)]; t != nil {
		return t.Write(b)
	}
	s := udpConns[udpKey(c)]
	return udpSend(s, b, s.peer)
}

func udpClose(c interface{}) error { // (*net.conn).Close
	if t := tcpConns[udpKey(c)]; t != nil {
		return t.Close()
	}
	s := udpConns[udpKey(c)]
	if s == nil || s.gone {
		return errUDP
	}
	s.gone = true
	close(s.closed)
	return nil
}

func udpLocal(c interface{}) net.Addr { // (*net.conn).LocalAddr
	if t := tcpConns[udpKey(c)]; t != nil {
		return t.LocalAddr()
	}
	return udpAddr(udpConns[udpKey(c)].port)
}

func udpRemote(c interface{}) net.Addr { // (*net.conn).RemoteAddr
	if t := tcpConns[udpKey(c)]; t != nil {
		return t.RemoteAddr()
	}
	return udpAddr(udpConns[udpKey(c)].peer)
}

func udpDeadline(c interface{}, t time.Time) error { // (*net.conn).SetReadDeadline, SetDeadline
	if k := tcpConns[udpKey(c)]; k != nil {
		return k.SetReadDeadline(t)
	}
	udpConns[udpKey(c)].deadline = !t.IsZero()
	return nil
}

func udpNoDeadline(c interface{}, t time.Time) error { return nil } // (*net.conn).SetWriteDeadline

func udpResolve(network, address string) (*net.UDPAddr, error) { // net.ResolveUDPAddr
	i := len(address) - 1
	for i >= 0 && address[i] != ':' {
		i--
	}
	if i < 0 {
		return nil, errors.New("missing port in address")
	}
	port := 0
	for _, d := range address[i+1:] {
		if d < '0' || d > '9' {
			return nil, errors.New("unknown port")
		}
		port = port*10 + int(d-'0')
	}
	if port > 65535 {
		return nil, errors.New("invalid port")
	}
	return udpAddr(port), nil
}

// UDPWait is how long a harness waits for a datagram that should be there.
func UDPWait() time.Time { return time.Now().Add(150 * time.Millisecond) }
