package libsrt

import (
	"net"
	"sync"
	"time"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

func vfB32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func vfU32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// vfServer is a listener and what it delivered.
type vfServer struct {
	l    *Listener
	mu   sync.Mutex
	got  [][]byte
	done chan struct{}
}

func vfListen() *vfServer {
	s := &vfServer{done: make(chan struct{})}
	l, err := Listen("127.0.0.1:0", "name", func(id string, b []byte) error {
		nd.Assert(id == "name", "under its name")
		s.mu.Lock()
		s.got = append(s.got, append([]byte(nil), b...))
		s.mu.Unlock()
		return nil
	})
	nd.Assert(err == nil, "listening")
	s.l = l
	go func() {
		l.Run()
		close(s.done)
	}()
	return s
}

func (s *vfServer) take() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	g := s.got
	s.got = nil
	return g
}

// vfCaller is one peer.
type vfCaller struct {
	c  *net.UDPConn
	id uint32
}

func (s *vfServer) caller(id uint32) *vfCaller {
	c, err := net.DialUDP("udp", nil, s.l.conn.LocalAddr().(*net.UDPAddr))
	nd.Assert(err == nil, "socket")
	return &vfCaller{c, id}
}

// vfReply is one packet the listener sent.
type vfReply struct {
	first, info, dest uint32
	body              []byte
}

// say sends a packet and collects what comes back.
func (c *vfCaller) say(first, info, ts, dest uint32, body []byte) []vfReply {
	b := append(vfB32(first), vfB32(info)...)
	b = append(b, vfB32(ts)...)
	b = append(b, vfB32(dest)...)
	return c.raw(append(b, body...))
}

func (c *vfCaller) raw(b []byte) (out []vfReply) {
	_, err := c.c.Write(b)
	nd.Assert(err == nil, "sent")
	nd.Quiesce()
	time.Sleep(20 * time.Millisecond)
	for {
		c.c.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
		buf := make([]byte, 1500)
		n, err := c.c.Read(buf)
		if err != nil {
			return out
		}
		nd.Assert(n >= 16, "a whole header")
		r := vfReply{vfU32(buf), vfU32(buf[4:]), vfU32(buf[12:]), buf[16:n]}
		nd.Assert(r.dest == c.id, "addressed to the caller's socket")
		out = append(out, r)
	}
}

func vfHello(typ int32, id, cookie, seq uint32) []byte {
	b := append(vfB32(5), 0, 2, 0, 0)
	b = append(b, vfB32(seq)...)
	b = append(b, vfB32(1500)...)
	b = append(b, vfB32(8192)...)
	b = append(b, vfB32(uint32(typ))...)
	b = append(b, vfB32(id)...)
	b = append(b, vfB32(cookie)...)
	return append(b, 1, 0, 0, 127, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
}

// induct shakes hands, first half; it returns the cookie and our id.
func (c *vfCaller) induct() (cookie, our uint32) {
	out := c.say(0x80000000, 0, 0, 0, vfHello(1, c.id, 0, 0))
	nd.Assert(len(out) == 1 && out[0].first == 0x80000000 && len(out[0].body) >= 48, "induction answered")
	b := out[0].body
	nd.Assert(vfU32(b[20:]) == 1, "with an induction")
	return vfU32(b[28:]), vfU32(b[24:])
}

func (c *vfCaller) conclude(cookie, our, seq uint32) bool {
	out := c.say(0x80000000, 0, 0, our, vfHello(-1, c.id, cookie, seq))
	if len(out) == 0 {
		return false
	}
	nd.Assert(len(out) == 1 && out[0].first == 0x80000000 && len(out[0].body) >= 48, "one answer")
	b := out[0].body
	if int32(vfU32(b[20:])) != -1 {
		return false
	}
	nd.Assert(vfU32(b[24:]) == our, "the socket id announced before")
	return true
}
