package librtmp

import (
	"net"
	"time"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfSRT is one SRT caller.
type vfSRT struct {
	c   *net.UDPConn
	our uint32
	seq uint32
}

func (c *vfSRT) send(first, info uint32, body []byte) {
	b := append(vfB32(first), vfB32(info)...)
	b = append(b, vfB32(0)...)
	b = append(b, vfB32(c.our)...)
	_, err := c.c.Write(append(b, body...))
	nd.Assert(err == nil, "sent")
	nd.Quiesce()
}

func (c *vfSRT) hello(typ int32, cookie uint32) (theirs, our uint32) {
	b := append(vfB32(5), 0, 2, 0, 0)
	b = append(b, vfB32(c.seq)...)
	b = append(b, vfB32(1500)...)
	b = append(b, vfB32(8192)...)
	b = append(b, vfB32(uint32(typ))...)
	b = append(b, vfB32(0x1234)...)
	b = append(b, vfB32(cookie)...)
	c.send(0x80000000, 0, append(b, 1, 0, 0, 127, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0))
	c.c.SetReadDeadline(time.Now().Add(time.Second))
	buf := make([]byte, 1500)
	n, err := c.c.Read(buf)
	nd.Assert(err == nil && n >= 64, "answered")
	u := func(i int) uint32 {
		return uint32(buf[i])<<24 | uint32(buf[i+1])<<16 | uint32(buf[i+2])<<8 | uint32(buf[i+3])
	}
	return u(16 + 28), u(16 + 24)
}

func vfSRTDial(port int) *vfSRT {
	s, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	nd.Assert(err == nil, "socket")
	c := &vfSRT{c: s, seq: 1000}
	var cookie uint32
	cookie, c.our = c.hello(1, 0)
	c.hello(-1, cookie)
	return c
}

// ts sends transport stream packets.
func (c *vfSRT) ts(p []byte) {
	c.send(c.seq, 0xe0000001, p)
	c.seq++
}

func (c *vfSRT) pes(pid uint16, pes []byte) {
	for i := 0; len(pes) > 0; i++ {
		n := vfMin(184, len(pes))
		c.ts(vfTS(pid, i == 0, byte(i), pes[:n]))
		pes = pes[n:]
	}
}

func (c *vfSRT) tables() {
	c.ts(append(vfTS(0, true, 0, vfSection(0, 0, 1, []byte{0, 1, 0xf0, 0x00})),
		vfTS(0x1000, true, 0, vfSection(0, 2, 1, []byte{0xe1, 0, 0xf0, 0, 0x1b, 0xe1, 0, 0xf0, 0, 0x0f, 0xe1, 1, 0xf0, 0}))...))
}

func (c *vfSRT) shutdown() { c.send(0x80050000, 0, nil) }

