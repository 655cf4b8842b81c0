package librtmp

import (
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfDrain reads messages until the connection ends and counts them.
func vfDrain(r *RTMP) int {
	for n := 0; ; n++ {
		if ParseMessage(r) != nil {
			return n
		}
	}
}

// Anything after a proper beginning.
//
//vf:prop C02
//vf:bounds any 12..14 (thorough 17) bytes to a fresh session; any 1..6 (thorough 9) bytes following an established publishing session, on whose chunk stream headers of every type are possible
//vf:opt alloc=4096
func VfAnyChunks() {
	var r *RTMP
	var c *vfConn
	var n int
	if nd.Bool("fresh") {
		c = &vfConn{}
		r = NewRTMP(c, "peer", NewServer(":0", "live"))
		n = nd.Pick("len", 12, nd.Bound(14, 17))
	} else {
		_, r, c, _ = vfPublisher()
		n = nd.Pick("len", 1, nd.Bound(6, 9))
	}
	c.in = append(c.in, nd.Bytes("bytes", n)...)
	if vfDrain(r) > 0 {
		nd.Reach("message taken")
	}
	nd.Reach("refused")
}

// Any content of any message, in each role.
//
//vf:prop C02
//vf:bounds one message of any type with 0..5 (thorough 7) bytes of any content (AMF-carrying types 0..3, thorough 5), to a fresh, a connected, a publishing and a playing session, then a proper message
//vf:opt alloc=8192
func VfAnyMessage() {
	srv, p, pc, _ := vfPublisher()
	var r *RTMP
	var c *vfConn
	role := nd.Pick("role", 0, 3)
	switch role {
	case 0:
		c = &vfConn{}
		r = NewRTMP(c, "peer", srv)
	case 1:
		r, c = vfSession(srv, "live")
	case 2:
		r, c = p, pc
	case 3:
		r, c = vfSession(srv, "live")
		nd.Assert(c.do(r, "play", "x") == nil, "playing")
		nd.Quiesce()
	}
	types := []byte{1, 2, 3, 4, 5, 6, 8, 9, 15, 16, 17, 18, 19, 20, 22, 0, 7, 99}
	i := nd.Pick("type", 0, len(types)-1)
	max := nd.Bound(5, 7)
	switch types[i] {
	case 15, 17, 18, 20:
		//the decoder itself is C04's; role and content are not related
		max = nd.Bound(2, 3)
		if role == 2 {
			max = nd.Bound(3, 5)
		}
	case 8, 9, 22:
		if role != 2 {
			max = 2
		}
	}
	body := nd.Bytes("body", nd.Pick("len", 0, max))
	c.in = append(c.in, vfMsg(types[i], 0, body, 128)...)
	size := 128
	if types[i] == 1 && len(body) >= 4 {
		size = 1
		nd.Assume(nd.Or(body[3] == 1, nd.Eq(body[:4], make([]byte, 4)), body[0] >= 0x80))
		nd.Assume(nd.And(body[0]&0x7f == 0, body[1] == 0, body[2] == 0))
	}
	if ParseMessage(r) != nil {
		nd.Reach("refused")
		return
	}
	c.in = append(c.in, vfMsg(4, 0, []byte{0, 6, 1, 2, 3, 4}, size)...)
	c.out = nil
	nd.Assert(ParseMessage(r) == nil, "the next message is taken")
	answered := false
	for b := c.out; len(b) > 0; {
		var typ byte
		var got []byte
		_, typ, _, got, b = vfRead(b, 128)
		if typ == 4 {
			nd.Assert(nd.Eq(got, []byte{0, 7, 1, 2, 3, 4}), "ping answered with its own time")
			answered = true
		} else {
			nd.Assert(typ == 3, "nothing else but an acknowledgement")
		}
	}
	nd.Assert(answered, "ping answered")
	nd.Reach("goes on")
}

// Announced sizes are the peer's word only.
//
//vf:prop C02
//vf:bounds a chunk of any type announcing any message length up to 2^24-1 on any chunk stream, followed by 0..4 bytes
//vf:opt alloc=4096
func VfAnnounced() {
	_, r, c, _ := vfPublisher()
	nd.AllocBound(4096)
	typ := []byte{1, 5, 8, 9, 16, 18, 20, 22}[nd.Pick("type", 0, 7)]
	for i := 0; i < 2; i++ {
		n := nd.U32("length")
		nd.Assume(nd.And(n >= 128, n < 1<<24))
		c.in = append(c.in, vfBasic(0, uint32(40+i), 1)...)
		c.in = append(c.in, vfHead(0, 0, false, int(n), typ, 1)...)
		c.in = append(c.in, make([]byte, 128)...)
	}
	nd.Assume(vfDrain(r) == 0)
	nd.Reach("waiting")
}
