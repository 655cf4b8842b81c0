package librtmp

import (
	"bytes"
	"io"
	"net"
	"sync"
	"time"

	"github.com/SmartBrave/Athena/broadcast"
	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfConn is one end of a connection whose peer has said everything it will.
type vfConn struct {
	in     []byte
	pos    int
	out    []byte
	closed bool
}

func (c *vfConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if c.pos >= len(c.in) {
		return 0, io.EOF
	}
	n := copy(b, c.in[c.pos:])
	c.pos += n
	return n, nil
}

func (c *vfConn) Write(b []byte) (int, error) {
	c.out = append(c.out, b...)
	return len(b), nil
}

func (c *vfConn) Close() error                       { c.closed = true; return nil }
func (c *vfConn) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c *vfConn) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (c *vfConn) SetDeadline(t time.Time) error      { return nil }
func (c *vfConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vfConn) SetWriteDeadline(t time.Time) error { return nil }

func vfB32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// vfBasic writes a basic header in the form of 1, 2 or 3 bytes.
func vfBasic(f byte, csid uint32, form int) []byte {
	switch form {
	case 1:
		return []byte{f<<6 | byte(csid)}
	case 2:
		return []byte{f << 6, byte(csid - 64)}
	}
	return []byte{f<<6 | 1, byte(csid - 64), byte((csid - 64) >> 8)}
}

// vfHead writes a message header; ext tells whether the time needs the long form.
func vfHead(f byte, time uint32, ext bool, n int, typ byte, sid uint32) []byte {
	t := time
	if ext {
		t = 0xffffff
	}
	var b []byte
	if f < 3 {
		b = append(b, byte(t>>16), byte(t>>8), byte(t))
	}
	if f < 2 {
		b = append(b, byte(n>>16), byte(n>>8), byte(n), typ)
	}
	if f < 1 {
		b = append(b, byte(sid), byte(sid>>8), byte(sid>>16), byte(sid>>24))
	}
	if ext {
		b = append(b, vfB32(time)...)
	}
	return b
}

// vfMsg writes a whole message on csid 3 with type 0 and type 3 chunks.
func vfMsg(typ byte, time uint32, body []byte, size int) []byte {
	b := append(vfBasic(0, 3, 1), vfHead(0, time, false, len(body), typ, 1)...)
	for i := 0; i < len(body); i += size {
		if i > 0 {
			b = append(b, vfBasic(3, 3, 1)...)
		}
		n := len(body) - i
		if n > size {
			n = size
		}
		b = append(b, body[i:i+n]...)
	}
	return b
}

func vfAmfStr(s string) []byte {
	return append([]byte{2, byte(len(s) >> 8), byte(len(s))}, s...)
}

func vfAmfNum(hi byte) []byte { return []byte{0, hi, 0xf0, 0, 0, 0, 0, 0, 0} } //0x3f: 1.0

func vfConnect(app string) []byte {
	b := append(vfAmfStr("connect"), vfAmfNum(0x3f)...)
	b = append(b, 3, 0, 3, 'a', 'p', 'p')
	b = append(b, vfAmfStr(app)...)
	return append(b, 0, 0, 9)
}

func vfCommand(name, arg string) []byte {
	b := append(vfAmfStr(name), vfAmfNum(0x3f)...)
	b = append(b, 5)
	b = append(b, vfAmfStr(arg)...)
	if name == "publish" {
		b = append(b, vfAmfStr("live")...)
	}
	return b
}

func (c *vfConn) command(app bool, b []byte) { c.in = append(c.in, vfMsg(20, 0, b, 128)...) }

// vfSession connects to the app and says what is to be said.
func vfSession(srv *server, app string) (*RTMP, *vfConn) {
	c := &vfConn{}
	r := NewRTMP(c, "peer", srv)
	c.command(true, vfConnect(app))
	nd.Assert(ParseMessage(r) == nil, "connected")
	return r, c
}

func (c *vfConn) do(r *RTMP, name, arg string) error {
	c.command(false, vfCommand(name, arg))
	return ParseMessage(r)
}

// vfPublisher is a connection that publishes live/x, and a viewer of it
// that has already seen the three headers.
func vfPublisher() (*server, *RTMP, *vfConn, *broadcast.BroadcastReader) {
	srv := NewServer(":0", "live")
	r, c := vfSession(srv, "live")
	nd.Assert(c.do(r, "publish", "x") == nil, "publishing")
	room := srv.apps["live"].Load("x")
	nd.Assert(room != nil, "published")
	v := broadcast.NewBroadcastReader(room.GOP)
	c.in = append(c.in, vfMsg(18, 0, []byte{2, 0, 1, 'm', 5}, 128)...)
	c.in = append(c.in, vfMsg(9, 0, []byte{0x17, 0, 0, 0, 0, 1}, 128)...)
	c.in = append(c.in, vfMsg(8, 0, []byte{0xaf, 0, 0x12, 0x10}, 128)...)
	for i := 0; i < 3; i++ {
		nd.Assert(ParseMessage(r) == nil, "header taken")
	}
	for i := 0; i < 3; i++ {
		_, alive := v.Read()
		nd.Assert(alive, "header seen")
	}
	return srv, r, c, v
}

// vfNext is what the viewer gets next.
func vfNext(v *broadcast.BroadcastReader) libflv.Tag {
	p, alive := v.Read()
	nd.Assert(alive, "stream alive")
	return p.(libflv.Tag)
}

// vfCsid draws a chunk stream id and the form of its basic header.
func vfCsid(label string) (uint32, int) {
	form := nd.Pick(label+" form", 1, 3)
	switch form {
	case 1:
		return uint32(nd.Range(label, 2, 63)), 1
	case 2:
		return uint32(nd.Range(label, 64, 319)), 2
	}
	return uint32(nd.Range(label, 64, 65599)), 3
}

// vfBody is a message body no two bytes of which are tied: MP3 audio.
func vfBody(label string, n int) []byte {
	b := nd.Bytes(label, n)
	if n > 0 {
		nd.Assume(b[0]>>4 == 2)
	}
	return b
}

// split writes the chunks of a body, all but the first of type 3.
func vfSplit(c *vfConn, csid uint32, form int, head []byte, f byte, body []byte, size int, ext bool, time uint32) {
	c.in = append(c.in, vfBasic(f, csid, form)...)
	c.in = append(c.in, head...)
	for i := 0; ; i += size {
		if i > 0 {
			c.in = append(c.in, vfBasic(3, csid, form)...)
			if ext {
				c.in = append(c.in, vfB32(time)...)
			}
		}
		n := len(body) - i
		if n <= size {
			c.in = append(c.in, body[i:]...)
			return
		}
		c.in = append(c.in, body[i:i+size]...)
	}
}

func vfChunkSize(c *vfConn, r *RTMP, size int) {
	c.in = append(c.in, vfMsg(1, 0, vfB32(uint32(size)), 128)...)
	nd.Assert(ParseMessage(r) == nil, "chunk size taken")
}

func vfSame(t libflv.Tag, time uint32, body []byte, label string) {
	a, ok := t.(*libflv.AudioTag)
	nd.Assert(ok, label+": audio")
	nd.Assert(a.GetTagInfo().TimeStamp == time, label+": time")
	nd.Assert(nd.Eq(a.Marshal(), body), label+": every byte once, in order")
}

// vfRead takes the chunks of one message apart, as RFC-abiding peers do.
func vfRead(b []byte, size int) (csid uint32, typ byte, time uint32, body, rest []byte) {
	n, ext := -1, false
	for {
		f := b[0] >> 6
		id, pos := uint32(b[0]&0x3f), 1
		switch id {
		case 0:
			id, pos = uint32(b[1])+64, 2
		case 1:
			id, pos = uint32(b[1])+uint32(b[2])*256+64, 3
		}
		if n < 0 {
			nd.Assert(f == 0, "full header first")
			csid = id
			h := b[pos:]
			time = uint32(h[0])<<16 | uint32(h[1])<<8 | uint32(h[2])
			n = int(h[3])<<16 | int(h[4])<<8 | int(h[5])
			typ = h[6]
			pos += 11
			ext = time == 0xffffff
			if ext {
				time = uint32(b[pos])<<24 | uint32(b[pos+1])<<16 | uint32(b[pos+2])<<8 | uint32(b[pos+3])
				pos += 4
			}
		} else {
			nd.Assert(f == 3 && id == csid, "continued on the same chunk stream")
			if ext {
				nd.Assert(uint32(b[pos])<<24|uint32(b[pos+1])<<16|uint32(b[pos+2])<<8|uint32(b[pos+3]) == time, "extended time repeated")
				pos += 4
			}
		}
		b = b[pos:]
		k := n - len(body)
		if k > size {
			k = size
		}
		nd.Assert(len(b) >= k, "chunk complete")
		body = append(body, b[:k]...)
		b = b[k:]
		if len(body) == n {
			return csid, typ, time, body, b
		}
	}
}

// vfWire is a connection whose peer goes on talking.
type vfWire struct {
	vfConn
	more chan []byte
	buf  []byte
	gone bool
	done chan struct{}
}

func (c *vfWire) Read(b []byte) (int, error) {
	for len(c.buf) == 0 {
		m, ok := <-c.more
		if !ok {
			return 0, io.EOF
		}
		c.buf = m
	}
	n := copy(b, c.buf)
	c.buf = c.buf[n:]
	return n, nil
}

func (c *vfWire) say(b []byte) {
	c.more <- b
	nd.Quiesce()
}

// vfDial starts a server session and shakes hands with it.
func vfDial(srv *server) *vfWire {
	c := &vfWire{more: make(chan []byte, 16), done: make(chan struct{})}
	r := NewRTMP(c, "peer", srv)
	go func() {
		r.HandlerServer()
		close(c.done)
	}()
	h := make([]byte, 1+1536+1536)
	h[0] = 3
	c.say(h)
	nd.Assert(len(c.out) == 1+1536+1536, "shaken hands")
	c.out = nil
	return c
}

func (c *vfWire) hangUp() {
	close(c.more)
	<-c.done
}

// vfSplitMsg is a message with the long form of the time.
func vfSplitMsg(typ byte, time uint32, body []byte, size int) []byte {
	c := &vfConn{}
	ext := time >= 0xffffff
	vfSplit(c, 4, 1, vfHead(0, time, ext, len(body), typ, 1), 0, body, size, ext, time)
	return c.in
}

// vfAcks reads the acknowledgements among the replies.
func vfAcks(out []byte) (seq []uint32) {
	for len(out) > 0 {
		var typ byte
		var body []byte
		_, typ, _, body, out = vfRead(out, 4096)
		if typ == 3 {
			nd.Assert(len(body) == 4, "an acknowledgement has four bytes")
			seq = append(seq, uint32(body[0])<<24|uint32(body[1])<<16|uint32(body[2])<<8|uint32(body[3]))
		}
	}
	return seq
}

// vfWindow sends messages and compares the acknowledgements.
func vfWindow(r *RTMP, c *vfConn, total, acked uint32) {
	w := nd.U32("window")
	n := uint32(len(c.in))
	c.in = append(c.in, vfMsg(5, 0, vfB32(w), 128)...)
	nd.Assert(ParseMessage(r) == nil, "window taken")
	nd.Assert(len(vfAcks(c.out)) == 0, "nothing to acknowledge before a window is known")
	total += uint32(len(c.in)) - n
	last := acked
	c.out = nil
	var want []uint32
	heard := func(k int) {
		total += uint32(k)
		if w > 0 && total-last >= w {
			want = append(want, total)
			last = total
			nd.Reach("window used up")
		}
	}
	size := 0 //of the message before on csid 5
	for i := 0; i < nd.Bound(2, 3); i++ {
		form := nd.Pick("form", 1, 3)
		csid := []uint32{5, 70, 400}[form-1]
		f := byte(0)
		if form == 1 && size > 0 {
			f = byte(nd.Pick("fmt", 0, 2))
		}
		time := uint32(7)
		ext := nd.Bool("long time")
		if ext {
			time = 0x1000000
		}
		n := size
		if f < 2 {
			n = nd.Pick("length", 0, 2)*60 + 61
		}
		if form == 1 {
			size = n
		}
		body := vfBody("body", n)
		before := len(c.in)
		head := vfHead(f, time, ext, n, 8, 1)
		vfSplit(c, csid, form, head, f, body, 128, ext, time)
		all := len(c.in) - before
		if n > 128 {
			k := form + len(head) + 128
			heard(k)
			heard(all - k)
		} else {
			heard(all)
		}
		nd.Assert(ParseMessage(r) == nil, "message taken")
	}
	got := vfAcks(c.out)
	nd.Assert(len(got) == len(want), "one acknowledgement each time the window is used up")
	for i := range got {
		nd.Assert(got[i] == want[i], "number of bytes received")
	}
	nd.Reach("end")
}

// vfStatus is the code of the last onStatus among the replies.
func vfStatus(out []byte) string {
	last := ""
	for b := out; len(b) > 0; {
		var typ byte
		var body []byte
		_, typ, _, body, b = vfRead(b, 4096)
		if typ != 20 {
			continue
		}
		for _, code := range []string{"NetStream.Publish.BadName", "NetStream.Publish.Start", "NetStream.Play.StreamNotFound", "NetStream.Play.Start"} {
			if bytes.Contains(body, []byte(code)) {
				last = code
			}
		}
	}
	return last
}

// vfSeen collects what the viewers of a stream see.
type vfSeen struct {
	mu   sync.Mutex
	tags []libflv.Tag
	over bool
}

func vfWatch(room *Room) *vfSeen {
	s := &vfSeen{}
	v := broadcast.NewBroadcastReader(room.GOP)
	go func() {
		for {
			p, alive := v.Read()
			s.mu.Lock()
			if t, ok := p.(libflv.Tag); ok && alive {
				s.tags = append(s.tags, t)
			}
			s.over = s.over || !alive
			s.mu.Unlock()
			if !alive {
				return
			}
		}
	}()
	return s
}

func (s *vfSeen) take() (t []libflv.Tag, over bool) {
	nd.Quiesce()
	s.mu.Lock()
	defer s.mu.Unlock()
	t = s.tags
	s.tags = nil
	return t, s.over
}
