package librtmp

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"net"
	"net/http"
	"sync"
	"time"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfFrame writes a frame as a client or server does.
func vfFrame(first byte, form int, mask []byte, payload []byte) []byte {
	b := []byte{first}
	m := byte(0)
	if mask != nil {
		m = 0x80
	}
	n := len(payload)
	switch form {
	case 0:
		b = append(b, m|byte(n))
	case 1:
		b = append(b, m|126, byte(n>>8), byte(n))
	default:
		b = append(b, m|127, 0, 0, 0, 0, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	b = append(b, mask...)
	for i, x := range payload {
		if mask != nil {
			x ^= mask[i&3]
		}
		b = append(b, x)
	}
	return b
}

func vfForm(n int) int {
	switch {
	case n < 126:
		return 0
	case n < 65536:
		return 1
	}
	return 2
}

// Frames to a player.
//
//vf:prop C22
//vf:bounds every opcode, payloads of 0, 1, 3, 125, 126, 127, 65535 and 65536 bytes of which up to the first and last three are arbitrary
//vf:opt steps=40000000
func VfFrameWrite() {
	c := &vfConn{}
	ws := &wsConn{conn: c, br: bufio.NewReader(bytes.NewReader(nil))}
	n := []int{0, 1, 3, 125, 126, 127, 65535, 65536}[nd.Pick("length", 0, 7)]
	p := make([]byte, n)
	k := n
	if k > 3 {
		k = 3
	}
	copy(p, nd.Bytes("head", k))
	copy(p[n-k:], nd.Bytes("tail", k))
	op := nd.U8("opcode")
	nd.Assume(op < 16)
	nd.Assert(ws.writeFrame(wsOpcode(op), p) == nil, "written")
	want := vfFrame(0x80|op, vfForm(n), nil, p)
	nd.Assert(len(c.out) == len(want), "one frame")
	h := len(want) - n
	nd.Assert(nd.Eq(c.out[:h], want[:h]), "final, unmasked, shortest length")
	nd.Assert(nd.Eq(c.out[h:], p), "payload unaltered")
	nd.Reach("frame")
}

// Frames from a player.
//
//vf:prop C22
//vf:bounds two frames, masked with any key or not, every opcode and reserved bits, lengths 0-6 in every form and 125-127, final or not
func VfFrameRead() {
	n := []int{0, 1, 5, 6, 125, 126, 127}[nd.Pick("length", 0, 6)]
	first := nd.U8("first")
	nd.Assume(nd.Or(n < 126, first&8 == 0))
	fin := first&0x80 != 0
	form := vfForm(n)
	if n < 7 {
		form = nd.Pick("form", 0, 2)
	}
	var mask []byte
	if nd.Bool("masked") {
		mask = nd.Bytes("mask", 4)
	}
	p := nd.Bytes("payload", n)
	in := vfFrame(first, form, mask, p)
	in = append(in, vfFrame(0x89, 0, []byte{1, 2, 3, 4}, []byte("next"))...)
	ws := &wsConn{br: bufio.NewReader(bytes.NewReader(in))}
	op, got, err := ws.readFrame()
	if !fin {
		nd.Assert(err != nil, "fragments are refused")
		nd.Reach("fragment")
		return
	}
	nd.Assert(err == nil && byte(op) == first&15, "opcode")
	nd.Assert(len(got) == n && nd.Eq(got, p), "payload unmasked")
	op, got, err = ws.readFrame()
	nd.Assert(err == nil && op == wsOpPing && string(got) == "next", "frame after frame")
	nd.Reach("frame")
}

// Frames cut short, whatever they are.
//
//vf:prop C22
//vf:bounds a frame with any first byte, 7- or 16-bit length, mask and 0 or 2 bytes, then one that claims 0, 2, 125, 126 or 65535 bytes, with up to 7 more bytes of anything
//vf:opt alloc=262144
func VfFrameCut() {
	var mask []byte
	if nd.Bool("masked") {
		mask = nd.Bytes("mask", 4)
	}
	first := nd.U8("first")
	p := nd.Bytes("payload", 2*nd.Pick("length", 0, 1))
	in := vfFrame(first, nd.Pick("form", 0, 1), mask, p)
	n := []int{0, 2, 125, 126, 65535}[nd.Pick("claim", 0, 4)]
	k := vfForm(n)
	head := vfFrame(nd.U8("second"), k, nil, make([]byte, n))[:2+2*k]
	need := n
	if nd.Bool("second masked") {
		head[1] |= 0x80
		need += 4
	}
	if m := nd.Bound(5, 7); need > m {
		need = m
	}
	rest := nd.Bytes("rest", nd.Pick("rest length", 0, need))
	in = append(append(in, head...), rest...)
	c := &vfConn{}
	ws := &wsConn{conn: c, br: bufio.NewReader(bytes.NewReader(in))}
	stop := make(chan struct{})
	go ws.servePings(stop)
	<-stop
	if first == 0x89 {
		want := append([]byte{0x8a, byte(len(p))}, p...)
		nd.Assert(len(c.out) >= len(want) && nd.Eq(c.out[:len(want)], want), "a ping is answered")
		nd.Reach("pong")
	} else if first == 0x88 {
		nd.Assert(len(c.out) == 0, "nothing after a close")
	}
	nd.Reach("over")
}

// A player that announces a giant frame.
//
//vf:prop C22
//vf:bounds every opcode and 64-bit length above 1 MB
//vf:opt alloc=262144
func VfFrameGiant() {
	nd.AllocBound(1 << 18)
	b := append([]byte{0x80 | nd.U8("opcode")&15, 0x80 | 127}, nd.Bytes("length", 8)...)
	var n uint64
	for _, x := range b[2:10] {
		n = n<<8 | uint64(x)
	}
	b = append(b, 1, 2, 3, 4, 5, 6)
	nd.Assume(n > 1<<20)
	c := &vfConn{}
	ws := &wsConn{conn: c, br: bufio.NewReader(bytes.NewReader(b))}
	_, _, err := ws.readFrame()
	nd.Assert(err != nil, "incomplete frame refused")
	nd.Reach("refused")
}

type vfWriter struct {
	c      *vfConn
	head   http.Header
	status int
	rest   []byte
}

func (w *vfWriter) Header() http.Header         { return w.head }
func (w *vfWriter) WriteHeader(n int)           { w.status = n }
func (w *vfWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w *vfWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return w.c, bufio.NewReadWriter(bufio.NewReader(bytes.NewReader(w.rest)), bufio.NewWriter(w.c)), nil
}

// The handshake.
//
//vf:prop C22
//vf:bounds every key of 24 printable characters, three spellings of the headers, each header missing or wrong, bytes already received after the request
func VfUpgrade() {
	key := nd.String("key", 24)
	for i := range key {
		nd.Assume(nd.And(key[i] > ' ', key[i] < 0x7f))
	}
	up := []string{"websocket", "WebSocket", "WEBSOCKET"}[nd.Pick("upgrade", 0, 2)]
	conn := []string{"Upgrade", "keep-alive, Upgrade", "upgrade"}[nd.Pick("connection", 0, 2)]
	r := &http.Request{Header: http.Header{}}
	missing := nd.Pick("missing", 0, 5)
	switch missing {
	case 4:
		up = "h2c"
	case 5:
		conn = "close"
	}
	if missing != 1 {
		r.Header["Upgrade"] = []string{up}
	}
	if missing != 2 {
		r.Header["Connection"] = []string{conn}
	}
	if missing != 3 {
		r.Header["Sec-Websocket-Key"] = []string{key}
	}
	w := &vfWriter{c: &vfConn{}, head: http.Header{}, rest: []byte{0x89, 0x81, 1, 2, 3, 4, 5}}
	ws, err := upgradeWebSocket(w, r)
	if missing > 0 {
		nd.Assert(err != nil && len(w.c.out) == 0, "no upgrade without the headers")
		nd.Reach("refused")
		return
	}
	nd.Assert(err == nil, "upgraded")
	h := sha1.New()
	h.Write([]byte(key))
	h.Write([]byte("258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	accept := base64.StdEncoding.EncodeToString(h.Sum(nil))
	out := w.c.out
	status := "HTTP/1.1 101"
	nd.Assert(len(out) > len(status) && string(out[:len(status)]) == status, "101")
	const field = "\r\nSec-WebSocket-Accept: "
	n := len(accept)
	at := 0
	for at < len(out) && !vfAt(out[at:], field) {
		at++
	}
	at += len(field)
	nd.Assert(at+n+2 <= len(out), "an accept header")
	nd.Assert(nd.Eq(out[at:at+n], []byte(accept)), "accept derived from the key")
	nd.Assert(out[at+n] == '\r', "nothing behind it")
	nd.Assert(string(out[len(out)-4:]) == "\r\n\r\n", "end of head")
	//what came with the request is not lost
	op, p, err := ws.readFrame()
	nd.Assert(err == nil && op == wsOpPing && len(p) == 1 && p[0] == 4, "bytes after the request")
	nd.Reach("upgraded")
}

func vfAt(b []byte, s string) bool {
	return len(b) >= len(s) && string(b[:len(s)]) == s
}

// Pings are answered while media flows, and no frame is torn.
//
//vf:prop C22
//vf:bounds two pings of any one or two bytes and any other opcode between them, a close or the end, two media frames written meanwhile, up to 2 (thorough 3) preemptions
func VfPingPong() {
	p1 := nd.Bytes("ping", nd.Pick("ping length", 1, 2))
	mask := nd.Bytes("mask", 4)
	in := vfFrame(0x89, 0, mask, p1)
	other := nd.U8("other")
	nd.Assume(nd.And(other < 16, other != 8, other != 9))
	in = append(in, vfFrame(0x80|other, 0, mask, []byte("o"))...)
	in = append(in, vfFrame(0x89, 0, mask, []byte{7})...)
	if nd.Bool("close") {
		in = append(in, vfFrame(0x88, 0, mask, nil)...)
		in = append(in, vfFrame(0x89, 0, mask, []byte{8})...)
	}
	media := nd.Bytes("media", 2)
	one := func(delay time.Duration) {
		c := &vfSlow{}
		ws := &wsConn{conn: c, br: bufio.NewReader(bytes.NewReader(in))}
		stop := make(chan struct{})
		done := make(chan struct{})
		start := make(chan struct{})
		go func() {
			<-start
			(&wsWriter{ws: ws}).Write(media)
			(&wsWriter{ws: ws}).Write(media[:1])
			close(done)
		}()
		nd.Preempt(nd.Bound(2, 3))
		close(start)
		if !nd.Symbolic() {
			time.Sleep(delay)
		}
		go ws.servePings(stop)
		<-stop
		<-done
		nd.Preempt(0)
		pongs := [][]byte{p1, {7}}
		frames := [][]byte{media, media[:1]}
		for b := c.out; len(b) > 0; {
			nd.Assert(len(b) >= 2, "whole frames")
			n := int(b[1])
			nd.Assert(len(b) >= 2+n, "whole frames")
			switch b[0] {
			case 0x8a:
				nd.Assert(len(pongs) > 0 && nd.Eq(b[2:2+n], pongs[0]), "a pong carries the ping's payload")
				pongs = pongs[1:]
			case 0x82:
				nd.Assert(len(frames) > 0 && nd.Eq(b[2:2+n], frames[0]), "media in order")
				frames = frames[1:]
			default:
				nd.Fail("only pongs and media")
			}
			b = b[2+n:]
		}
		nd.Assert(len(pongs) == 0 && len(frames) == 0, "every ping and media frame")
	}
	one(0)
	if !nd.Symbolic() {
		for d := 1; d < 24; d++ {
			one(time.Duration(d) * 700 * time.Microsecond)
		}
	}
	nd.Reach("over")
}

// vfSlow is a connection on which another goroutine may come in between
// any two writes.
type vfSlow struct {
	vfConn
	mu sync.Mutex
}

func (c *vfSlow) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !nd.Symbolic() {
		time.Sleep(2 * time.Millisecond) //whoever waits meanwhile is next
	}
	return c.vfConn.Write(b)
}
