package librtmp

import (
	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// A first message with a full header, then one with any shorter header.
//
//vf:prop C01
//vf:bounds two or three messages of 2..5 bytes, any content, on any chunk stream id in any header form, chunk sizes 1..3, header types 0 then 0..2 then 3, any 32-bit time or delta (short and extended form)
func VfChunkRead() {
	_, r, c, v := vfPublisher()
	csid, form := vfCsid("csid")
	nd.Assume(csid != 3)
	size := nd.Pick("chunk size", 1, nd.Bound(2, 3))
	vfChunkSize(c, r, size)

	t1 := nd.U32("time")
	ext1 := nd.Bool("extended")
	nd.Assume(ext1 == (t1 >= 0xffffff))
	b1 := vfBody("body1", nd.Pick("len1", 2, 3))
	vfSplit(c, csid, form, vfHead(0, t1, ext1, len(b1), 8, 1), 0, b1, size, ext1, t1)
	nd.Assert(ParseMessage(r) == nil, "first message")
	vfSame(vfNext(v), t1, b1, "first")

	f := byte(nd.Pick("type", 0, 2))
	d := nd.U32("time or delta")
	ext := nd.Bool("extended2")
	nd.Assume(ext == (d >= 0xffffff))
	n := len(b1)
	if f < 2 {
		n = nd.Pick("len2", 2, nd.Bound(3, 5))
	}
	b2 := vfBody("body2", n)
	vfSplit(c, csid, form, vfHead(f, d, ext, n, 8, 1), f, b2, size, ext, d)
	nd.Assert(ParseMessage(r) == nil, "second message")
	t2 := d
	if f > 0 {
		t2 = t1 + d
	}
	vfSame(vfNext(v), t2, b2, "second")
	nd.Reach("second")
	if f == 0 || n > 2 {
		return
	}
	b3 := vfBody("body3", n)
	var h []byte
	if ext {
		h = vfB32(d)
	}
	vfSplit(c, csid, form, h, 3, b3, size, ext, d)
	nd.Assert(ParseMessage(r) == nil, "third message")
	vfSame(vfNext(v), t2+d, b3, "third")
	nd.Assert(c.pos == len(c.in), "read to the end and not beyond")
	nd.Reach("third")
}

// Messages of different chunk streams, their chunks interleaved.
//
//vf:prop C01
//vf:bounds messages of 2 and 2..3 (thorough 2..3 both) one-byte chunks on two different chunk streams (any ids), every order of their chunks, either aborted after any chunk
func VfChunkInterleave() {
	_, r, c, v := vfPublisher()
	ids := [2]uint32{}
	forms := [2]int{}
	ids[0], forms[0] = vfCsid("csid a")
	ids[1], forms[1] = uint32(nd.Range("csid b", 4, 63)), 1
	nd.Assume(ids[0] != ids[1])
	nd.Assume(ids[0] != 3)
	vfChunkSize(c, r, 1)
	var body [2][]byte
	var t [2]uint32
	for i := range body {
		n := 2
		if i == 1 || nd.Bound(0, 1) == 1 {
			n = nd.Pick("len", 2, 3)
		}
		body[i] = vfBody("body", n)
		t[i] = uint32(nd.Range("time", 0, 0xfffffe))
	}
	var next [2]int
	aborted := -1
	var order []int
	for next[0] < len(body[0]) || next[1] < len(body[1]) {
		//what may come next: a chunk of either, or the end of either so far
		var can []int
		for i := 0; i < 2; i++ {
			if next[i] < len(body[i]) {
				can = append(can, i)
				if aborted < 0 && next[i] > 0 {
					can = append(can, 2+i)
				}
			}
		}
		k := can[nd.Pick("which", 0, len(can)-1)]
		if k >= 2 {
			//everything of one message so far is void
			k -= 2
			aborted = k
			vfSplit(c, 3, 1, vfHead(0, 0, false, 4, 2, 0), 0, vfB32(ids[k]), 1, false, 0)
			next[k] = 0
			order = append(order, 2)
			continue
		}
		f, h := byte(3), []byte(nil)
		if next[k] == 0 {
			f, h = 0, vfHead(0, t[k], false, len(body[k]), 8, 1)
		}
		c.in = append(c.in, vfBasic(f, ids[k], forms[k])...)
		c.in = append(c.in, h...)
		c.in = append(c.in, body[k][next[k]])
		next[k]++
		if next[k] == len(body[k]) {
			order = append(order, k)
		}
	}
	for _, k := range order {
		nd.Assert(ParseMessage(r) == nil, "message taken")
		if k < 2 {
			vfSame(vfNext(v), t[k], body[k], "interleaved")
		} else {
			nd.Reach("aborted")
		}
	}
	nd.Assert(c.pos == len(c.in), "read to the end and not beyond")
	nd.Reach("both")
}

// What one chunk is written as.
//
//vf:prop C01
//vf:bounds one chunk of type 0 with 0..3 bytes on any sendable chunk stream id (3..65599), any time, any message type
func VfChunkWrite() {
	srv := NewServer(":0", "live")
	c := &vfConn{}
	r := NewRTMP(c, "peer", srv)
	csid := nd.U32("csid")
	nd.Assume(nd.And(csid >= 3, csid <= 65599))
	body := nd.Bytes("body", nd.Pick("len", 0, 3))
	t, typ := nd.U32("time"), nd.U8("type")
	nd.Assert(NewChunk(MessageType(typ), uint32(len(body)), t, FMT0, csid, body).Send(r) == nil, "sent")
	id, ty, time, got, rest := vfRead(c.out, 128)
	nd.Assert(id == csid && ty == typ && time == t && nd.Eq(got, body) && len(rest) == 0, "same chunk")
	nd.Reach("sent")
}

// What a message is written as, at every boundary of the chunk size.
//
//vf:prop C01
//vf:bounds audio, video and data messages of 1, 126..131, 255..258 and 300 bytes, any time, chunk size 128 (before connect) and 4096 (after) with 4095..4098 bytes
func VfMessageWrite() {
	srv := NewServer(":0", "live")
	var c *vfConn
	var r *RTMP
	var n, size int
	if nd.Bool("connected") {
		r, c = vfSession(srv, "live")
		//the peer knows the size from the Set Chunk Size before the result
		size = 128
		for b := c.out; len(b) > 0; {
			var typ byte
			var body []byte
			_, typ, _, body, b = vfRead(b, size)
			if typ == 1 {
				size = int(body[0])<<24 | int(body[1])<<16 | int(body[2])<<8 | int(body[3])
				nd.Assert(size >= 128 && size <= 65536, "chunk size sensible")
				nd.Reach("chunk size announced")
			}
		}
		c.out = nil
		n = size - 3 + nd.Pick("around", 0, 3)
	} else {
		c = &vfConn{}
		r = NewRTMP(c, "peer", srv)
		size = 128
		n = []int{1, 126, 127, 128, 129, 130, 131, 255, 256, 257, 258, 300}[nd.Pick("len", 0, 11)]
	}
	data := make([]byte, n-1)
	for i := range data {
		data[i] = byte(i*7 + i>>8)
	}
	for i := 0; i < len(data); i += 61 {
		data[i] = nd.U8("byte")
	}
	t := nd.U32("time")
	mb := MessageBase{rtmp: r, messageTime: t}
	var typ byte
	var want []byte
	switch nd.Pick("kind", 0, 1) {
	case 0:
		tag := &libflv.AudioTag{SoundFormat: 2, SoundRate: 3, SoundSize: 1, SoundType: 1, SoundData: data}
		nd.Assert(NewAudioMessage(mb, tag).Send() == nil, "sent")
		typ, want = 8, append([]byte{0x2f}, data...)
	case 1:
		if n < 6 {
			return
		}
		tag := &libflv.VideoTag{FrameType: 2, CodecID: 7, AVCPacketType: 1, Cts: 5, VideoData: data[4:]}
		nd.Assert(NewVideoMessage(mb, tag).Send() == nil, "sent")
		typ, want = 9, append([]byte{0x27, 1, 0, 0, 5}, data[4:]...)
	}
	_, ty, time, got, rest := vfRead(c.out, size)
	nd.Assert(ty == typ && time == t && nd.Eq(got, want) && len(rest) == 0, "same message")
	nd.Reach("sent")
}
