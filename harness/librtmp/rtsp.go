package librtmp

import (
	"bytes"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfRTSP is one RTSP connection of a client.
type vfRTSP struct {
	*vfWire
	cseq int
	pos  int //of what was answered so far
}

func vfRTSPDial(srv *server) *vfRTSP {
	c := &vfRTSP{vfWire: &vfWire{more: make(chan []byte, 16), done: make(chan struct{})}}
	s := newRTSPSession(c.vfWire, srv)
	go func() {
		s.run()
		close(c.done)
	}()
	return c
}

// ask sends a request and takes its answer apart.
func (c *vfRTSP) ask(method, url, headers, body string) (code string, head, text string) {
	c.cseq++
	c.say(vfRTSPText(method, url, c.cseq, headers, body))
	return c.answer()
}

func (c *vfRTSP) answer() (code string, head, text string) {
	out := c.out[c.pos:]
	end := bytes.Index(out, []byte("\r\n\r\n"))
	nd.Assert(end >= 0 && bytes.HasPrefix(out, []byte("RTSP/1.0 ")), "answered")
	head = string(out[:end+2])
	nd.Assert(vfHeader(head, "CSeq") == strconv.Itoa(c.cseq), "the answer is to the request")
	c.pos += end + 4
	n := 0
	if l := vfHeader(head, "Content-Length"); l != "" {
		n, _ = strconv.Atoi(l)
	}
	nd.Assert(len(c.out)-c.pos >= n, "body complete")
	text = string(c.out[c.pos : c.pos+n])
	c.pos += n
	return head[9:12], head, text
}

func vfHeader(head, name string) string {
	for _, l := range strings.Split(head, "\r\n") {
		i := strings.IndexByte(l, ':')
		if i > 0 && strings.EqualFold(l[:i], name) {
			return strings.TrimSpace(l[i+1:])
		}
	}
	return ""
}

// vfHeaders checks what a viewer gets first.
func vfHeaders(tags []libflv.Tag, video bool, audio int) []libflv.Tag {
	if video {
		nd.Assert(len(tags) > 0, "video header")
		t, ok := tags[0].(*libflv.VideoTag)
		nd.Assert(ok && nd.Eq(t.Marshal(), append([]byte{0x17, 0, 0, 0, 0}, vfDCR...)), "video header of the description")
		tags = tags[1:]
	}
	if audio > 0 {
		nd.Assert(len(tags) > 0, "audio header")
		t, ok := tags[0].(*libflv.AudioTag)
		want := []byte{0xaf, 0, 0x12, 0x10}
		if audio == 2 {
			want = []byte{0xae, 0, 0x11, 0x88}
		}
		nd.Assert(ok && nd.Eq(t.Marshal(), want), "audio header of the description")
		tags = tags[1:]
	}
	return tags
}

// A publisher over RTSP: what it sends is what viewers see.
//
//vf:prop C19
//vf:bounds H.264 with AAC (44.1 kHz stereo or 48 kHz mono), either alone or both; three media packets, each a slice of any content and type with or without a unit before it, or one or two AAC frames, at any RTP time; frames on other channels and requests between them; interleaved
func VfRTSPPublish() {
	srv := NewServer(":0", "live")
	c := vfRTSPDial(srv)
	video, audio := true, 0
	switch nd.Pick("tracks", 0, 3) {
	case 0:
		audio = 1
	case 1:
		audio = 2
	case 2:
		video, audio = false, 1
	}
	sdp := vfSDPHead
	if video {
		sdp += vfSDPVideo
	}
	rate := uint64(44100)
	if audio == 1 {
		sdp += vfSDPAudio
	} else if audio == 2 {
		sdp += vfSDPMono
		rate = 48000
	}
	code, _, _ := c.ask("OPTIONS", vfURL, "", "")
	nd.Assert(code == "200", "OPTIONS")
	code, _, _ = c.ask("ANNOUNCE", vfURL, "Content-Type: application/sdp\r\n", sdp)
	nd.Assert(code == "200", "ANNOUNCE")
	room := srv.apps["live"].Load("x")
	nd.Assert(room != nil, "the stream exists")
	seen := vfWatch(room)
	vch, ach := -1, -1
	session := ""
	setup := func(track, ch int) {
		t := "RTP/AVP/TCP;unicast;interleaved=" + strconv.Itoa(ch) + "-" + strconv.Itoa(ch+1)
		code, head, _ := c.ask("SETUP", vfURL+"/streamid="+strconv.Itoa(track), "Transport: "+t+";mode=record\r\n", "")
		nd.Assert(code == "200", "SETUP")
		nd.Assert(strings.Contains(vfHeader(head, "Transport"), "interleaved="+strconv.Itoa(ch)+"-"+strconv.Itoa(ch+1)), "the channels asked for")
		id := vfHeader(head, "Session")
		if i := strings.Index(id, ";"); i >= 0 {
			id = id[:i]
		}
		nd.Assert(id != "" && (session == "" || id == session), "one session")
		session = id
	}
	if nd.Bool("audio first") {
		ach, vch = 0, 2
	} else {
		vch, ach = 0, 2
	}
	if audio > 0 && ach == 0 {
		setup(1, ach)
	}
	if video {
		setup(0, vch)
	}
	if audio > 0 && ach == 2 {
		setup(1, ach)
	}
	code, _, _ = c.ask("RECORD", vfURL, "Session: "+session+"\r\n", "")
	nd.Assert(code == "200", "RECORD")
	first := true
	seq := uint16(nd.Pick("first number", 0, 1)) * 0xfffe
	for i := 0; i < nd.Bound(2, 3); i++ {
		ts := nd.U32("rtp time")
		var want [][]byte
		var times []uint32
		key := false
		if video && (audio == 0 || nd.Bool("video")) {
			nal := nd.Bytes("slice", 3)
			nd.Assume(nd.Or(nal[0]&31 == 1, nal[0]&31 == 5))
			key = nal[0]&31 == 5
			body := append([]byte{0, 0, 0, 3}, nal...)
			var msg []byte
			if nd.Bool("two units") {
				pre := nd.Bytes("unit", 2)
				nd.Assume(nd.Or(pre[0]&31 == 6, pre[0]&31 == 5, pre[0]&31 == 1))
				key = nd.Or(key, pre[0]&31 == 5)
				msg = vfDollar(vch, vfRTP(false, 96, seq, ts, pre))
				seq++
				body = append(append([]byte{0, 0, 0, 2}, pre...), body...)
			}
			msg = append(msg, vfDollar(vch, vfRTP(true, 96, seq, ts, nal))...)
			seq++
			c.say(msg)
			lead := byte(0x27)
			if key {
				lead = 0x17
			}
			want = append(want, append([]byte{lead, 1, 0, 0, 0}, body...))
			times = append(times, ts/90)
		} else {
			n := nd.Pick("frames", 1, 2)
			var frames [][]byte
			p := []byte{0, byte(16 * n)}
			for k := 0; k < n; k++ {
				frames = append(frames, nd.Bytes("frame", 1+k))
				p = append(p, 0, byte(1+k)<<3)
			}
			nd.Assume(ts <= 0xffffffff-1024)
			lead := byte(0xaf)
			if audio == 2 {
				lead = 0xae
			}
			for k, f := range frames {
				p = append(p, f...)
				want = append(want, append([]byte{lead, 1}, f...))
				times = append(times, uint32((uint64(ts)+1024*uint64(k))*1000/rate))
			}
			c.say(vfDollar(ach, vfRTP(true, 97, uint16(i), ts, p)))
		}
		tags, over := seen.take()
		nd.Assert(!over, "alive")
		if first {
			tags = vfHeaders(tags, video, audio)
			first = false
		}
		nd.Assert(len(tags) == len(want), "every unit and nothing else")
		for k, t := range tags {
			nd.Assert(nd.Eq(t.Marshal(), want[k]), "unaltered, with its kind")
			nd.Assert(t.GetTagInfo().TimeStamp == times[k], "time in milliseconds")
		}
		switch nd.Pick("between", 0, 2) {
		case 1:
			//sender reports
			c.say(vfDollar(vch+1, nd.Bytes("rtcp", 4)))
		case 2:
			c.pos = len(c.out)
			code, _, _ := c.ask("GET_PARAMETER", vfURL, "Session: "+session+"\r\n", "")
			nd.Assert(code == "200", "kept alive")
		}
	}
	if nd.Bool("teardown") {
		c.pos = len(c.out)
		code, _, _ := c.ask("TEARDOWN", vfURL, "Session: "+session+"\r\n", "")
		nd.Assert(code == "200", "TEARDOWN")
		<-c.done
	} else {
		c.hangUp()
	}
	tags, over := seen.take()
	nd.Assert(over && len(tags) == 0, "viewers learn the end")
	d := vfRTSPDial(srv)
	code, _, _ = d.ask("ANNOUNCE", vfURL, "", sdp)
	nd.Assert(code == "200", "the name is free again")
	nd.Reach("end")
}

// vfRTSPStream publishes live/x over RTMP with headers.
func vfRTSPStream(audio bool) (*server, *RTMP, *vfConn) {
	srv := NewServer(":0", "live")
	r, c := vfSession(srv, "live")
	nd.Assert(c.do(r, "publish", "x") == nil, "publishing")
	c.in = append(c.in, vfMsg(9, 0, append([]byte{0x17, 0, 0, 0, 0}, vfDCR...), 128)...)
	n := 1
	if audio {
		c.in = append(c.in, vfMsg(8, 0, []byte{0xaf, 0, 0x12, 0x10}, 128)...)
		n++
	}
	for i := 0; i < n; i++ {
		nd.Assert(ParseMessage(r) == nil, "header taken")
	}
	return srv, r, c
}

type vfPacket struct {
	ch      int
	marker  bool
	pt      byte
	seq     uint16
	ts      uint32
	ssrc    uint32
	payload []byte
}

func vfParseRTP(ch int, b []byte) vfPacket {
	nd.Assert(len(b) >= 12 && b[0] == 0x80, "RTP version 2")
	u := func(i int) uint32 {
		return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
	}
	return vfPacket{ch, b[1] >= 0x80, b[1] & 0x7f, uint16(b[2])<<8 | uint16(b[3]), u(4), u(8), b[12:]}
}

// vfWant is a packet that is due.
type vfWant struct {
	audio   bool
	marker  bool
	ts      uint32
	payload []byte
	header  bool //no frame: when it is due is open
}

// vfTime is any time, made of what is on the wire.
func vfTime() uint32 {
	if nd.Bool("long time") {
		t := nd.U32("time")
		nd.Assume(t >= 0xffffff)
		return t
	}
	b := nd.Bytes("time", 3)
	t := uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
	nd.Assume(t != 0xffffff)
	return t
}

func vfSendFrame(r *RTMP, c *vfConn, audio bool, i int) (key bool, want []vfWant) {
	if audio {
		t := vfTime()
		b := nd.Bytes("frame", 2+i)
		nd.Assume(b[0] != 0xff)
		c.in = append(c.in, vfSplitMsg(8, t, append([]byte{0xaf, 1}, b...), 128)...)
		nd.Assert(ParseMessage(r) == nil, "audio taken")
		n := len(b)
		return false, []vfWant{{true, true, uint32(uint64(t) * 44100 / 1000), append([]byte{0, 16, byte(n >> 5), byte(n << 3)}, b...), false}}
	}
	t := vfTime()
	cts := nd.Bytes("cts", 3)
	kind := byte(0x27)
	key = nd.Bool("key")
	if key {
		kind = 0x17
	}
	off := uint32(int32(uint32(cts[0])<<24|uint32(cts[1])<<16|uint32(cts[2])<<8) >> 8)
	b := append([]byte{kind, 1}, cts...)
	n := nd.Pick("units", 1, 2)
	for k := 0; k < n; k++ {
		u := nd.Bytes("unit", 3-k)
		b = append(b, 0, 0, 0, byte(3-k))
		b = append(b, u...)
		want = append(want, vfWant{false, k == n-1, (t + off) * 90, u, false})
	}
	c.in = append(c.in, vfSplitMsg(9, t, b, 128)...)
	nd.Assert(ParseMessage(r) == nil, "video taken")
	return key, want
}

// vfDue compares what arrived with what is due.
type vfDue struct {
	ssrc [2]uint32
	seq  [2]uint16
	any  [2]bool
}

func (d *vfDue) check(got []vfPacket, want []vfWant, vch, ach int) {
	nd.Assert(len(got) == len(want), "every unit once")
	for i, p := range got {
		w := want[i]
		k, ch, pt := 0, vch, byte(96)
		if w.audio {
			k, ch, pt = 1, ach, 97
		}
		nd.Assert(p.ch == ch && p.pt == pt, "on the channel of its track")
		nd.Assert(nd.Eq(p.payload, w.payload), "unaltered")
		if !w.header {
			nd.Assert(p.marker == w.marker, "the marker ends an access unit")
			nd.Assert(p.ts == w.ts, "presentation time in the track's clock")
		}
		nd.Assert(!d.any[k] || d.seq[k]+1 == p.seq && d.ssrc[k] == p.ssrc, "numbered in order")
		d.any[k], d.seq[k], d.ssrc[k] = true, p.seq, p.ssrc
	}
}

// A player over RTSP: it gets what is published.
//
//vf:prop C19
//vf:bounds an AVC stream with or without AAC, two (thorough three) frames of one or two units of any content, times and composition times, of which up to two come before PLAY; interleaved on any channels, reports of the player between them
func VfRTSPPlay() {
	audio := nd.Bool("with audio")
	srv, r, rc := vfRTSPStream(audio)
	total := nd.Bound(2, 3)
	before := nd.Pick("before", 0, 2)
	var want []vfWant
	frames := func(i int) []vfWant {
		key, w := vfSendFrame(r, rc, audio && nd.Bool("audio"), i)
		if key {
			want = nil //a joiner starts here
		}
		return w
	}
	for i := 0; i < before; i++ {
		w := frames(i)
		want = append(want, w...)
	}
	c := vfRTSPDial(srv)
	code, head, sdp := c.ask("DESCRIBE", vfURL, "Accept: application/sdp\r\n", "")
	nd.Assert(code == "200" && vfHeader(head, "Content-Type") == "application/sdp", "described")
	nd.Assert(strings.Contains(sdp, "m=video 0 RTP/AVP 96\r\n") && strings.Contains(sdp, "m=audio 0 RTP/AVP 97\r\n") == audio, "the tracks there are")
	nd.Assert(strings.Contains(sdp, "Z0LAHg==,aM4="), "with their parameter sets")
	ach := 254
	setup := func(track, ch int) {
		t := "RTP/AVP/TCP;unicast;interleaved=" + strconv.Itoa(ch) + "-" + strconv.Itoa(ch+1)
		code, _, _ := c.ask("SETUP", vfURL+"/trackID="+strconv.Itoa(track), "Transport: "+t+"\r\n", "")
		nd.Assert(code == "200", "SETUP")
	}
	vch := nd.Pick("video channel", 0, 1) * 4
	setup(0, vch)
	if audio {
		setup(1, ach)
	}
	code, _, _ = c.ask("PLAY", vfURL, "Range: npt=0.000-\r\n", "")
	nd.Assert(code == "200", "PLAY")
	want = append([]vfWant{{header: true, payload: vfDCR[8:12]}, {header: true, payload: vfDCR[15:17]}}, want...)
	due := &vfDue{}
	take := func() (got []vfPacket) {
		nd.Quiesce()
		for b := c.out[c.pos:]; len(b) > 0; b = c.out[c.pos:] {
			nd.Assert(len(b) >= 4 && b[0] == '$', "framed")
			n := int(b[2])<<8 | int(b[3])
			nd.Assert(len(b) >= 4+n, "complete")
			got = append(got, vfParseRTP(int(b[1]), b[4:4+n]))
			c.pos += 4 + n
		}
		return got
	}
	due.check(take(), want, vch, ach)
	for i := before; i < total; i++ {
		if nd.Bool("report") {
			c.say(vfDollar(vch+1, nd.Bytes("rtcp", 3)))
		}
		w := frames(i)
		due.check(take(), w, vch, ach)
	}
	if nd.Bool("teardown") {
		code, _, _ := c.ask("TEARDOWN", vfURL, "", "")
		nd.Assert(code == "200", "TEARDOWN")
		<-c.done
	}
	nd.Reach("end")
}

// Units of more than a packet, and a player that asks twice.
//
//vf:prop C19
//vf:opt steps=40000000
//vf:bounds one key picture of two units of 4, 1399 to 1402, 2797 and 2900 bytes, first and last two bytes arbitrary, at any time, before or after one or two PLAY requests; interleaved channels 0 or 254
func VfRTSPPlayLong() {
	_, r, rc := vfRTSPStream(false)
	srv := r.server
	sizes := [7]int{4, 1399, 1400, 1401, 1402, 2797, 2900}
	b := append([]byte{0x17, 1}, 0, 0, 0)
	var units [][]byte
	for i := 0; i < 2; i++ {
		n := sizes[nd.Pick("size", 0, 6)]
		u := make([]byte, n)
		for k := range u {
			u[k] = byte(k*5 + k>>8)
		}
		u[0] = 0x65
		copy(u[1:], nd.Bytes("first", 1))
		copy(u[n-2:], nd.Bytes("last", 2))
		units = append(units, u)
		b = append(b, 0, 0, byte(n>>8), byte(n))
		b = append(b, u...)
	}
	t := vfTime()
	picture := func() {
		rc.in = append(rc.in, vfSplitMsg(9, t, b, 128)...)
		nd.Assert(ParseMessage(r) == nil, "video taken")
		nd.Quiesce()
	}
	before := nd.Bool("before")
	if before {
		picture()
	}
	c := vfRTSPDial(srv)
	code, _, _ := c.ask("DESCRIBE", vfURL, "", "")
	nd.Assert(code == "200", "described")
	ch := nd.Pick("channel", 0, 1) * 254
	code, _, _ = c.ask("SETUP", vfURL+"/trackID=0", "Transport: RTP/AVP/TCP;unicast;interleaved="+strconv.Itoa(ch)+"-"+strconv.Itoa(ch+1)+"\r\n", "")
	nd.Assert(code == "200", "SETUP")
	code, _, _ = c.ask("PLAY", vfURL, "", "")
	nd.Assert(code == "200", "PLAY")
	var got []vfPacket
	take := func() {
		nd.Quiesce()
		for b := c.out[c.pos:]; len(b) > 0 && b[0] == '$'; b = c.out[c.pos:] {
			n := int(b[2])<<8 | int(b[3])
			nd.Assert(len(b) >= 4+n, "complete")
			got = append(got, vfParseRTP(int(b[1]), b[4:4+n]))
			c.pos += 4 + n
		}
	}
	take()
	if nd.Bool("again") {
		code, _, _ = c.ask("PLAY", vfURL, "", "")
		nd.Assert(len(code) == 3, "answered")
		take()
	}
	if !before {
		picture()
		take()
	}
	//the parameter sets, then the units
	nd.Assert(len(got) >= 2 && nd.Eq(got[0].payload, vfDCR[8:12]) && nd.Eq(got[1].payload, vfDCR[15:17]), "parameter sets first")
	k, whole := 0, []byte(nil)
	open := false
	for i, p := range got {
		nd.Assert(p.ch == ch && p.pt == 96 && (i == 0 || p.seq == got[i-1].seq+1 && p.ssrc == got[0].ssrc), "one numbering, on the channel agreed")
		nd.Assert(len(p.payload) <= 1460, "fits a packet")
		if i < 2 {
			continue
		}
		nd.Assert(k < 2, "every unit once")
		nd.Assert(p.ts == t*90, "time")
		f := p.payload
		done := true
		if f[0]&31 == 28 {
			nd.Assert(len(f) > 2 && (f[1]&0x80 != 0) == !open && f[1]&0xc0 != 0xc0, "fragments begin and end")
			if !open {
				whole = []byte{f[0]&0xe0 | f[1]&31}
			}
			whole = append(whole, f[2:]...)
			open = f[1]&0x40 == 0
			done = !open
		} else {
			nd.Assert(!open, "a fragmented unit is finished")
			whole = f
		}
		nd.Assert(p.marker == (done && k == 1), "the marker ends the access unit")
		if done {
			nd.Assert(len(whole) == len(units[k]) && nd.Eq(whole, units[k]), "unaltered")
			k++
		}
	}
	nd.Assert(k == 2, "every unit")
	nd.Reach("end")
}

// The same over UDP.
//
//vf:prop C19
//vf:bounds an AVC stream with AAC, one frame of each kind with any content and time, each track over UDP or interleaved
func VfRTSPPlayUDP() {
	srv, r, rc := vfRTSPStream(true)
	c := vfRTSPDial(srv)
	code, _, _ := c.ask("DESCRIBE", vfURL, "", "")
	nd.Assert(code == "200", "described")
	var sock [2]*net.UDPConn
	var port [2]int
	for k := 0; k < 2; k++ {
		if nd.Bool("udp") {
			s, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
			nd.Assert(err == nil, "socket")
			sock[k] = s
			defer s.Close()
			_, me, _ := net.SplitHostPort(s.LocalAddr().String())
			my, _ := strconv.Atoi(me)
			code, head, _ := c.ask("SETUP", vfURL+"/trackID="+strconv.Itoa(k), "Transport: RTP/AVP;unicast;client_port="+me+"-"+strconv.Itoa(my+1)+"\r\n", "")
			nd.Assert(code == "200", "SETUP")
			t := vfHeader(head, "Transport")
			i := strings.Index(t, "server_port=")
			nd.Assert(i >= 0, "the server's port")
			sp := t[i+len("server_port="):]
			port[k], _ = strconv.Atoi(sp[:strings.Index(sp, "-")])
		} else {
			code, _, _ := c.ask("SETUP", vfURL+"/trackID="+strconv.Itoa(k), "Transport: RTP/AVP/TCP;unicast;interleaved="+strconv.Itoa(2*k)+"-"+strconv.Itoa(2*k+1)+"\r\n", "")
			nd.Assert(code == "200", "SETUP")
		}
	}
	code, _, _ = c.ask("PLAY", vfURL, "", "")
	nd.Assert(code == "200", "PLAY")
	_, vw := vfSendFrame(r, rc, false, 0)
	_, aw := vfSendFrame(r, rc, true, 0)
	vw = append([]vfWant{{header: true, payload: vfDCR[8:12]}, {header: true, payload: vfDCR[15:17]}}, vw...)
	nd.Quiesce()
	var got [2][]vfPacket
	for b := c.out[c.pos:]; len(b) > 0; {
		nd.Assert(len(b) >= 4 && b[0] == '$', "framed")
		n := int(b[2])<<8 | int(b[3])
		nd.Assert(len(b) >= 4+n && b[1]&1 == 0 && b[1] < 4 && sock[b[1]/2] == nil, "on a channel that was set up")
		got[b[1]/2] = append(got[b[1]/2], vfParseRTP(int(b[1]), b[4:4+n]))
		b = b[4+n:]
	}
	for k := range sock {
		if sock[k] == nil {
			continue
		}
		buf := make([]byte, 1500)
		for {
			sock[k].SetReadDeadline(time.Now().Add(100 * time.Millisecond))
			n, from, err := sock[k].ReadFromUDP(buf)
			if err != nil {
				break
			}
			nd.Assert(from.Port == port[k], "from the port that was announced")
			got[k] = append(got[k], vfParseRTP(2*k, append([]byte(nil), buf[:n]...)))
		}
	}
	due := &vfDue{}
	due.check(got[0], vw, 0, 2)
	due.check(got[1], aw, 0, 2)
	c.hangUp()
	for k := range sock {
		if sock[k] != nil {
			s, err := net.ListenUDP("udp", &net.UDPAddr{Port: port[k]})
			nd.Assert(err == nil, "the port is free again")
			s.Close()
			nd.Reach("udp")
		}
	}
	nd.Reach("end")
}

// Who may publish, over both protocols.
//
//vf:prop C19
//vf:bounds one RTMP and two RTSP connections; three (thorough four) steps, each an announcement, an RTMP publish, a frame or a hang-up, of names of one letter that may or may not be equal
func VfRTSPOwner() {
	srv := NewServer(":0", "live")
	type pub struct {
		rtsp *vfRTSP
		rtmp *RTMP
		rc   *vfConn
		name string
		n    int //frames sent
		seen *vfSeen
		gone bool
	}
	var all [3]*pub
	for i := range all {
		all[i] = &pub{}
	}
	owner := func(name string) *pub {
		for _, p := range all {
			if p.name == name && !p.gone {
				return p
			}
		}
		return nil
	}
	frame := func(p *pub) {
		if p.rtsp == nil {
			p.rc.in = append(p.rc.in, vfMsg(8, 0, []byte{0x2f, 1, byte(p.n)}, 128)...)
			nd.Assert(ParseMessage(p.rtmp) == nil, "audio taken")
		} else {
			p.rtsp.say(vfDollar(0, vfRTP(true, 97, uint16(p.n), 0, []byte{0, 16, 0, 8, byte(p.n)})))
		}
		p.n++
		for _, q := range all {
			if q.seen == nil {
				continue
			}
			tags, over := q.seen.take()
			media := 0
			for _, t := range tags {
				if a, ok := t.(*libflv.AudioTag); ok && !(a.SoundFormat == libflv.FLV_AUDIO_AAC && a.AACPacketType == libflv.AAC_SEQUENCE_HEADER) {
					media++
				}
			}
			nd.Assert(!over, "alive while its publisher is")
			nd.Assert(media == 1 && q == p || media == 0 && q != p, "a frame reaches the viewers of its own stream")
		}
	}
	for i := 0; i < nd.Bound(3, 4); i++ {
		k := nd.Pick("who", 0, 2)
		p := all[k]
		if p.gone {
			continue
		}
		act := 0
		if i > 0 {
			act = nd.Pick("what", 0, 2)
		}
		switch act {
		case 0:
			name := "x"
			if nd.Bool("other name") {
				name = "y"
			}
			was := owner(name)
			ok := false
			if k == 0 {
				if p.rtmp == nil {
					p.rtmp, p.rc = vfSession(srv, "live")
				}
				if p.name != "" {
					continue //renewed publications are another property's
				}
				p.rc.out = nil
				_ = p.rc.do(p.rtmp, "publish", name)
				ok = vfStatus(p.rc.out) == "NetStream.Publish.Start"
				nd.Assert(ok || vfStatus(p.rc.out) == "NetStream.Publish.BadName", "answered")
				if !ok {
					p.gone = true
				}
			} else {
				if p.rtsp == nil {
					p.rtsp = vfRTSPDial(srv)
				}
				p.rtsp.pos = len(p.rtsp.out)
				code, _, _ := p.rtsp.ask("ANNOUNCE", "rtsp://h/live/"+name, "", vfSDPHead+vfSDPAudio)
				ok = code == "200"
				if p.name != "" {
					nd.Assert(!ok, "one announcement a session")
					continue
				}
			}
			nd.Assert(ok == (was == nil), "a name is given to one publisher, and to one who asks when it is free")
			if !ok {
				nd.Reach("refused")
				continue
			}
			p.name = name
			room := srv.apps["live"].Load(name)
			nd.Assert(room != nil, "the stream exists")
			p.seen = vfWatch(room)
			if k == 1 {
				other := "x"
				if name == "x" {
					other = "y"
				}
				before := srv.apps["live"].Load(other)
				code, _, _ := p.rtsp.ask("ANNOUNCE", "rtsp://h/live/"+other, "", vfSDPHead+vfSDPAudio)
				nd.Assert(code != "200" && srv.apps["live"].Load(other) == before, "one announcement a session, recording or not")
			}
			if k != 0 {
				code, _, _ := p.rtsp.ask("SETUP", "rtsp://h/live/"+name+"/streamid=1", "Transport: RTP/AVP/TCP;unicast;interleaved=0-1\r\n", "")
				nd.Assert(code == "200", "SETUP")
				code, _, _ = p.rtsp.ask("RECORD", "rtsp://h/live/"+name, "", "")
				nd.Assert(code == "200", "RECORD")
			}
		case 1:
			if p.name != "" {
				frame(p)
			}
		case 2:
			if p.rtsp != nil {
				p.rtsp.hangUp()
			} else if p.rtmp != nil {
				p.rtmp.cleanup()
			}
			p.gone = true
			if p.seen != nil {
				_, over := p.seen.take()
				nd.Assert(over, "viewers learn the end")
				p.seen = nil
			}
		}
	}
	nd.Reach("end")
}

// Requests that make no sense where they come.
//
//vf:prop C19
//vf:bounds one or two requests of 12 kinds in any state of a fresh, described or announced session, with three spellings of addresses
func VfRTSPRefusals() {
	srv, r, rc := vfRTSPStream(false)
	c := vfRTSPDial(srv)
	state := nd.Pick("state", 0, 2)
	switch state {
	case 1:
		code, _, _ := c.ask("DESCRIBE", vfURL, "", "")
		nd.Assert(code == "200", "described")
	case 2:
		code, _, _ := c.ask("ANNOUNCE", "rtsp://h/live/z", "", vfSDPHead+vfSDPVideo)
		nd.Assert(code == "200", "announced")
	}
	for i := 0; i < 2; i++ {
		refused := true
		var code string
		tcp := "Transport: RTP/AVP/TCP;unicast;interleaved="
		track := vfURL + "/trackID=0"
		if state == 2 {
			track = "rtsp://h/live/z/streamid=0"
		}
		switch nd.Pick("request", 0, 11) {
		case 0:
			code, _, _ = c.ask("JUMP", vfURL, "", "")
		case 1:
			code, _, _ = c.ask("DESCRIBE", "rtsp://host/other/x", "", "")
		case 2:
			code, _, _ = c.ask("DESCRIBE", "rtsp://host/live/other", "", "")
		case 3:
			code, _, _ = c.ask("DESCRIBE", []string{"rtsp://host", "rtsp://host/live", "*"}[nd.Pick("address", 0, 2)], "", "")
		case 4:
			code, _, _ = c.ask("SETUP", track, "Transport: RAW/RAW/UDP\r\n", "")
		case 5:
			code, _, _ = c.ask("SETUP", track, tcp+[]string{"256-257", "-1-0", "x-y", "0-z"}[nd.Pick("channel", 0, 3)]+"\r\n", "")
		case 6:
			code, _, _ = c.ask("SETUP", vfURL+"/trackID=7", tcp+"0-1\r\n", "")
		case 7:
			code, _, _ = c.ask("SETUP", track, "", "")
		case 8:
			if state != 0 {
				return
			}
			code, _, _ = c.ask("PLAY", vfURL, "", "")
		case 9:
			if state == 2 {
				return
			}
			code, _, _ = c.ask("RECORD", vfURL, "", "")
		case 10:
			code, _, _ = c.ask("ANNOUNCE", "rtsp://host/live/w", "", "v=0\r\n")
		case 11:
			//spellings of the address
			refused = false
			u := []string{vfURL + "/", "/live/x", "rtsp://u:p@[::1]/live/x?token=1"}[nd.Pick("address", 0, 2)]
			if state == 2 {
				return
			}
			code, _, _ = c.ask("DESCRIBE", u, "", "")
			state = 1
		}
		nd.Assert(refused == (code[0] != '2'), "what cannot be done is refused, what can be is done")
	}
	//the session goes on
	code, _, _ := c.ask("OPTIONS", "*", "", "")
	nd.Assert(code == "200", "the session goes on")
	a := srv.apps["live"]
	nd.Assert(a.Load("w") == nil && a.Load("other") == nil, "nothing is published by a refused request")
	v := vfWatch(a.Load("x"))
	_, w := vfSendFrame(r, rc, false, 0)
	tags, over := v.take()
	nd.Assert(!over && len(tags) == 2 && len(w) > 0, "other streams go on")
	nd.Reach("end")
}

// vfAny is a few bytes; a frame among them claims little.
func vfAny() []byte {
	b := nd.Bytes("bytes", nd.Pick("length", 1, nd.Bound(5, 7)))
	if len(b) >= 4 {
		nd.Assume(nd.Or(b[0] != '$', nd.And(b[2] == 0, b[3] < 4)))
	}
	return b
}

// Anything at all.
//
//vf:prop C19
//vf:bounds up to 5 (thorough 7) bytes of anything to a fresh or a recording session; RTP packets of 0..16 (thorough 18) bytes of anything on either track, then proper frames
func VfRTSPHostile() {
	srv := NewServer(":0", "live")
	c := vfRTSPDial(srv)
	kind := nd.Pick("kind", 0, 3)
	if kind == 0 {
		c.say(vfAny())
		c.hangUp()
		nd.Reach("fresh")
		return
	}
	code, _, _ := c.ask("ANNOUNCE", vfURL, "", vfSDPHead+vfSDPVideo+vfSDPAudio)
	nd.Assert(code == "200", "ANNOUNCE")
	seen := vfWatch(srv.apps["live"].Load("x"))
	for k := 0; k < 2; k++ {
		code, _, _ = c.ask("SETUP", vfURL+"/streamid="+strconv.Itoa(k), "Transport: RTP/AVP/TCP;unicast;interleaved="+strconv.Itoa(2*k)+"-"+strconv.Itoa(2*k+1)+"\r\n", "")
		nd.Assert(code == "200", "SETUP")
	}
	code, _, _ = c.ask("RECORD", vfURL, "", "")
	nd.Assert(code == "200", "RECORD")
	switch kind {
	case 1:
		c.say(vfAny())
		c.hangUp()
		_, over := seen.take()
		nd.Assert(over, "the stream ends with the session")
		nd.Reach("recording")
	case 2:
		c.say(vfDollar(2*nd.Pick("track", 0, 1), nd.Bytes("packet", nd.Pick("length", 0, nd.Bound(16, 18)))))
		seen.take()
		//a complete access unit, whatever was before it
		c.say(vfDollar(0, vfRTP(true, 96, nd.U16("number"), 90, []byte{0x65, 1})))
		seen.take()
		c.say(append(vfDollar(0, vfRTP(true, 96, 7, 900, []byte{0x65, 1})), vfDollar(0, vfRTP(true, 96, 8, 990, []byte{0x65, 2}))...))
		tags, over := seen.take()
		nd.Assert(!over && len(tags) > 0, "the stream goes on")
		nd.Assert(nd.Eq(tags[len(tags)-1].Marshal(), []byte{0x17, 1, 0, 0, 0, 0, 0, 0, 2, 0x65, 2}), "with whole frames")
		nd.Reach("packet")
	case 3:
		c.say(vfDollar(2, vfRTP(true, 97, 1, 0, nd.Bytes("payload", nd.Pick("length", 0, nd.Bound(6, 8))))))
		seen.take()
		c.say(vfDollar(2, vfRTP(true, 97, 2, 0, []byte{0, 16, 0, 8, 9})))
		tags, over := seen.take()
		nd.Assert(!over && len(tags) > 0, "the stream goes on")
		nd.Assert(nd.Eq(tags[len(tags)-1].Marshal(), []byte{0xaf, 1, 9}), "with whole frames")
	}
	nd.Reach("end")
}

// The names tracks go by, and the ways their packets come.
//
//vf:prop C19
//vf:bounds a publisher of H.264 and AAC whose description names its tracks in one of seven ways, set up in either order, each over UDP or interleaved; one slice and one AAC frame of any content at any time, in either order
func VfRTSPTracks() {
	srv := NewServer(":0", "live")
	c := vfRTSPDial(srv)
	names := [][2]string{{"streamid=0", "streamid=1"}, {"1", "11"}, {"11", "1"}, {"video", "audio"}, {"track", "soundtrack"}, {"a/track", "b/track"}, {vfURL + "/trackID=1", vfURL + "/trackID=2"}}[nd.Pick("names", 0, 6)]
	sdp := vfSDPHead + strings.Replace(vfSDPVideo, "streamid=0", names[0], 1) + strings.Replace(vfSDPAudio, "streamid=1", names[1], 1)
	code, _, _ := c.ask("ANNOUNCE", vfURL, "Content-Type: application/sdp\r\n", sdp)
	nd.Assert(code == "200", "ANNOUNCE")
	seen := vfWatch(srv.apps["live"].Load("x"))
	var sock [2]*net.UDPConn
	var port [2]int
	first := nd.Pick("first", 0, 1)
	channel := 0
	var ch [2]int
	for i := 0; i < 2; i++ {
		k := i ^ first
		url := names[k]
		if !strings.Contains(url, "://") {
			url = vfURL + "/" + url
		}
		if nd.Bool("udp") {
			s, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
			nd.Assert(err == nil, "socket")
			sock[k] = s
			defer s.Close()
			_, me, _ := net.SplitHostPort(s.LocalAddr().String())
			my, _ := strconv.Atoi(me)
			code, head, _ := c.ask("SETUP", url, "Transport: RTP/AVP;unicast;client_port="+me+"-"+strconv.Itoa(my+1)+";mode=record\r\n", "")
			nd.Assert(code == "200", "SETUP")
			t := vfHeader(head, "Transport")
			i := strings.Index(t, "server_port=")
			nd.Assert(i >= 0, "the server's port")
			sp := t[i+len("server_port="):]
			port[k], _ = strconv.Atoi(sp[:strings.Index(sp, "-")])
			nd.Reach("udp")
		} else {
			ch[k] = channel
			channel += 2
			code, _, _ := c.ask("SETUP", url, "Transport: RTP/AVP/TCP;unicast;interleaved="+strconv.Itoa(ch[k])+"-"+strconv.Itoa(ch[k]+1)+";mode=record\r\n", "")
			nd.Assert(code == "200", "SETUP")
		}
	}
	code, _, _ = c.ask("RECORD", vfURL, "", "")
	nd.Assert(code == "200", "RECORD")
	send := func(k int, p []byte) {
		if sock[k] != nil {
			_, err := sock[k].WriteToUDP(p, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port[k]})
			nd.Assert(err == nil, "sent")
			nd.Quiesce()
		} else {
			c.say(vfDollar(ch[k], p))
		}
	}
	early := nd.Pick("media first", 0, 1)
	for i := 0; i < 2; i++ {
		ts := nd.U32("rtp time")
		var want []byte
		var time uint32
		if i^early == 0 {
			nal := nd.Bytes("slice", 3)
			nd.Assume(nal[0]&31 == 1)
			send(0, vfRTP(true, 96, 7, ts, nal))
			want, time = append([]byte{0x27, 1, 0, 0, 0, 0, 0, 0, 3}, nal...), ts/90
		} else {
			f := nd.Bytes("frame", 2)
			send(1, vfRTP(true, 97, 9, ts, append([]byte{0, 16, 0, 2 << 3}, f...)))
			want, time = append([]byte{0xaf, 1}, f...), uint32(uint64(ts)*1000/44100)
		}
		tags, over := seen.take()
		nd.Assert(!over, "alive")
		if i == 0 {
			tags = vfHeaders(tags, true, 1)
		}
		nd.Assert(len(tags) == 1, "every unit and nothing else")
		nd.Assert(nd.Eq(tags[0].Marshal(), want), "unaltered, with its kind")
		nd.Assert(tags[0].GetTagInfo().TimeStamp == time, "time in milliseconds")
	}
	c.hangUp()
	nd.Quiesce()
	tags, over := seen.take()
	nd.Assert(over && len(tags) == 0, "viewers learn the end")
	for k := range sock {
		if sock[k] != nil {
			s, err := net.ListenUDP("udp", &net.UDPAddr{Port: port[k]})
			nd.Assert(err == nil, "the port is free again")
			s.Close()
		}
	}
	nd.Reach("end")
}
