package libhls

import (
	"fmt"
	"strings"
	"time"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

type vfPart struct {
	uri      string
	dur      string
	off, len int
	indep    bool
}

type vfLL struct {
	seq      int
	segs     []vfSeg
	parts    []vfPart
	before   []int //number of parts in front of each EXTINF
	hint     string
	hintOff  int
	hintSeen bool
}

func vfAttr(l, name string) string {
	i := strings.Index(l, name+"=")
	nd.Assert(i > 0 && (l[i-1] == ':' || l[i-1] == ','), "attribute "+name)
	v := l[i+len(name)+1:]
	if v[0] == '"' {
		v = v[1:]
		return v[:strings.Index(v, "\"")]
	}
	if j := strings.Index(v, ","); j >= 0 {
		v = v[:j]
	}
	return v
}

func vfLowLatency(p []byte) (r vfLL) {
	lines := strings.Split(string(p), "\n")
	nd.Assert(lines[0] == "#EXTM3U", "playlist header")
	r.seq = -1
	server, inf := false, false
	for i := 1; i < len(lines); i++ {
		l := lines[i]
		switch {
		case strings.HasPrefix(l, "#EXT-X-MEDIA-SEQUENCE:"):
			r.seq = vfInt(l[len("#EXT-X-MEDIA-SEQUENCE:"):])
		case strings.HasPrefix(l, "#EXT-X-SERVER-CONTROL:"):
			server = strings.Contains(l, "CAN-BLOCK-RELOAD=YES")
		case strings.HasPrefix(l, "#EXT-X-PART-INF:"):
			inf = vfAttr(l, "PART-TARGET") == "0.333"
		case strings.HasPrefix(l, "#EXT-X-PART:"):
			q := vfPart{uri: vfAttr(l, "URI"), dur: vfAttr(l, "DURATION"), indep: strings.Contains(l, ",INDEPENDENT=YES")}
			b := vfAttr(l, "BYTERANGE")
			at := strings.Index(b, "@")
			q.len, q.off = vfInt(b[:at]), vfInt(b[at+1:])
			r.parts = append(r.parts, q)
			nd.Assert(!r.hintSeen, "hint last")
		case strings.HasPrefix(l, "#EXT-X-PRELOAD-HINT:"):
			nd.Assert(!r.hintSeen && vfAttr(l, "TYPE") == "PART", "one hint")
			r.hintSeen, r.hint, r.hintOff = true, vfAttr(l, "URI"), vfInt(vfAttr(l, "BYTERANGE-START"))
		case strings.HasPrefix(l, "#EXTINF:"):
			i++
			r.segs = append(r.segs, vfSeg{lines[i], strings.TrimSuffix(strings.TrimPrefix(l, "#EXTINF:"), ",")})
			r.before = append(r.before, len(r.parts))
		default:
			nd.Assert(l == "" || strings.HasPrefix(l, "#"), "only tags besides the segments")
		}
	}
	nd.Assert(server && inf, "blocking reload and part target announced")
	return
}

// Parts of finished segments and of the one in progress.
//
//vf:prop C13
//vf:bounds a segment of 1..3 frames, one of 1..2 (thorough 4 and 3), one of two in progress; frames at symbolic distances up to 1 s
func VfParts() {
	r := vfStart("cam", false, true)
	base := uint32(1000)
	var want [3][]uint32
	var ext [2]uint32
	max := nd.Bound(3, 4)
	for s := 0; s < 3; s++ {
		n := 2 //the second step of the last segment stays below or closes a part
		if s < 2 {
			n = nd.Pick("frames", 1, max-s)
		}
		part, ts := base, base
		for i := 0; i < n; i++ {
			if i > 0 {
				ts += uint32(nd.Range("step", 0, 1000))
			}
			nal := []byte{0x41, 1, 2}
			if i == 0 {
				nal[0] = 0x65
			}
			r.write(vfVideo(false, i == 0, ts, 0, nal))
			if ts-part >= 333 {
				want[s] = append(want[s], ts-part)
				part = ts
			} else if i == n-1 && s < 2 {
				want[s] = append(want[s], ts-part)
			}
		}
		if s < 2 {
			ext[s] = ts - base
			if ts == base {
				ext[s] = 2000
			}
		}
		base += 20000
	}
	nd.Quiesce()
	p := vfLowLatency(r.h.Playlist())
	nd.Assert(p.seq == 0 && len(p.segs) == 2, "two finished segments")
	k := 0
	for s := 0; s < 3; s++ {
		name := fmt.Sprintf("cam-%d.ts", s)
		size := len(r.read(name))
		off := 0
		for i, d := range want[s] {
			nd.Assert(k < len(p.parts), "part listed")
			q := p.parts[k]
			nd.Assert(q.uri == name && q.off == off && q.len > 0, "parts follow one another in their segment")
			nd.Assert(nd.EqStr(q.dur, vfMs(d)), "part duration")
			nd.Assert(q.indep == (i == 0), "independent exactly at the key frame")
			off += q.len
			k++
		}
		if s < 2 {
			nd.Assert(p.before[s] == k, "parts in front of their segment")
			nd.Assert(off == size, "parts cover the segment")
			nd.Assert(p.segs[s].name == name && nd.EqStr(p.segs[s].dur, vfMs(ext[s])), "EXTINF")
		} else {
			nd.Assert(p.hintSeen && p.hint == name && p.hintOff == off, "hint points behind the last part")
		}
	}
	nd.Assert(k == len(p.parts), "no other part")
	nd.Reach("checked")
	r.h.Stop()
	nd.Quiesce()
	nd.Assert(len(nd.ListFiles(r.dir)) == 0, "nothing left after Stop")
	r.bd.DisAlive()
	<-r.done
	nd.Assert(len(nd.ListFiles(r.dir)) == 0, "nothing left at the end")
}

// Audio lagging behind the picture never yields an insane part.
//
//vf:prop C13
//vf:bounds a key frame, six audio frames up to 3 s older or newer, a later frame, an optional second key frame
func VfLag() {
	r := vfStart("cam", false, true)
	r.write(vfVideo(false, true, 10000, 0, vfKey(0)))
	a := uint32(nd.Range("audio", 7000, 13000))
	for i := 0; i < 6; i++ {
		r.write(vfAudio(a+uint32(i*23), []byte{1, 2, 3}))
	}
	r.write(vfVideo(false, false, 10000+uint32(nd.Range("inter", 0, 3000)), 0, []byte{0x41, 1}))
	if nd.Bool("next") {
		r.write(vfVideo(false, true, 20000, 0, vfKey(0)))
	}
	nd.Quiesce()
	p := vfLowLatency(r.h.Playlist())
	off, uri := 0, ""
	for _, q := range p.parts {
		if q.uri != uri {
			off, uri = 0, q.uri
		}
		nd.Assert(q.off == off && q.len > 0, "contiguous")
		off += q.len
		nd.Assert(len(q.dur) == 5 && q.dur[1] == '.', "duration of a few seconds")
	}
	if len(p.parts) > 0 {
		nd.Reach("parts")
	}
	r.end()
}

// A blocking playlist request is answered once what it asks for exists, and
// no earlier.
//
//vf:prop C13
//vf:bounds requests for segment 0..2 part 0..2, on a new stream or one that has seven segments behind it; six frames with a part each, rotation behind the third; then Stop, or the time limit
func VfBlocking() {
	r := vfStart("cam", false, true)
	msn, part := nd.Pick("msn", 0, 2), nd.Pick("part", 0, 2)
	timeout := time.Hour
	late := nd.Bool("late")
	if late {
		timeout = 300 * time.Millisecond
	}
	got := make(chan []byte, 1)
	//on a stream that has been running for a while or not
	before := 0
	if nd.Bool("old") {
		before = 7
	}
	for i := 0; i < before; i++ {
		r.write(vfVideo(false, true, uint32(i)*3000, 0, []byte{0x65, 1}))
		nd.Quiesce()
	}
	start := time.Now()
	var took time.Duration
	go func() {
		p := r.h.WaitForPlaylist(before+msn, part, timeout)
		took = time.Since(start)
		got <- p
	}()
	nd.Quiesce()
	if late {
		<-got
		nd.Assert(took >= timeout, "not before the time limit")
		nd.Reach("late")
		r.end()
		return
	}
	nd.Assert(len(got) == 0, "waits")
	//frames at 0, 400, 800 | 3000, 3400, 3800: a part closes with the second
	//and third of each segment
	for i, ts := range []uint32{0, 400, 800, 3000, 3400, 3800} {
		r.write(vfVideo(false, i%3 == 0, uint32(before)*3000+ts, 0, []byte{[]byte{0x65, 0x41, 0x41}[i%3], 1}))
		nd.Quiesce()
		seg, parts := i/3, i%3
		nd.Assert((len(got) == 1) == (msn < seg || msn == seg && part < parts), "answered exactly when available")
	}
	if len(got) == 0 {
		r.h.Stop()
		nd.Quiesce()
		nd.Assert(len(got) == 1, "answered on Stop")
		nd.Reach("stop")
	} else {
		p := vfLowLatency(<-got)
		n := p.seq + len(p.segs) - before
		if n <= msn {
			nd.Assert(n == msn && len(p.parts)-p.before0(len(p.segs)) > part, "the part is listed")
		}
		nd.Reach("answer")
	}
	r.bd.DisAlive()
	<-r.done
}

func (p vfLL) before0(n int) int {
	if n == 0 {
		return 0
	}
	return p.before[n-1]
}
