package libhls

import (
	"fmt"
	"strings"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

func vfKey(ts uint32) []byte { return []byte{0x65, byte(ts), 7} }

type vfSeg struct {
	name string
	dur  string //seconds, three decimals
}

// vfLines reads a media playlist without low-latency tags.
func vfLines(p []byte) (seq, target int, segs []vfSeg) {
	seq, target = -1, -1
	lines := strings.Split(string(p), "\n")
	nd.Assert(lines[0] == "#EXTM3U", "playlist header")
	for i := 1; i < len(lines); i++ {
		l := lines[i]
		switch {
		case strings.HasPrefix(l, "#EXT-X-MEDIA-SEQUENCE:"):
			seq = vfInt(l[len("#EXT-X-MEDIA-SEQUENCE:"):])
		case strings.HasPrefix(l, "#EXT-X-TARGETDURATION:"):
			target = vfInt(l[len("#EXT-X-TARGETDURATION:"):])
		case strings.HasPrefix(l, "#EXTINF:"):
			d := strings.TrimSuffix(strings.TrimPrefix(l, "#EXTINF:"), ",")
			i++
			segs = append(segs, vfSeg{lines[i], d})
		default:
			nd.Assert(l == "" || strings.HasPrefix(l, "#"), "only tags besides the segments")
		}
	}
	return
}

func vfInt(s string) int {
	nd.Assert(len(s) > 0, "number")
	x := 0
	for i := 0; i < len(s); i++ {
		nd.Assert(nd.And(s[i] >= '0', s[i] <= '9'), "digits")
		x = x*10 + int(s[i]-'0')
	}
	return x
}

func vfMs(ms uint32) string { return fmt.Sprintf("%d.%03d", ms/1000, ms%1000) }

// The window after every segment of a stream.
//
//vf:prop C13
//vf:bounds a stream of 8 (thorough 9) segments, one of them (any) of symbolic length 0..12 s, one up to 2 s
func VfWindow() {
	r := vfStart("cam", false, false)
	n := nd.Bound(8, 9)
	at := nd.Pick("at", 0, n-1)
	base := uint32(1000)
	var durs []uint32
	var names []string
	nd.Assert(r.h.Playlist() == nil, "no playlist before the first segment")
	for i := 0; i < n; i++ {
		d := uint32(2000)
		if i == at {
			d = uint32(nd.Range("long", 0, 12000))
		} else if i == (at+2)%n {
			d = uint32(nd.Range("short", 0, 1999))
		}
		r.write(vfVideo(false, true, base, 0, vfKey(base)))
		r.write(vfVideo(false, false, base+d, 0, []byte{0x41, 1, 2}))
		base += 20000
		names = append(names, fmt.Sprintf("cam-%d.ts", i))
		if d == 0 {
			d = 2000
		}
		durs = append(durs, d)
		if i != 0 && i != 3 && i < n-1 {
			continue
		}
		nd.Quiesce()
		//segments 0..i-1 are finished
		lo := i - 6
		if lo < 0 {
			lo = 0
		}
		files := nd.ListFiles(r.dir)
		nd.Assert(len(files) == i-lo+1, "window and segment in progress on disk")
		for j := lo; j <= i; j++ {
			nd.Assert(r.read(names[j]) != nil, "file of the window")
		}
		if i == 0 {
			nd.Assert(r.h.Playlist() == nil, "no playlist before the first segment")
			continue
		}
		seq, target, segs := vfLines(r.h.Playlist())
		nd.Assert(seq == lo && len(segs) == i-lo, "the last six finished segments")
		max := uint32(0)
		for j, s := range segs {
			nd.Assert(s.name == names[lo+j], "in order")
			nd.Assert(nd.EqStr(s.dur, vfMs(durs[lo+j])), "EXTINF")
			if durs[lo+j] > max {
				max = durs[lo+j]
			}
		}
		nd.Assert(target >= 1 && target == int((max+999)/1000), "target duration is the longest, rounded up")
		if i > 6 {
			nd.Reach("slid")
		}
	}
	nd.Reach("live")
	switch nd.Pick("end", 0, 1) {
	case 0: //publisher leaves: the last segment is finished too
		r.bd.DisAlive()
		<-r.done
		seq, _, segs := vfLines(r.h.Playlist())
		nd.Assert(seq == n-6 && len(segs) == 6 && segs[5].name == names[n-1] && nd.EqStr(segs[5].dur, vfMs(durs[n-1])), "last segment listed")
		nd.Assert(len(nd.ListFiles(r.dir)) == 6, "older ones removed")
		r.h.Stop()
		nd.Reach("left")
	case 1:
		r.h.Stop()
		r.bd.DisAlive()
		<-r.done
	}
	nd.Assert(len(nd.ListFiles(r.dir)) == 0, "nothing left after Stop")
	nd.Assert(r.h.Playlist() == nil, "no playlist after Stop")
	nd.Reach("stopped")
}

// A new player asking for the first playlist is answered when there is one,
// or when there will never be one.
//
//vf:prop C13
//vf:bounds one or two key frames; publisher leaves or Stop
func VfFirst() {
	r := vfStart("cam", false, false)
	got := make(chan []byte, 1)
	go func() {
		r.h.WaitFirstSegment()
		got <- r.h.Playlist()
	}()
	nd.Quiesce()
	nd.Assert(len(got) == 0, "waits")
	k := nd.Pick("keys", 0, 2)
	for i := 0; i < k; i++ {
		r.write(vfVideo(false, true, uint32(3000*i), 0, vfKey(0)))
	}
	nd.Quiesce()
	nd.Assert(len(got) == k/2, "answered once the first segment is finished")
	if nd.Bool("stop") {
		r.h.Stop()
	}
	r.bd.DisAlive()
	<-r.done
	p := <-got
	nd.Assert(k < 2 || p != nil, "the first playlist")
	nd.Reach("answered")
}
