package libdash

import (
	"fmt"
	"strings"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// Samples, segment by segment.
//
//vf:prop C17
//vf:bounds 1..4 (thorough 6) frames, each key or inter, of 2 arbitrary bytes, AVC or HEVC, arbitrary non-decreasing 32-bit timestamps and 24-bit composition offsets
func VfSegments() {
	hevc := nd.Bool("hevc")
	hd := vfHeader(false, vfRecord())
	if hevc {
		hd = vfHeader(true, make([]byte, 23))
	}
	r := vfStart(hd)
	type frame struct {
		key  bool
		ts   uint32
		cts  int32
		data []byte
	}
	var fs []frame
	prev := uint32(0)
	max := nd.Bound(4, 6)
	if hevc {
		max--
	}
	for i, n := 0, nd.Pick("frames", 1, max); i < n; i++ {
		f := frame{nd.Bool("key"), nd.U32("ts"), nd.I32("cts"), nd.Bytes("data", 2)}
		nd.Assume(nd.And(f.ts >= prev, f.cts >= -1<<23, f.cts < 1<<23))
		prev = f.ts
		fs = append(fs, f)
		r.write(vfTag(hevc, f.key, f.ts, f.cts, f.data))
	}
	r.end()
	var want [][]frame
	for _, f := range fs {
		if f.key && (len(want) == 0 || f.ts-want[len(want)-1][0].ts >= 2000) {
			want = append(want, nil)
		}
		if k := len(want); k > 0 {
			want[k-1] = append(want[k-1], f)
		}
	}
	//a last segment of a single frame has no duration yet and is not written
	next := uint32(0)
	if k := len(want); k > 0 && len(want[k-1]) == 1 {
		next = want[k-1][0].ts
		want = want[:k-1]
	}
	files := nd.ListFiles(r.dir)
	nd.Assert(len(files) == len(want)+1 && files[len(want)] == "cam-init.mp4", "one file per segment and the init segment")
	for i, seg := range want {
		seq, base, ss := vfFragment(r.read(fmt.Sprintf("cam-%d.m4s", i)))
		nd.Assert(seq == uint32(i+1), "fragment number")
		nd.Assert(base == uint64(seg[0].ts), "base decode time is the first frame's time")
		nd.Assert(len(ss) == len(seg) && seg[0].key, "every frame once, key frame first")
		for j, s := range ss {
			f := seg[j]
			nd.Assert(s.key == f.key && s.cts == f.cts && nd.Eq(s.data, f.data), "frame in order")
			end := next
			if j+1 < len(seg) {
				end = seg[j+1].ts
			} else if i+1 < len(want) {
				end = want[i+1][0].ts
			} else if next == 0 {
				//the very last frame: as long as the one before
				end = f.ts + (f.ts - seg[j-1].ts)
			}
			nd.Assert(s.dur == end-f.ts, "duration up to the next frame")
		}
	}
	if len(want) > 1 {
		nd.Reach("rotated")
	}
	nd.Reach("checked")
}

func vfAttr(m, name string) string {
	i := strings.Index(m, " "+name+"=\"")
	nd.Assert(i >= 0, "attribute "+name)
	v := m[i+len(name)+3:]
	return v[:strings.Index(v, "\"")]
}

func vfInt(s string) int {
	nd.Assert(len(s) > 0, "number")
	x := 0
	for i := 0; i < len(s); i++ {
		nd.Assert(nd.And(s[i] >= '0', s[i] <= '9'), "digits")
		x = x*10 + int(s[i]-'0')
	}
	return x
}

// The manifest and the window after every segment of a stream.
//
//vf:prop C17
//vf:bounds a stream of 8 (thorough 9) segments, one of them (any) of symbolic length 2..12 s; AVC or HEVC; publisher leaves or Stop
func VfManifest() {
	hevc := nd.Bool("hevc")
	hd, codec := vfHeader(false, vfRecord()), "avc1.64001F"
	if hevc {
		rec := make([]byte, 23)
		rec[1], rec[12] = 2, 120
		hd, codec = vfHeader(true, rec), "hvc1.2.6.L120.B0"
	}
	r := vfStart(hd)
	nd.Assert(len(r.d.InitSegment()) > 0 && r.d.Manifest() == nil, "no manifest before the first segment")
	nd.Assert(nd.Eq(r.d.InitSegment(), r.read("cam-init.mp4")), "init segment on disk")
	n := nd.Bound(8, 9)
	at := nd.Pick("at", 0, n-1)
	ts := uint32(500)
	var durs []uint32
	for i := 0; i <= n; i++ {
		r.write(vfTag(hevc, true, ts, 0, []byte{5, byte(i)}))
		r.write(vfTag(hevc, false, ts+1000, 0, []byte{1, byte(i)}))
		d := uint32(2000 + i)
		if i == at {
			d = uint32(nd.Range("long", 2000, 12000))
		}
		ts += d
		durs = append(durs, d)
		if i != 1 && i < 6 {
			continue
		}
		nd.Quiesce()
		lo := i - 6
		if lo < 0 {
			lo = 0
		}
		files := nd.ListFiles(r.dir)
		nd.Assert(len(files) == i-lo+1, "window and init segment on disk")
		max := uint32(0)
		for j := lo; j < i; j++ {
			nd.Assert(r.read(fmt.Sprintf("cam-%d.m4s", j)) != nil, "file of the window")
			if durs[j] > max {
				max = durs[j]
			}
		}
		m := string(r.d.Manifest())
		nd.Assert(strings.HasPrefix(m, "<?xml") && vfAttr(m, "type") == "dynamic", "live manifest")
		nd.Assert(vfInt(vfAttr(m, "startNumber")) == lo, "first segment of the window")
		nd.Assert(vfAttr(m, "timescale") == "1000" && vfInt(vfAttr(m, "duration")) == int(max), "longest segment in the window")
		nd.Assert(vfAttr(m, "initialization") == "cam-init.mp4" && vfAttr(m, "media") == "cam-$Number$.m4s", "names")
		nd.Assert(vfAttr(m, "codecs") == codec, "codec of the stream")
		if !hevc {
			nd.Assert(vfAttr(m, "width") == "1280" && vfAttr(m, "height") == "720", "dimensions of the stream")
		}
		if i > 6 {
			nd.Reach("slid")
		}
	}
	if nd.Bool("stop") {
		r.d.Stop()
		r.bd.DisAlive()
		<-r.done
	} else {
		r.bd.DisAlive()
		<-r.done
		nd.Assert(len(nd.ListFiles(r.dir)) == 7, "last segment finished, older ones removed")
		nd.Assert(vfInt(vfAttr(string(r.d.Manifest()), "startNumber")) == n-5, "last segment listed")
		r.d.Stop()
	}
	nd.Assert(len(nd.ListFiles(r.dir)) == 0 && r.d.Manifest() == nil, "nothing left after Stop")
	nd.Reach("stopped")
}

// Nothing is written before a decoder configuration is known, and a waiting
// player is let go in any case.
//
//vf:prop C17
//vf:bounds streams without video configuration; a bad configuration; 0..3 frames
func VfNoConfig() {
	hd := vfTag(false, false, 0, 0, []byte{1})
	if nd.Bool("bad") {
		hd = vfHeader(false, nd.Bytes("rec", nd.Pick("len", 0, 8)))
	}
	r := vfStart(hd)
	got := make(chan bool, 1)
	go func() {
		r.d.WaitFirstSegment()
		got <- true
	}()
	for i, k := 0, nd.Pick("frames", 0, 3); i < k; i++ {
		r.write(vfTag(false, true, uint32(3000*i), 0, []byte{1}))
	}
	nd.Quiesce()
	nd.Assert(len(got) == 0 && r.d.InitSegment() == nil && r.d.Manifest() == nil, "nothing yet")
	r.bd.DisAlive()
	<-r.done
	<-got
	nd.Assert(len(nd.ListFiles(r.dir)) == 0, "nothing written")
	r.d.Stop()
	nd.Reach("released")
}
