package libhls

import (
	"fmt"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

const vf33 = 1<<33 - 1

// Video frames, segment by segment.
//
//vf:prop C14
//vf:bounds 1..4 (thorough 5) AVC frames or one fewer HEVC frames, each key or inter, one NAL unit of 2 arbitrary bytes, arbitrary non-decreasing 32-bit timestamps, arbitrary signed 24-bit composition offsets
func VfSegments() {
	hevc := nd.Bool("hevc")
	r := vfStart("s", hevc, false)
	type frame struct {
		key bool
		ts  uint32
		cts int32
		nal []byte
	}
	var fs []frame
	prev := uint32(0)
	max := nd.Bound(4, 5)
	if hevc {
		max--
	}
	for i, n := 0, nd.Pick("frames", 1, max); i < n; i++ {
		f := frame{key: nd.Bool("key"), ts: nd.U32("ts"), cts: nd.I32("cts")}
		nd.Assume(nd.And(f.ts >= prev, f.cts >= -1<<23, f.cts < 1<<23))
		prev = f.ts
		hd := []byte{0x41, 0xee, byte(i)}
		if f.key {
			hd[0] = 0x65
		}
		if hevc {
			hd[0] = 2
			if f.key {
				hd[0] = 0x26
			}
		}
		f.nal = append(hd, nd.Bytes("nal", 2)...)
		fs = append(fs, f)
		r.write(vfVideo(hevc, f.key, f.ts, uint32(f.cts), f.nal))
	}
	r.end()
	//the segments a reader of the property expects
	var want [][]frame
	for _, f := range fs {
		if f.key && (len(want) == 0 || f.ts-want[len(want)-1][0].ts >= 2000) {
			want = append(want, nil)
		}
		if k := len(want); k > 0 {
			want[k-1] = append(want[k-1], f)
		}
	}
	nd.Assert(len(nd.ListFiles(r.dir)) == len(want), "one file per segment")
	for i, seg := range want {
		us, typ := vfDemux(r.read(fmt.Sprintf("s-%d.ts", i)))
		nd.Assert(nd.Implies(hevc, typ == 0x24) && nd.Implies(!hevc, typ == 0x1b), "video stream type")
		nd.Assert(len(us) == len(seg), "every frame once")
		for j, u := range us {
			f := seg[j]
			nd.Assert(u.video && u.random == f.key, "random access exactly at key frames")
			nd.Assert(u.dts == uint64(f.ts)*90&vf33, "decoding time")
			nd.Assert(u.pts == uint64(int64(f.ts)*90+int64(f.cts)*90)&vf33, "presentation time")
			nd.Assert(vfSuffix(u.data, append([]byte{0, 0, 1}, f.nal...)), "frame data in order")
		}
	}
	if len(want) > 1 {
		nd.Reach("rotated")
	}
	nd.Reach("checked")
}

// Audio: batches of six ADTS frames between the video frames.
//
//vf:prop C14
//vf:bounds one key frame in front of, inside or behind 6..12 AAC frames of 3 arbitrary bytes; the second frame up to 1 s late, then 0..3 ms of jitter around the 1024-sample grid, stream times near 0, 2^26 and 2^32 ms
func VfAudio() {
	r := vfStart("s", false, false)
	n := nd.Pick("audio", 6, nd.Bound(8, 12))
	at := nd.Pick("key at", 0, n-1)
	var ts []uint32
	var raw [][]byte
	base := []uint32{40, 1 << 26, 1<<32 - 1<<16}[nd.Pick("base", 0, 2)]
	key := base
	for i := 0; i < n; i++ {
		t := base
		if i == 1 {
			t += uint32(nd.Range("gap", 0, 1000))
		} else if i > 1 {
			j := nd.Range("jitter", 0, 3)
			t = ts[1] + uint32((i-1)*1024*1000/44100) + uint32(j)
			if i > 3 && i != 6 {
				t = ts[1] + uint32((i-1)*1024*1000/44100)
			}
			nd.Assume(t >= ts[i-1])
		}
		if i == at {
			key = t
			r.write(vfVideo(false, true, key, 0, []byte{0x65, 1, 2}))
		}
		ts, raw = append(ts, t), append(raw, nd.Bytes("raw", 3))
		r.write(vfAudio(t, raw[i]))
	}
	r.end()
	us, _ := vfDemux(r.read("s-0.ts"))
	nd.Assert(len(us) > 0 && us[0].video && us[0].random, "starts with the key frame")
	//a batch is written when its sixth frame arrives
	var got []vfUnit
	for _, u := range us[1:] {
		nd.Assert(!u.video, "the key frame once")
		got = append(got, u)
	}
	k := 0
	for first := 0; first+6 <= n; first += 6 {
		if first+5 < at {
			continue //completed before the first key frame
		}
		nd.Assert(k < len(got), "batch present")
		u := got[k]
		k++
		d := (u.pts - uint64(ts[first])*90) & vf33
		nd.Assert(nd.Or(d <= 180, d >= 1<<33-180), "batch time within 2 ms of its first frame")
		var want []byte
		for _, x := range raw[first : first+6] {
			//44100 Hz stereo AAC-LC, 7+3 bytes
			want = append(append(want, 0xff, 0xf1, 1<<6|4<<2, 2<<6, 10>>3, 10&7<<5|0x1f, 0xfc), x...)
		}
		nd.Assert(nd.Eq(u.data, want), "six frames in order")
	}
	nd.Assert(k == len(got), "nothing else")
	if k > 0 {
		nd.Reach("batch")
	}
}

// Audio whose clock runs faster or slower than its nominal rate, over two batches.
//
//vf:prop C14
//vf:bounds 12 audio frames 15..40 ms apart (all the same distance) with a jump of up to 40 ms before the 2nd, 6th, 7th or 8th (thorough: any) frame
func VfAudioDrift() {
	r := vfStart("s", false, false)
	base := []uint32{40, 1<<32 - 1<<16}[nd.Pick("base", 0, 1)]
	r.write(vfVideo(false, true, base, 0, []byte{0x65, 1, 2}))
	inc := uint32(nd.Range("distance", 15, 40))
	jump := uint32(nd.Range("jump", 0, 40))
	at := []int{1, 5, 6, 7, 2, 3, 4, 8, 9, 10, 11}[nd.Pick("at", 0, nd.Bound(3, 10))]
	var ts []uint32
	t := base
	for i := 0; i < 12; i++ {
		if i > 0 {
			t += inc
		}
		if i == at {
			t += jump
		}
		ts = append(ts, t)
		r.write(vfAudio(t, []byte{1, 2, byte(i)}))
	}
	r.end()
	us, _ := vfDemux(r.read("s-0.ts"))
	nd.Assert(len(us) == 3 && us[0].video && !us[1].video && !us[2].video, "key frame and two batches")
	for k, u := range us[1:] {
		d := (u.pts - uint64(ts[6*k])*90) & vf33
		nd.Assert(nd.Or(d <= 180, d >= 1<<33-180), "batch time within 2 ms of its first frame")
		nd.Assert(len(u.data) == 60, "six frames")
		for i := 0; i < 6; i++ {
			nd.Assert(u.data[10*i+9] == byte(6*k+i), "frames in order")
		}
	}
	nd.Reach("batches")
}
