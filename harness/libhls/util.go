package libhls

import (
	"path/filepath"

	"github.com/SmartBrave/Athena/broadcast"
	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

var (
	vfSps = []byte{0x67, 0x42, 0x00, 0x1e, 0x95}
	vfPps = []byte{0x68, 0xce, 0x38, 0x80}
)

func vfAvcSeq() *libflv.VideoTag {
	d := []byte{1, 0x42, 0, 0x1e, 0xff, 0xe1, 0, byte(len(vfSps))}
	d = append(d, vfSps...)
	d = append(d, 1, 0, byte(len(vfPps)))
	d = append(d, vfPps...)
	return &libflv.VideoTag{TagBase: libflv.TagBase{TagType: libflv.VIDEO_TAG}, FrameType: libflv.KEY_FRAME, CodecID: libflv.FLV_VIDEO_AVC, AVCPacketType: libflv.AVC_SEQUENCE_HEADER, VideoData: d}
}

func vfHevcSeq() *libflv.VideoTag {
	t := vfAvcSeq()
	t.CodecID, t.VideoData = libflv.FLV_VIDEO_HEVC, make([]byte, 23)
	return t
}

func vfAacSeq(rate byte) *libflv.AudioTag {
	return &libflv.AudioTag{TagBase: libflv.TagBase{TagType: libflv.AUDIO_TAG}, SoundFormat: libflv.FLV_AUDIO_AAC, AACPacketType: libflv.AAC_SEQUENCE_HEADER, SoundData: []byte{2<<3 | rate>>1, rate<<7 | 2<<3}}
}

func vfVideo(hevc, key bool, ts uint32, cts uint32, nal []byte) *libflv.VideoTag {
	t := &libflv.VideoTag{TagBase: libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: ts}, FrameType: libflv.INTER_FRAME, CodecID: libflv.FLV_VIDEO_AVC, AVCPacketType: libflv.AVC_NALU, Cts: cts}
	if key {
		t.FrameType = libflv.KEY_FRAME
	}
	if hevc {
		t.CodecID = libflv.FLV_VIDEO_HEVC
	}
	t.VideoData = append([]byte{0, 0, byte(len(nal) >> 8), byte(len(nal))}, nal...)
	return t
}

func vfAudio(ts uint32, raw []byte) *libflv.AudioTag {
	return &libflv.AudioTag{TagBase: libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: ts}, SoundFormat: libflv.FLV_AUDIO_AAC, AACPacketType: libflv.AAC_RAW, SoundData: raw}
}

type vfRun struct {
	h    *HLS
	bd   *broadcast.Broadcast
	dir  string
	done chan struct{}
}

func vfStart(name string, hevc, ll bool) *vfRun {
	r := &vfRun{dir: nd.TempDir(), bd: broadcast.NewBroadcast(3), done: make(chan struct{})}
	r.h = NewHls().WithStreamID(name).WithDir(r.dir).WithLowLatency(ll)
	r.bd.WriteMeta(&libflv.MetaTag{TagBase: libflv.TagBase{TagType: libflv.SCRIPT_DATA_TAG}})
	if hevc {
		r.bd.WriteMeta(vfHevcSeq())
	} else {
		r.bd.WriteMeta(vfAvcSeq())
	}
	r.bd.WriteMeta(vfAacSeq(4))
	br := broadcast.NewBroadcastReader(r.bd)
	go func() {
		r.h.Start(br)
		close(r.done)
	}()
	nd.Quiesce()
	return r
}

func (r *vfRun) write(t libflv.Tag) { r.bd.Write(t) }

func (r *vfRun) end() {
	nd.Quiesce()
	r.bd.DisAlive()
	<-r.done
}

func (r *vfRun) read(name string) []byte { return nd.Read(filepath.Join(r.dir, name)) }

type vfUnit struct {
	video    bool
	data     []byte
	pts, dts uint64 //33 bits
	hasDTS   bool
	random   bool
	first    bool //first unit of the segment
}

func vfTime(b []byte) uint64 {
	nd.Assert(nd.And(b[0]&1 == 1, b[2]&1 == 1, b[4]&1 == 1), "time stamp markers")
	return uint64(b[0]>>1&7)<<30 | uint64(b[1])<<22 | uint64(b[2]>>1)<<15 | uint64(b[3])<<7 | uint64(b[4]>>1)
}

// vfDemux reads one segment the way a player does that sees nothing else.
func vfDemux(f []byte) (units []vfUnit, videoType byte) {
	nd.Assert(len(f) > 0 && len(f)%188 == 0, "whole packets")
	cc := map[int]int{}
	pmtPid, vPid, aPid := -1, -1, -1
	var raw [2][]byte
	flush := func(k int) {
		p := raw[k]
		if p == nil {
			return
		}
		nd.Assert(len(p) >= 14 && p[0] == 0 && p[1] == 0 && p[2] == 1, "PES start")
		u := &units[len(units)-1]
		for i := len(units) - 1; u.video != (k == 0) || u.data != nil; i-- {
			u = &units[i-1]
		}
		nd.Assert(p[6]&0xc0 == 0x80, "PES marker")
		hl := int(p[8])
		u.data = p[9+hl:]
		u.pts = vfTime(p[9:14])
		u.dts = u.pts
		nd.Assert(p[7]&0x80 != 0, "PTS present")
		if p[7]&0x40 != 0 {
			u.dts, u.hasDTS = vfTime(p[14:19]), true
		}
		if n := int(p[4])<<8 | int(p[5]); n != 0 {
			nd.Assert(n == len(p)-6, "PES length")
		} else {
			nd.Assert(k == 0, "only video may leave the PES length open")
		}
		raw[k] = nil
	}
	for off := 0; off < len(f); off += 188 {
		p := f[off : off+188]
		nd.Assert(p[0] == 0x47 && p[1]&0x80 == 0, "sync")
		pid := int(p[1]&0x1f)<<8 | int(p[2])
		pusi := p[1]&0x40 != 0
		af := int(p[3] >> 4 & 3)
		c := int(p[3] & 15)
		if last, ok := cc[pid]; ok {
			nd.Assert(c == (last+1)&15, "continuity")
		}
		cc[pid] = c
		if off == 0 {
			nd.Assert(pid == 0 && pusi, "segment starts with the PAT")
		}
		random, pos := false, 4
		if af&2 != 0 {
			pos = 5 + int(p[4])
			random = p[4] > 0 && p[5]&0x40 != 0
		}
		b := p[pos:]
		switch {
		case pid == 0:
			nd.Assert(pusi, "PAT in one packet")
			s := b[1+int(b[0]):]
			pmtPid = int(s[10]&0x1f)<<8 | int(s[11])
		case pid == pmtPid:
			nd.Assert(pusi, "PMT in one packet")
			s := b[1+int(b[0]):]
			n := 3 + (int(s[1]&15)<<8 | int(s[2])) - 4
			pcr := int(s[8]&0x1f)<<8 | int(s[9])
			for i := 12 + (int(s[10]&15)<<8 | int(s[11])); i+5 <= n; i += 5 + (int(s[i+3]&15)<<8 | int(s[i+4])) {
				q := int(s[i+1]&0x1f)<<8 | int(s[i+2])
				if s[i] == 0x0f {
					aPid = q
				} else {
					vPid, videoType = q, s[i]
				}
			}
			nd.Assert(pcr == vPid && aPid >= 0, "PMT names audio, video and the PCR")
		case pid == vPid || pid == aPid:
			k := 0
			if pid == aPid {
				k = 1
			}
			if pusi {
				flush(k)
				units = append(units, vfUnit{video: k == 0, random: random, first: len(units) == 0})
				raw[k] = []byte{}
			}
			nd.Assert(raw[k] != nil, "payload belongs to a PES of this segment")
			raw[k] = append(raw[k], b...)
		default:
			nd.Fail("packet of an unannounced PID")
		}
	}
	flush(0)
	flush(1)
	return
}

func vfSuffix(b, s []byte) bool { return len(b) >= len(s) && nd.Eq(b[len(b)-len(s):], s) }
