package libdash

import (
	"path/filepath"

	"github.com/SmartBrave/Athena/broadcast"
	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// 1280x720, high profile
var vfSps = []byte{0x67, 0x64, 0x00, 0x1f, 0xac, 0xd9, 0x40, 0x50, 0x05, 0xbb}
var vfPps = []byte{0x68, 0xce, 0x38, 0x80}

func vfRecord() []byte {
	d := []byte{1, 0x64, 0, 0x1f, 0xff, 0xe1, 0, byte(len(vfSps))}
	d = append(d, vfSps...)
	d = append(d, 1, 0, byte(len(vfPps)))
	return append(d, vfPps...)
}

func vfTag(hevc, key bool, ts uint32, cts int32, data []byte) *libflv.VideoTag {
	t := &libflv.VideoTag{TagBase: libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: ts}, FrameType: libflv.INTER_FRAME, CodecID: libflv.FLV_VIDEO_AVC, AVCPacketType: libflv.AVC_NALU, Cts: uint32(cts), VideoData: data}
	if key {
		t.FrameType = libflv.KEY_FRAME
	}
	if hevc {
		t.CodecID = libflv.FLV_VIDEO_HEVC
	}
	return t
}

func vfHeader(hevc bool, rec []byte) *libflv.VideoTag {
	t := vfTag(hevc, true, 0, 0, rec)
	t.AVCPacketType = libflv.AVC_SEQUENCE_HEADER
	return t
}

type vfRun struct {
	d    *DASH
	bd   *broadcast.Broadcast
	dir  string
	done chan struct{}
}

func vfStart(header libflv.Tag) *vfRun {
	r := &vfRun{dir: nd.TempDir(), bd: broadcast.NewBroadcast(3), done: make(chan struct{})}
	r.d = NewDASH().WithStreamID("cam").WithDir(r.dir)
	r.bd.WriteMeta(&libflv.MetaTag{TagBase: libflv.TagBase{TagType: libflv.SCRIPT_DATA_TAG}})
	r.bd.WriteMeta(header)
	r.bd.WriteMeta(&libflv.AudioTag{TagBase: libflv.TagBase{TagType: libflv.AUDIO_TAG}, SoundFormat: libflv.FLV_AUDIO_AAC, AACPacketType: libflv.AAC_SEQUENCE_HEADER, SoundData: []byte{0x12, 0x10}})
	br := broadcast.NewBroadcastReader(r.bd)
	go func() {
		r.d.Start(br)
		close(r.done)
	}()
	nd.Quiesce()
	return r
}

func (r *vfRun) write(t libflv.Tag) { r.bd.Write(t) }

func (r *vfRun) end() {
	nd.Quiesce()
	r.bd.DisAlive()
	<-r.done
}

func (r *vfRun) read(name string) []byte { return nd.Read(filepath.Join(r.dir, name)) }

func vfU32(b []byte) uint32 { return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]) }

// vfBox finds the box of that type among those that tile b.
func vfBox(b []byte, typ string) []byte {
	for off := 0; off < len(b); {
		n := int(vfU32(b[off:]))
		nd.Assert(n >= 8 && n <= len(b)-off, "box size")
		if string(b[off+4:off+8]) == typ {
			return b[off+8 : off+n]
		}
		off += n
	}
	nd.Fail("box " + typ)
	return nil
}

type vfSample struct {
	dur  uint32
	key  bool
	cts  int32
	data []byte
}

func vfFragment(f []byte) (seq uint32, base uint64, out []vfSample) {
	moof, mdat := vfBox(f, "moof"), vfBox(f, "mdat")
	seq = vfU32(vfBox(moof, "mfhd")[4:])
	traf := vfBox(moof, "traf")
	tfdt, trun := vfBox(traf, "tfdt"), vfBox(traf, "trun")
	base = uint64(vfU32(tfdt[4:]))<<32 | uint64(vfU32(tfdt[8:]))
	n := int(vfU32(trun[4:]))
	nd.Assert(int(vfU32(trun[8:])) == len(f)-len(mdat), "data offset")
	for i := 0; i < n; i++ {
		e := trun[12+16*i:]
		k := int(vfU32(e[4:]))
		out = append(out, vfSample{vfU32(e), vfU32(e[8:])&0x10000 == 0, int32(vfU32(e[12:])), mdat[:k]})
		mdat = mdat[k:]
	}
	nd.Assert(len(mdat) == 0, "no other media data")
	return
}
