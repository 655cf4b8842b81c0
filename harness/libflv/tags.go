package libflv

import (
	"encoding/binary"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// An accepted audio payload is described by its header bits and marshals
// back to the bytes it came from.
//
//vf:prop C07
//vf:bounds every audio payload of 0..6 bytes (thorough 0..12)
func VfAudioRoundTrip() {
	b := nd.Bytes("b", nd.Pick("n", 0, nd.Bound(6, 12)))
	in := append([]byte(nil), b...)
	ts := nd.U32("ts")
	t, err := ParseAudioTag(TagBase{TagType: AUDIO_TAG, TimeStamp: ts}, b)
	if err != nil {
		nd.Assert(len(in) < 2, "a payload with a header and data is accepted")
		nd.Reach("rejected")
		return
	}
	nd.Assert(t.SoundFormat == in[0]>>4, "sound format")
	nd.Assert(t.SoundRate == in[0]>>2&3, "sound rate")
	nd.Assert(t.SoundSize == in[0]>>1&1, "sound size")
	nd.Assert(t.SoundType == in[0]&1, "sound type")
	hdr := 1
	if t.SoundFormat == 10 || t.SoundFormat == 13 {
		hdr = 2
		nd.Assert(t.AACPacketType == in[1], "packet type")
		nd.Reach("aac")
	} else {
		nd.Reach("other")
	}
	nd.Assert(nd.Eq(t.Data(), in[hdr:]), "data is the payload behind its header")
	nd.Assert(t.GetTagInfo().TimeStamp == ts && t.GetTagInfo().TagType == AUDIO_TAG, "tag info kept")
	nd.Assert(nd.Eq(t.Marshal(), in), "marshalling restores the payload")
}

// Same for video; the composition time is a signed 24-bit number.
//
//vf:prop C07
//vf:bounds every video payload of 0..8 bytes (thorough 0..12)
func VfVideoRoundTrip() {
	b := nd.Bytes("b", nd.Pick("n", 0, nd.Bound(8, 12)))
	in := append([]byte(nil), b...)
	ts := nd.U32("ts")
	t, err := ParseVideoTag(TagBase{TagType: VIDEO_TAG, TimeStamp: ts}, b)
	if err != nil {
		nd.Assert(len(in) < 5, "a complete video payload is accepted")
		nd.Reach("rejected")
		return
	}
	nd.Assert(t.FrameType == in[0]>>4, "frame type")
	nd.Assert(t.CodecID == in[0]&15, "codec id")
	hdr := 1
	if t.CodecID == 7 || t.CodecID == 12 || t.CodecID == 13 {
		hdr = 5
		nd.Assert(t.AVCPacketType == in[1], "packet type")
		c := int32(uint32(in[2])<<24|uint32(in[3])<<16|uint32(in[4])<<8) >> 8
		nd.Assert(int32(t.Cts) == c, "composition time is signed 24 bit")
		nd.Reach("avc")
	} else {
		nd.Reach("other")
	}
	nd.Assert(nd.Eq(t.Data(), in[hdr:]), "data is the payload behind its header")
	nd.Assert(t.GetTagInfo().TimeStamp == ts && t.GetTagInfo().TagType == VIDEO_TAG, "tag info kept")
	nd.Assert(nd.Eq(t.Marshal(), in), "marshalling restores the payload")
}

func vfCheckFrame(rec []byte, typ byte, ts uint32, body []byte) {
	nd.Assert(len(rec) == 11+len(body)+4, "record is header, body and back pointer")
	nd.Assert(rec[0] == typ, "tag type")
	nd.Assert(rec[1] == byte(len(body)>>16) && rec[2] == byte(len(body)>>8) && rec[3] == byte(len(body)), "data size")
	nd.Assert(uint32(rec[7])<<24|uint32(rec[4])<<16|uint32(rec[5])<<8|uint32(rec[6]) == ts, "timestamp with extension byte")
	nd.Assert(rec[8] == 0 && rec[9] == 0 && rec[10] == 0, "stream id zero")
	nd.Assert(nd.Eq(rec[11:11+len(body)], body), "body")
	nd.Assert(binary.BigEndian.Uint32(rec[11+len(body):]) == uint32(11+len(body)), "previous tag size")
}

// A tag written as an FLV record is framed as the file format demands.
//
//vf:prop C07
//vf:bounds audio and video tags, every timestamp, header field and composition time, bodies of 0..4, 250..260 and 65530..65540 bytes
func VfFlvWrite() {
	ts := nd.U32("ts")
	var n int
	switch nd.Pick("class", 0, 2) {
	case 0:
		n = nd.Pick("n", 0, 4)
	case 1:
		n = nd.Pick("n", 250, 260)
	case 2:
		n = 65530 + 5*nd.Pick("n", 0, 2)
	}
	data := make([]byte, n)
	copy(data, nd.Bytes("head", 4))
	orig := append([]byte(nil), data...)
	if nd.Pick("kind", 0, 1) == 0 {
		f := nd.U8("fmt")
		nd.Assume(f < 16)
		r, z, y := nd.U8("rate"), nd.U8("size"), nd.U8("type")
		nd.Assume(nd.And(r < 4, nd.And(z < 2, y < 2)))
		p := nd.U8("pt")
		t := &AudioTag{TagBase: TagBase{TagType: AUDIO_TAG, TimeStamp: ts}, SoundFormat: f, SoundRate: r, SoundSize: z, SoundType: y, AACPacketType: p, SoundData: data}
		body := []byte{f<<4 | r<<2 | z<<1 | y}
		if f == 10 || f == 13 {
			body = append(body, p)
		}
		body = append(body, orig...)
		vfCheckFrame(FLVWrite(t), 8, ts, body)
		nd.Reach("audio record")
		return
	}
	ft, c, p := nd.U8("ft"), nd.U8("codec"), nd.U8("pt")
	nd.Assume(nd.And(ft < 16, c < 16))
	cts := nd.I32("cts")
	nd.Assume(nd.And(cts >= -1<<23, cts < 1<<23))
	t := &VideoTag{TagBase: TagBase{TagType: VIDEO_TAG, TimeStamp: ts}, FrameType: ft, CodecID: c, AVCPacketType: p, Cts: uint32(cts), VideoData: data}
	body := []byte{ft<<4 | c}
	if c == 7 || c == 12 || c == 13 {
		body = append(body, p, byte(cts>>16), byte(cts>>8), byte(cts))
	}
	body = append(body, orig...)
	vfCheckFrame(FLVWrite(t), 9, ts, body)
	nd.Reach("video record")
}

// Writing the same tag twice, or parsing what was written, changes nothing:
// cached headers are replayed to every viewer.
//
//vf:prop C07
//vf:bounds audio and video payloads of 5..7 arbitrary bytes, written twice and read back
func VfFlvReplay() {
	b := nd.Bytes("b", nd.Pick("n", 5, 7))
	ts := nd.U32("ts")
	var t Tag
	var err error
	typ := AUDIO_TAG
	if nd.Pick("kind", 0, 1) == 0 {
		t, err = ParseAudioTag(TagBase{TagType: AUDIO_TAG, TimeStamp: ts}, append([]byte(nil), b...))
	} else {
		typ = VIDEO_TAG
		t, err = ParseVideoTag(TagBase{TagType: VIDEO_TAG, TimeStamp: ts}, append([]byte(nil), b...))
	}
	nd.Assert(err == nil, "accepted")
	r1 := FLVWrite(t)
	vfCheckFrame(r1, typ, ts, b)
	keep := append([]byte(nil), r1...)
	r2 := FLVWrite(t)
	nd.Assert(nd.Eq(r2, keep) && nd.Eq(r1, keep), "second write identical, first unchanged")
	nd.Assert(t.GetTagInfo().TimeStamp == ts, "timestamp untouched")
	nd.Reach("replayed")
}
