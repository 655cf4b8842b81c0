package libflv

import (
	"bytes"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libamf"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// Stream metadata sent in either publisher shape keeps its values when it
// is written to an FLV player.
//
//vf:prop C07
//vf:bounds both publisher shapes, object and ECMA array, width 0..8191, duration 0..2^20, videocodecid any of 0..15, encoder string of 2 bytes, stereo flag; any timestamp
func VfMetaRoundTrip() {
	w := nd.Range("width", 0, 8191)
	d := nd.Range("duration", 0, 1<<20)
	vc := nd.Range("videocodecid", 0, 15)
	enc := nd.String("encoder", 2)
	st := nd.Bool("stereo")
	ts := nd.U32("ts")
	props := map[string]interface{}{
		"width": float64(w), "duration": float64(d), "videocodecid": float64(vc), "encoder": enc, "stereo": st,
	}
	buf := &bytes.Buffer{}
	wr := easyio.NewEasyWriter(buf)
	if nd.Bool("wrapped") {
		libamf.AMF0.Encode(wr, "@setDataFrame")
	}
	libamf.AMF0.Encode(wr, "onMetaData")
	obj := &bytes.Buffer{}
	libamf.AMF0.Encode(easyio.NewEasyWriter(obj), props)
	if nd.Bool("ecma") {
		buf.Write([]byte{8, 0, 0, 0, 5})
		buf.Write(obj.Bytes()[1:])
	} else {
		buf.Write(obj.Bytes())
	}
	t, err := ParseMetaTag(TagBase{TagType: SCRIPT_DATA_TAG, TimeStamp: ts}, libamf.AMF0, buf.Bytes())
	nd.Assert(err == nil, "metadata accepted")
	nd.Assert(t.Width == w && t.Duration == d && t.VideoCodecID == float64(vc) && t.Stereo == st, "values parsed")
	nd.Assert(nd.EqStr(t.Encoder, enc), "string parsed")
	rec := FLVWrite(t)
	nd.Assert(len(rec) > 15 && rec[0] == 18, "script tag")
	nd.Assert(uint32(rec[7])<<24|uint32(rec[4])<<16|uint32(rec[5])<<8|uint32(rec[6]) == ts, "timestamp")
	size := int(rec[1])<<16 | int(rec[2])<<8 | int(rec[3])
	nd.Assert(size == len(rec)-15, "data size")
	out, err := libamf.AMF0.Decode(easyio.NewEasyReader(bytes.NewReader(rec[11 : len(rec)-4])))
	nd.Assert(err == nil && len(out) == 2, "name and properties")
	name, _ := out[0].(string)
	nd.Assert(name == "onMetaData", "name")
	m, ok := out[1].(map[string]interface{})
	nd.Assert(ok, "properties")
	gw, _ := m["width"].(float64)
	gd, _ := m["duration"].(float64)
	gv, _ := m["videocodecid"].(float64)
	gs, _ := m["stereo"].(bool)
	ge, _ := m["encoder"].(string)
	nd.Assert(gw == float64(w) && gd == float64(d) && gv == float64(vc) && gs == st, "values reach the player")
	nd.Assert(nd.EqStr(ge, enc), "string reaches the player")
	nd.Reach("metadata")
}
