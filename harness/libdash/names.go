package libdash

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/SmartBrave/Athena/broadcast"
	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

var vfStreamNames = []string{"x", "a..b", "..", ".", "../x", "../../x", "/x", "sub/x", "sub/../../x", "..x", "./x"}

// Segments stay where they belong whatever the publisher calls the stream.
//
//vf:prop C28
//vf:bounds 11 stream names with dots and separators, one stream of two segments
func VfDashNames() {
	base := nd.TempDir()
	dir := filepath.Join(base, "in", "data")
	nd.Assert(os.MkdirAll(filepath.Join(base, "in", "sub"), 0o755) == nil, "made")
	nd.Assert(os.MkdirAll(dir, 0o755) == nil, "made")
	name := vfStreamNames[nd.Pick("name", 0, len(vfStreamNames)-1)]
	//what a confused Start or Stop would overwrite or remove
	keep := []string{"x-init.mp4", "x-0.m4s", "x-1.m4s", "x-2.m4s", "in/x-init.mp4", "in/x-0.m4s", "in/x-1.m4s", "in/x-2.m4s"}
	for _, n := range keep {
		nd.Assert(os.WriteFile(filepath.Join(base, n), []byte("keep"), 0o644) == nil, "made")
	}
	before := strings.Join(vfOutside(base), " ")
	d := NewDASH().WithStreamID(name).WithDir(dir)
	bd := broadcast.NewBroadcast(3)
	bd.WriteMeta(&libflv.MetaTag{TagBase: libflv.TagBase{TagType: libflv.SCRIPT_DATA_TAG}})
	bd.WriteMeta(vfHeader(false, vfRecord()))
	bd.WriteMeta(&libflv.AudioTag{TagBase: libflv.TagBase{TagType: libflv.AUDIO_TAG}, SoundFormat: libflv.FLV_AUDIO_AAC, AACPacketType: libflv.AAC_SEQUENCE_HEADER, SoundData: []byte{0x12, 0x10}})
	br := broadcast.NewBroadcastReader(bd)
	done := make(chan struct{})
	go func() {
		d.Start(br)
		close(done)
	}()
	nd.Quiesce()
	bd.Write(vfTag(false, true, 0, 0, []byte{0, 0, 0, 2, 0x65, 1}))
	bd.Write(vfTag(false, false, 1000, 0, []byte{0, 0, 0, 2, 0x41, 1}))
	bd.Write(vfTag(false, true, 2500, 0, []byte{0, 0, 0, 2, 0x65, 1}))
	bd.Write(vfTag(false, false, 2600, 0, []byte{0, 0, 0, 2, 0x41, 1}))
	nd.Quiesce()
	bd.DisAlive()
	<-done
	nd.Assert(strings.Join(vfOutside(base), " ") == before, "nothing outside the segment directory is made")
	if len(nd.ListFiles(dir)) > 0 {
		nd.Reach("segments")
	}
	d.Stop()
	nd.Assert(strings.Join(vfOutside(base), " ") == before, "nothing outside the segment directory is removed")
	for _, n := range keep {
		nd.Assert(string(nd.Read(filepath.Join(base, n))) == "keep", "nothing outside the segment directory is overwritten")
	}
}

func vfOutside(base string) (out []string) {
	for _, f := range nd.Tree(base) {
		if !strings.Contains(f, "data") {
			out = append(out, f)
		}
	}
	return out
}
