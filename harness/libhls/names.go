package libhls

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/SmartBrave/Athena/broadcast"
	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

var vfStreamNames = []string{"x", "a..b", "..", ".", "../x", "../../x", "/x", "sub/x", "sub/../../x", "..x", "./x"}

// Segments stay where they belong whatever the publisher calls the stream.
//
//vf:prop C28
//vf:bounds HLS and DASH, 11 stream names with dots and separators, one stream of two segments, low latency or not
func VfHlsNames() {
	base := nd.TempDir()
	dir := filepath.Join(base, "in", "data")
	nd.Assert(os.MkdirAll(filepath.Join(base, "in", "sub"), 0o755) == nil, "made")
	nd.Assert(os.MkdirAll(dir, 0o755) == nil, "made")
	name := vfStreamNames[nd.Pick("name", 0, len(vfStreamNames)-1)]
	//what a confused Start or Stop would overwrite or remove
	for _, n := range []string{"x-0.ts", "x-1.ts", "0.ts", "1.ts"} {
		nd.Assert(os.WriteFile(filepath.Join(base, "in", n), []byte("keep"), 0o644) == nil, "made")
		nd.Assert(os.WriteFile(filepath.Join(base, n), []byte("keep"), 0o644) == nil, "made")
	}
	before := strings.Join(vfOutside(base, dir), " ")
	h := NewHls().WithStreamID(name).WithDir(dir).WithLowLatency(nd.Bool("low latency"))
	bd := broadcast.NewBroadcast(3)
	bd.WriteMeta(&libflv.MetaTag{TagBase: libflv.TagBase{TagType: libflv.SCRIPT_DATA_TAG}})
	bd.WriteMeta(vfAvcSeq())
	bd.WriteMeta(vfAacSeq(4))
	br := broadcast.NewBroadcastReader(bd)
	done := make(chan struct{})
	go func() {
		h.Start(br)
		close(done)
	}()
	nd.Quiesce()
	bd.Write(vfVideo(false, true, 0, 0, []byte{0x65, 1}))
	bd.Write(vfVideo(false, false, 1000, 0, []byte{0x41, 1}))
	bd.Write(vfVideo(false, true, 2500, 0, []byte{0x65, 1}))
	nd.Quiesce()
	bd.DisAlive()
	<-done
	nd.Assert(strings.Join(vfOutside(base, dir), " ") == before, "nothing outside the segment directory is made")
	if len(nd.ListFiles(dir)) > 0 {
		nd.Reach("segments")
	}
	h.Stop()
	nd.Assert(strings.Join(vfOutside(base, dir), " ") == before, "nothing outside the segment directory is removed")
	for _, n := range []string{"in/x-0.ts", "x-0.ts", "in/1.ts"} {
		nd.Assert(string(nd.Read(filepath.Join(base, n))) == "keep", "nothing outside the segment directory is overwritten")
	}
}

func vfOutside(base, dir string) (out []string) {
	for _, f := range nd.Tree(base) {
		if !strings.Contains(f, "data") {
			out = append(out, f)
		}
	}
	return out
}
