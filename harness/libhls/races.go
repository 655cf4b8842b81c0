package libhls

import (
	"time"

	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// A segmenter, its source and its viewers run at the same time.
//
//vf:prop C35
//vf:opt race
//vf:bounds a stream of eight tags in three segments, of low latency or not; a viewer that reads the playlist twice, one that waits for a part, one that waits for the first segment, and Stop, each at one of four times (thorough: six)
func VfRaceSegments() {
	ll := nd.Bool("low latency")
	r := vfStart("cam", false, ll)
	h := r.h
	done := make(chan struct{}, 8)
	n := 0
	at := func(label string, f func()) {
		d := 5 + 20*time.Duration(nd.Pick(label, 0, nd.Bound(3, 5)))
		n++
		go func() {
			time.Sleep(d * time.Millisecond)
			f()
			done <- struct{}{}
		}()
	}
	tags := []libflv.Tag{
		vfVideo(false, true, 0, 0, []byte{0x65, 1}),
		vfVideo(false, false, 400, 0, []byte{0x41, 1}),
		vfAudio(410, []byte{1, 2, 3}),
		vfVideo(false, false, 800, 0, []byte{0x41, 1}),
		vfVideo(false, true, 3000, 0, []byte{0x65, 1}),
		vfVideo(false, false, 3400, 0, []byte{0x41, 1}),
		vfVideo(false, true, 6000, 0, []byte{0x65, 1}),
		vfVideo(false, true, 9000, 0, []byte{0x65, 1}),
	}
	n++
	go func() {
		for _, t := range tags {
			r.write(t)
			time.Sleep(10 * time.Millisecond)
		}
		done <- struct{}{}
	}()
	at("playlist", func() {
		h.Playlist()
		time.Sleep(20 * time.Millisecond)
		h.Playlist()
		h.Dir()
		h.LowLatency()
	})
	if nd.Bool("a part") {
		at("wait", func() { h.WaitForPlaylist(1, 0, 100*time.Millisecond) })
	} else {
		at("wait", func() { h.WaitFirstSegment() })
	}
	at("stop", func() { h.Stop() })
	for ; n > 0; n-- {
		<-done
	}
	r.bd.DisAlive()
	<-r.done
	nd.Reach("end")
}
