package libdash

import (
	"time"

	"github.com/sbraveyoung/GGmpeg/libflv"
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// A segmenter, its source and its viewers run at the same time.
//
//vf:prop C35
//vf:opt race
//vf:bounds a stream of six pictures in four segments, its header renewed or not; a viewer that reads the manifest and the init segment, one that waits for the first segment, and Stop, each at one of four times (thorough: six)
func VfRaceSegments() {
	r := vfStart(vfHeader(false, vfRecord()))
	d := r.d
	done := make(chan struct{}, 8)
	n := 0
	at := func(label string, f func()) {
		t := 5 + 20*time.Duration(nd.Pick(label, 0, nd.Bound(3, 5)))
		n++
		go func() {
			time.Sleep(t * time.Millisecond)
			f()
			done <- struct{}{}
		}()
	}
	pic := []byte{0, 0, 0, 2, 0x65, 1}
	tags := []libflv.Tag{
		vfTag(false, true, 0, 0, pic),
		vfTag(false, false, 400, 0, pic),
		vfTag(false, true, 3000, 0, pic),
		vfTag(false, false, 3400, 0, pic),
		vfTag(false, true, 6000, 0, pic),
		vfTag(false, true, 9000, 0, pic),
	}
	if nd.Bool("renewed") {
		tags = append(tags[:3:3], append([]libflv.Tag{vfHeader(false, vfRecord())}, tags[3:]...)...)
	}
	n++
	go func() {
		for _, t := range tags {
			r.bd.Write(t)
			time.Sleep(10 * time.Millisecond)
		}
		done <- struct{}{}
	}()
	at("manifest", func() {
		d.InitSegment()
		d.Manifest()
		time.Sleep(20 * time.Millisecond)
		d.Manifest()
		d.InitSegment()
		d.Dir()
	})
	at("wait", func() { d.WaitFirstSegment(); d.Manifest() })
	at("stop", func() { d.Stop() })
	for ; n > 0; n-- {
		<-done
	}
	r.bd.DisAlive()
	<-r.done
	nd.Reach("end")
}
