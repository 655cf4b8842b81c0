package interp

import (
	"path"
	"sort"
	"strings"
)

// memFS is the in-memory file-system stub used while encoding.
type memFS struct {
	files map[string]*memFile
	dirs  map[string]bool
	seq   int
}

type memFile struct {
	name string
	data []Value
}

type openFile struct {
	f      *memFile
	pos    int
	closed bool
	name   string
}

func newMemFS() *memFS {
	return &memFS{files: map[string]*memFile{}, dirs: map[string]bool{"/": true, "/tmp": true}}
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	return path.Clean(p)
}

func (f *memFS) mkdirAll(p string) {
	p = clean(p)
	for p != "/" {
		f.dirs[p] = true
		p = path.Dir(p)
	}
}

func (f *memFS) names(dir string) []string {
	dir = clean(dir)
	var out []string
	for n := range f.files {
		if path.Dir(n) == dir {
			out = append(out, path.Base(n))
		}
	}
	for n := range f.dirs {
		if n != dir && path.Dir(n) == dir {
			out = append(out, path.Base(n))
		}
	}
	sort.Strings(out)
	return out
}
