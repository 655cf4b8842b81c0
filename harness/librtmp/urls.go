package librtmp

import (
	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// vfPath draws a path of a few kinds of characters.
func vfPath(n int) string {
	b := nd.Bytes("path", n)
	for i := range b {
		nd.Assume(nd.Or(b[i] == '/', b[i] == '.', nd.And(b[i] >= '0', b[i] <= '9'), nd.And(b[i] >= 'a', b[i] <= 'z'), b[i] == '-', b[i] == '_'))
	}
	if n > 0 {
		nd.Assume(b[0] != '/') //"//host" would be another address
	}
	return string(b)
}

// vfNames takes a path apart: the names that are left when "" and "." are
// dropped and ".." takes back one.
func vfNames(p string) (names []string) {
	for len(p) > 0 {
		i := 0
		for i < len(p) && p[i] != '/' {
			i++
		}
		s := p[:i]
		if i < len(p) {
			i++
		}
		p = p[i:]
		switch s {
		case "", ".":
		case "..":
			if len(names) > 0 {
				names = names[:len(names)-1]
			}
		default:
			names = append(names, s)
		}
	}
	return names
}

// Addresses of FLV viewers.
//
//vf:prop C28
//vf:bounds every path of up to 5 (thorough 6) slashes, dots, digits, lower case letters, '-' and '_', with .flv behind it or not, and a query or not
func VfFlvURL() {
	p := "/" + vfPath(nd.Pick("length", 0, nd.Bound(5, 6)))
	if nd.Bool("flv") {
		p += ".flv"
	}
	names := vfNames(p[1:])
	q := ""
	if nd.Bool("query") {
		q = "?k=/../v.flv"
	}
	app, room, ok := parseFlvURL(p + q)
	good := len(names) == 2 && len(names[1]) > 4 && names[1][len(names[1])-4:] == ".flv"
	nd.Assert(ok == good, "exactly /app/stream.flv is an address")
	if ok {
		nd.Assert(app == names[0] && room == names[1][:len(names[1])-4], "application and stream")
		nd.Reach("address")
	} else {
		nd.Reach("refused")
	}
}

// Addresses of segments and playlists.
//
//vf:prop C28
//vf:bounds every path of up to 6 (thorough 7) slashes, dots, digits, lower case letters, '-' and '_', and a query or not
func VfSegmentURL() {
	p := "/" + vfPath(nd.Pick("length", 0, nd.Bound(6, 7)))
	names := vfNames(p[1:])
	q := ""
	if nd.Bool("query") {
		q = "?_HLS_msn=1/../x"
	}
	app, room, file, ok := parseHlsURL(p + q)
	nd.Assert(ok == (len(names) == 3), "exactly /app/stream/file is an address")
	if ok {
		nd.Assert(app == names[0] && room == names[1] && file == names[2], "application, stream and file")
		nd.Assert(file != ".." && file != ".", "the file is a plain name")
		for i := 0; i < len(file); i++ {
			nd.Assert(file[i] != '/', "the file is a plain name")
		}
		nd.Reach("address")
	} else {
		nd.Reach("refused")
	}
}
