package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Harness is one entry function found under /verif/harness.
type Harness struct {
	Prop   string
	Pkg    string // directory under the repo
	File   string // absolute harness file
	Func   string
	Bounds string
	Known  string // id of the known finding this harness pins, if any
	Tier   string // "" = both, "thorough" = thorough only
	Reach  []string
	Steps  int64
	Depth  int
	Alloc  int
	Fork   int
	Paths  int
	Secs   int
	Raw    bool
	Race   bool
	NoMrg  bool
	Weight int
}

type harnessFile struct {
	pkg, path string
	hs        []*Harness
	props     map[string]bool
}

func scanHarnesses(root string) ([]*harnessFile, error) {
	var out []*harnessFile
	dirs, err := os.ReadDir(root)
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "verifnd" {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(root, d.Name(), "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			hf := &harnessFile{pkg: d.Name(), path: f, props: map[string]bool{}}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			for _, dcl := range af.Decls {
				fd, ok := dcl.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				h := &Harness{Pkg: d.Name(), File: f, Func: fd.Name.Name, Steps: 20_000_000, Depth: 400, Alloc: 1 << 16, Fork: 70000}
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if !strings.HasPrefix(t, "vf:") {
						continue
					}
					k, v, _ := strings.Cut(t[3:], " ")
					v = strings.TrimSpace(v)
					switch k {
					case "prop":
						h.Prop = v
					case "bounds":
						if h.Bounds != "" {
							h.Bounds += " "
						}
						h.Bounds += v
					case "known":
						h.Known = v
					case "tier":
						h.Tier = v
					case "opt":
						for _, kv := range strings.Fields(v) {
							a, b, _ := strings.Cut(kv, "=")
							n, _ := strconv.ParseInt(b, 10, 64)
							switch a {
							case "steps":
								h.Steps = n
							case "depth":
								h.Depth = int(n)
							case "alloc":
								h.Alloc = int(n)
							case "fork":
								h.Fork = int(n)
							case "paths":
								h.Paths = int(n)
							case "secs":
								h.Secs = int(n)
							case "raw":
								h.Raw = true
							case "race":
								h.Race = true
							case "nomerge":
								h.NoMrg = true
							default:
								return nil, fmt.Errorf("%s: bad opt %q", f, kv)
							}
						}
					default:
						return nil, fmt.Errorf("%s: unknown directive %q", f, t)
					}
				}
				if h.Prop == "" {
					continue
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					ce, ok := n.(*ast.CallExpr)
					if !ok {
						return true
					}
					if se, ok := ce.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Reach" && len(ce.Args) == 1 {
						if bl, ok := ce.Args[0].(*ast.BasicLit); ok {
							s, _ := strconv.Unquote(bl.Value)
							h.Reach = append(h.Reach, s)
						}
					}
					return true
				})
				hf.hs = append(hf.hs, h)
				hf.props[h.Prop] = true
			}
			out = append(out, hf)
		}
	}
	return out, nil
}
