package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// dict holds the constants of the code under test. The workloads mix them, and values next to them,
// with their own edge cases, because code tends to change its behaviour at the constants it mentions.
// No verdict depends on it.
var dict struct {
	ints []uint64
	strs []string
}

// loadDict collects the values of all constant expressions of the packages below root, tests excluded.
func loadDict(root string) {
	if root == "" {
		return
	}
	dirs := map[string]bool{}
	_ = filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		name := d.Name()
		if d.IsDir() && path != root && (strings.HasPrefix(name, ".") || name == "testdata" || name == "vendor") {
			return filepath.SkipDir
		}
		if isSource(name) {
			dirs[filepath.Dir(path)] = true
		}
		return nil
	})
	im := &sourceImporter{root: root, fset: token.NewFileSet(), done: map[string]*types.Package{}, info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}}
	var sorted []string
	for d := range dirs {
		sorted = append(sorted, d)
	}
	sort.Strings(sorted)
	for _, d := range sorted {
		im.load(d)
	}
	ints, strs := map[uint64]bool{}, map[string]bool{}
	for _, tv := range im.info.Types {
		if tv.Value == nil {
			continue
		}
		switch tv.Value.Kind() {
		case constant.Int:
			if u, exact := constant.Uint64Val(tv.Value); exact {
				ints[u] = true
			} else if i, exact := constant.Int64Val(tv.Value); exact {
				ints[uint64(-i)] = true
			}
		case constant.Float:
			if i := constant.ToInt(tv.Value); i.Kind() == constant.Int {
				if u, exact := constant.Uint64Val(i); exact {
					ints[u] = true
				}
			}
		case constant.String:
			strs[constant.StringVal(tv.Value)] = true
		}
	}
	for u := range ints {
		if u > 2 {
			dict.ints = append(dict.ints, u)
		}
	}
	for s := range strs {
		if s != "" && len(s) < 100 && !strings.ContainsAny(s, " %") { // leaves out most error messages
			dict.strs = append(dict.strs, s)
		}
	}
	sort.Slice(dict.ints, func(i, j int) bool { return dict.ints[i] < dict.ints[j] })
	sort.Strings(dict.strs)
}

func isSource(name string) bool {
	return strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go")
}

// sourceImporter type-checks the packages of the repository, ignoring what it cannot make sense of.
type sourceImporter struct {
	root string
	fset *token.FileSet
	done map[string]*types.Package
	info *types.Info
}

func (im *sourceImporter) load(dir string) *types.Package {
	if p, ok := im.done[dir]; ok {
		return p
	}
	im.done[dir] = nil
	entries, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	var files []*ast.File
	for _, e := range entries {
		if e.IsDir() || !isSource(e.Name()) {
			continue
		}
		if f, _ := parser.ParseFile(im.fset, filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution); f != nil {
			files = append(files, f)
		}
	}
	conf := types.Config{Importer: im, Error: func(error) {}, FakeImportC: true}
	p, _ := conf.Check(strings.TrimPrefix(dir, im.root), im.fset, files, im.info)
	im.done[dir] = p
	return p
}

// Import knows the packages of the repository and the ones with constants that matter.
func (im *sourceImporter) Import(path string) (*types.Package, error) {
	if rest, ok := strings.CutPrefix(path, strings.TrimSuffix(modulePath, "/")); ok {
		if p := im.load(filepath.Join(im.root, rest)); p != nil {
			return p, nil
		}
	} else if path == "math" {
		if p, ok := im.done[path]; ok {
			return p, nil
		}
		im.done[path] = mathPackage()
		return im.done[path], nil
	}
	return nil, os.ErrNotExist
}

// mathPackage has the limits of the integer types.
func mathPackage() *types.Package {
	p := types.NewPackage("math", "math")
	for name, bits := range map[string]uint{"MaxUint8": 8, "MaxUint16": 16, "MaxUint32": 32, "MaxUint64": 64, "MaxInt8": 7, "MaxInt16": 15, "MaxInt32": 31, "MaxInt64": 63} {
		v := constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, bits), token.SUB, constant.MakeInt64(1))
		p.Scope().Insert(types.NewConst(token.NoPos, p, name, types.Typ[types.UntypedInt], v))
	}
	p.MarkComplete()
	return p
}

// Const returns a number between 0 and limit that is, or is close to, a constant of the code.
func (r *Rand) Const(limit uint64) (uint64, bool) {
	if len(dict.ints) == 0 {
		return 0, false
	}
	if r.focus == nil { // a case concentrates on few
		for i := r.In(1, 3); i > 0; i-- {
			r.focus = append(r.focus, dict.ints[r.N(len(dict.ints))])
		}
	}
	for try := 0; try < 4; try++ {
		v := r.focus[r.N(len(r.focus))]
		if try > 1 || r.P(1, 3) {
			v = dict.ints[r.N(len(dict.ints))]
		}
		switch r.N(10) {
		case 0, 1:
			v++
		case 2, 3:
			v--
		case 4:
			v *= uint64(r.In(2, 9))
		case 5:
			v = v*uint64(r.In(1, 9)) + r.Uint64()%v
		}
		if v <= limit {
			return v, true
		}
	}
	return 0, false
}

// Len returns a length between 0 and limit that is, or is close to, a constant of the code, otherwise n.
func (r *Rand) Len(limit, n int) int {
	if v, ok := r.Const(uint64(limit)); ok {
		return int(v)
	}
	return n
}

// plantConst writes a constant of the code somewhere into b.
func (r *Rand) plantConst(b []byte) {
	width := choose(r, 1, 1, 2, 4, 8)
	if len(b) < width {
		return
	}
	limit := ^uint64(0) >> (64 - 8*width)
	v, ok := r.Const(limit)
	if len(dict.strs) > 0 && r.P(1, 6) {
		if s := dict.strs[r.N(len(dict.strs))]; len(s) <= len(b) {
			copy(b[choose(r, 0, 0, r.N(len(b)-len(s)+1)):], s)
			return
		}
	}
	if !ok {
		return
	}
	at := choose(r, 0, len(b)-width, r.N(len(b)-width+1))
	copy(b[at:], bePut(nil, v, 8*width))
}

// dictEnv hands the numbers to a child process.
func dictEnv() string { return "VMON_CONSTS=" + strings.Trim(fmt.Sprint(dict.ints), "[]") }

func dictFromEnv() {
	for _, f := range strings.Fields(os.Getenv("VMON_CONSTS")) {
		if u, err := strconv.ParseUint(f, 10, 64); err == nil {
			dict.ints = append(dict.ints, u)
		}
	}
}
