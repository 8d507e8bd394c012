package main

// T09: byte order. The second sub-check runs in a program built for a
// big-endian architecture, which an emulator executes.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/gogama/flatgeobuf/packedrtree"
	"pgregory.net/rapid"
)

// archs are the architectures the Go toolchain supports.
var archs = []struct {
	goarch, goos string
	big          bool
}{
	{"386", "linux", false}, {"amd64", "linux", false}, {"arm", "linux", false}, {"arm64", "linux", false},
	{"loong64", "linux", false}, {"mips", "linux", true}, {"mips64", "linux", true}, {"mips64le", "linux", false},
	{"mipsle", "linux", false}, {"ppc64", "linux", true}, {"ppc64", "aix", true}, {"ppc64le", "linux", false}, {"riscv64", "linux", false},
	{"s390x", "linux", true}, {"wasm", "js", false}, {"wasm", "wasip1", false}, {"amd64", "windows", false}, {"arm64", "darwin", false},
}

// beArch is the big-endian architecture the second sub-check runs on.
const beArch = "mips"

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func buildContext(goos, goarch string) build.Context {
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH = goos, goarch
	ctx.CgoEnabled = false
	ctx.BuildTags = nil
	ctx.ToolTags = nil
	return ctx
}

// goFiles returns the non-test files of a package selected for an
// architecture.
func goFiles(dir, goos, goarch string) []string {
	es, err := os.ReadDir(dir)
	if err != nil {
		harnessFail("%v", err)
	}
	ctx := buildContext(goos, goarch)
	var r []string
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			ok, err := ctx.MatchFile(dir, e.Name())
			if err != nil {
				harnessFail("%v", err)
			}
			if ok {
				r = append(r, e.Name())
			}
		}
	}
	sort.Strings(r)
	return r
}

type ArchCase struct{ GOARCH, GOOS string }

var typeCheck struct {
	sync.Mutex
	fset *token.FileSet
	std  map[int64]types.Importer // by word size
}

type repoImporter struct {
	std  types.Importer
	pkgs map[string]*types.Package
}

func (r repoImporter) Import(path string) (*types.Package, error) {
	if p := r.pkgs[path]; p != nil {
		return p, nil
	}
	return r.std.Import(path)
}

// flatbuffersStub declares the FlatBuffers runtime, whose source is in the
// module cache rather than in GOROOT.
func flatbuffersDir() string {
	b, err := os.ReadFile(filepath.Join(repoDir(), "go.mod"))
	if err != nil {
		harnessFail("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "require "))
		if len(f) >= 2 && f[0] == "github.com/google/flatbuffers" {
			for _, root := range []string{os.Getenv("GOMODCACHE"), filepath.Join(os.Getenv("GOPATH"), "pkg/mod"), filepath.Join(build.Default.GOPATH, "pkg/mod")} {
				d := filepath.Join(root, "github.com/google/flatbuffers@"+f[1], "go")
				if _, err := os.Stat(d); err == nil && root != "" {
					return d
				}
			}
		}
	}
	return ""
}

// checkArch type-checks the repository's packages for an architecture and
// returns an error message.
func checkArch(goos, goarch string) string {
	typeCheck.Lock()
	defer typeCheck.Unlock()
	if typeCheck.fset == nil {
		typeCheck.fset = token.NewFileSet()
		typeCheck.std = map[int64]types.Importer{}
	}
	sizes := types.SizesFor("gc", goarch)
	word := sizes.Sizeof(types.Typ[types.Int])
	// The importer reads build.Default when it imports.
	build.Default.CgoEnabled = false
	build.Default.GOOS, build.Default.GOARCH = "linux", "amd64"
	if word == 4 {
		build.Default.GOARCH = "386"
		build.Default.ToolTags = nil // register arguments and the like
	}
	if typeCheck.std[word] == nil {
		typeCheck.std[word] = importer.ForCompiler(typeCheck.fset, "source", nil)
	}
	imp := repoImporter{typeCheck.std[word], map[string]*types.Package{}}
	const mod = "github.com/gogama/flatgeobuf/"
	todo := [][2]string{{mod + "packedrtree", filepath.Join(repoDir(), "packedrtree")}}
	if fb := flatbuffersDir(); fb != "" {
		todo = append(todo, [2]string{"github.com/google/flatbuffers/go", fb}, [2]string{mod + "flatgeobuf/flat", filepath.Join(repoDir(), "flatgeobuf/flat")}, [2]string{mod + "flatgeobuf", filepath.Join(repoDir(), "flatgeobuf")})
	}
	for _, p := range todo {
		var files []*ast.File
		for _, n := range goFiles(p[1], goos, goarch) {
			f, err := parser.ParseFile(typeCheck.fset, filepath.Join(p[1], n), nil, parser.SkipObjectResolution)
			if err != nil {
				return err.Error()
			}
			files = append(files, f)
		}
		cfg := types.Config{Importer: imp, Sizes: sizes, FakeImportC: true}
		pkg, err := cfg.Check(p[0], typeCheck.fset, files, nil)
		if err != nil {
			if strings.Contains(err.Error(), "could not import") {
				harnessFail("%v", err)
			}
			return err.Error()
		}
		imp.pkgs[p[0]] = pkg
	}
	return ""
}

func runArch(c ArchCase, x *Ctx) {
	big, ok := false, false
	for _, a := range archs {
		if a.goarch == c.GOARCH {
			big, ok = a.big, true
		}
	}
	if !ok {
		return
	}
	x.NT()
	x.LabelIf(big, "big-endian")
	if msg := checkArch(c.GOOS, c.GOARCH); msg != "" {
		x.Failf("the packages do not compile for %s/%s: %s", c.GOOS, c.GOARCH, msg)
	}
	dir := filepath.Join(repoDir(), "packedrtree")
	host := strings.Join(goFiles(dir, "linux", "amd64"), " ")
	be := strings.Join(goFiles(dir, "linux", beArch), " ")
	mine := strings.Join(goFiles(dir, c.GOOS, c.GOARCH), " ")
	if host == be {
		x.Label("same code for all byte orders")
		return
	}
	if big && mine == host {
		x.Failf("%s/%s is big-endian but is built from the same files as amd64: %s", c.GOOS, c.GOARCH, mine)
	}
	if !big && mine == be {
		x.Failf("%s/%s is little-endian but is built from the same files as %s: %s", c.GOOS, c.GOARCH, beArch, mine)
	}
}

type EndianCase struct {
	L        RefList
	NodeSize uint16
	Queries  []RBox
	Frag     Frag
	Prefix   int
	FaultAt  []int // positions at which the output stream fails
}

// runEndian compares index bytes with the reference encoder.
func runEndian(c EndianCase, x *Ctx) {
	x.LabelIf(bigEndianHost, "on a big-endian machine")
	refs := sortedRefs(&c.L, false)
	boxes, offs := split(refs)
	tree := newRefTree(boxes, offs, int(c.NodeSize))
	x.NT()
	x.LabelIf(40*len(tree.boxes) > 8096, "longer than 8096 bytes")
	prt := mustNew(x, refs, c.NodeSize)
	search := func(what string, p *packedrtree.PackedRTree) {
		for _, q := range c.Queries {
			checkHits(x, what, q, p.Search(q.b().box()), bruteSearch(boxes, offs, q.b()))
		}
	}
	var out bytes.Buffer
	n, err := prt.Marshal(&out)
	if err != nil || n != out.Len() || n != 40*len(tree.boxes) {
		x.Failf("Marshal of %d nodes returns %d, %v after writing %d bytes", len(tree.boxes), n, err, out.Len())
	}
	compareIndex(x, "Marshal", out.Bytes(), tree)
	search("Search after Marshal", prt)
	for _, at := range c.FaultAt {
		s := newSink()
		s.faultPos = at % (out.Len() + 1)
		n, err := prt.Marshal(s.w())
		if n != len(s.data) || s.faulted > 0 && !errors.Is(err, errInjected) || s.faulted == 0 && err != nil {
			x.Failf("Marshal returns %d, %v; the stream accepted %d bytes and then failed %d times", n, err, len(s.data), s.faulted)
		}
		if !bytes.Equal(s.data, out.Bytes()[:len(s.data)]) || s.after > 0 {
			x.Failf("Marshal to a failing stream writes different bytes, or continues after the failure")
		}
	}
	search("Search after failed Marshal", prt)
	if len(refs) < 2000 {
		// The index stays usable while it is being written.
		mid := &callingWriter{f: func() { search("Search within Marshal", prt) }}
		if _, err := prt.Marshal(mid); err != nil || !bytes.Equal(mid.b, out.Bytes()) {
			x.Failf("Marshal to a stream that searches the index: %v, or other bytes", err)
		}
	}
	stored := tree.bytes()
	s := newStream(stored)
	s.frag = c.Frag
	back, err := packedrtree.Unmarshal(s.r(), len(refs), c.NodeSize)
	if err != nil || back == nil {
		x.Failf("Unmarshal: %v", err)
	}
	search("Search after Unmarshal", back)
	out.Reset()
	if _, err = back.Marshal(&out); err != nil || !bytes.Equal(out.Bytes(), stored) {
		x.Failf("Marshal of the loaded index gives different bytes (%v)", err)
	}
	for _, q := range c.Queries {
		s := newStream(append(junk(c.Prefix), stored...))
		s.frag = c.Frag
		s.pos = int64(c.Prefix)
		got, err := packedrtree.Seek(s.rs(), len(refs), c.NodeSize, q.b().box())
		if err != nil {
			x.Failf("Seek: %v", err)
		}
		checkHits(x, "Seek", q, got, bruteSearch(boxes, offs, q.b()))
	}
}

// callingWriter calls a function before it takes anything.
type callingWriter struct {
	b []byte
	f func()
}

func (w *callingWriter) Write(p []byte) (int, error) {
	w.f()
	w.b = append(w.b, p...)
	return len(p), nil
}

var bigEndianHost = binary.NativeEndian.Uint16([]byte{1, 2}) == 0x102

func init() {
	register(&Prop{ID: "T09", Rule: "(architectures) every architecture the Go toolchain supports: the files selected by the build constraints type-check with that architecture's sizes, and big- and little-endian architectures do not share byte-order files; (bytes) rapid draws indexes; a program built for a big-endian architecture (GOARCH=mips), executed by an emulator, compares what it writes and reads with the reference encoder, including failing output streams. Non-trivial: every case.",
		Assum: []string{"one big-endian architecture can be run here (mips, in an emulator of the instruction set which is part of the check); for the others the same files must be selected"},
		Subs: []*Sub{
			hostOnly(sub[ArchCase]("architectures", 0, 0, nil, runArch, func() (r []ArchCase) {
				for _, a := range archs {
					r = append(r, ArchCase{a.goarch, a.goos})
				}
				return
			})),
			sub("bytes", 16000, 600000, func(t *rapid.T) EndianCase {
				c := EndianCase{NodeSize: drawNodeSize(t)}
				c.L = drawRefList(t, c.NodeSize, 60, 1500)
				c.Queries = drawQueries(t, &c.L, 2)
				c.Frag = drawFrag(t)
				c.Prefix = pick(t, []int{0, 8, 13}, "prefix")
				for i := drawInt(t, 0, 3, "nf"); i > 0; i-- {
					c.FaultAt = append(c.FaultAt, drawInt(t, 0, 70000, "at"))
				}
				return c
			}, runEndian, func() (r []EndianCase) {
				for _, b := range bigTrees {
					r = append(r, EndianCase{L: b.list(), NodeSize: b.ns, Queries: bigQueries, Prefix: 8, FaultAt: []int{655360, 655361, 1 << 20}})
				}
				return
			}),
		}})
}
