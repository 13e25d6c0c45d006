// mkoverlay writes a `go build -overlay` file that puts the explorer's hooks
// into copies of standard-library files and of the repository's own sources.
// Nothing outside the scratch directory is written.
//
//	mkoverlay -dir SCRATCH [-maprand] [-sched] [-instr pkgdir=file.go,file.go ...]
//
// The overlay is SCRATCH/overlay.json.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	dir     = flag.String("dir", "", "scratch directory")
	maprand = flag.Bool("maprand", false, "own map iteration order and math/rand draws")
	sched   = flag.Bool("sched", false, "own select order, dialling and blocking in bubbles")
	repo    = flag.String("repo", "/repo", "repository")
)

var replace = map[string]string{}
var goroot string
var nfile int

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...)
	os.Exit(3)
}

// put stores the overlay contents of path.
func put(path string, content string) {
	nfile++
	p := filepath.Join(*dir, fmt.Sprintf("ov%03d_%s", nfile, filepath.Base(path)))
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		die("%v", err)
	}
	replace[path] = p
}

func std(rel string) (string, string) {
	p := filepath.Join(goroot, "src", rel)
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	return p, string(b)
}

// patch replaces old, which must occur exactly once, by new in a std file.
func patch(rel string, oldnew ...string) {
	p, s := std(rel)
	for i := 0; i < len(oldnew); i += 2 {
		if strings.Count(s, oldnew[i]) != 1 {
			die("%s: anchor %q occurs %d times", rel, oldnew[i], strings.Count(s, oldnew[i]))
		}
		s = strings.Replace(s, oldnew[i], oldnew[i+1], 1)
	}
	put(p, s)
}

func add(rel, content string) { put(filepath.Join(goroot, "src", rel), content) }

func main() {
	flag.Parse()
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go env: %v", err)
	}
	goroot = strings.TrimSpace(string(b))
	if g, err := filepath.EvalSymlinks(goroot); err == nil {
		goroot = g
	}
	if *maprand {
		doMapRand()
	}
	if *sched {
		doSched()
	}
	for _, a := range flag.Args() {
		rel, files, _ := strings.Cut(a, "=")
		instrument(rel, files)
	}
	out, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*dir, "overlay.json"), out, 0o644); err != nil {
		die("%v", err)
	}
	sites, _ := json.Marshal(siteList)
	os.WriteFile(filepath.Join(*dir, "sites.json"), sites, 0o644)
}

func doMapRand() {
	patch("internal/runtime/maps/table.go",
		"	it.entryOffset = rand()\n	it.dirOffset = rand()\n",
		"	it.entryOffset = rand()\n	it.dirOffset = rand()\n	if VerifOffset >= 0 {\n		it.entryOffset, it.dirOffset = uint64(VerifOffset), uint64(VerifOffset)\n	}\n",
		"func (it *Iter) Init(typ *abi.MapType, m *Map) {",
		"// VerifOffset, when not negative, is the position every map iteration starts at.\nvar VerifOffset int64 = -1\n\nfunc (it *Iter) Init(typ *abi.MapType, m *Map) {")
	add("runtime/verif_maps.go", `package runtime

import "internal/runtime/maps"

// VerifSetMapOffset fixes where map iterations start (-1: random, as usual).
func VerifSetMapOffset(n int64) { maps.VerifOffset = n }
`)
	patch("math/rand/rand.go",
		"func (r *Rand) Int63() int64 { return r.src.Int63() }",
		`func (r *Rand) Int63() int64 {
	if VerifDraw != nil {
		r.verifN++
		return VerifDraw(r.verifN - 1)
	}
	return r.src.Int63()
}

// VerifDraw, when set, supplies the n-th draw of every generator.
var VerifDraw func(n int) int64
`,
		"type Rand struct {\n", "type Rand struct {\n	verifN int\n")
}

func doSched() {
	doSchedStd()
}

// --- instrumentation of the repository's sources -------------------------

type site struct {
	File string `json:"f"`
	Line int    `json:"l"`
}

var siteList []site

func instrument(rel, files string) {
	pk := filepath.Join(*repo, rel)
	names := strings.Split(files, ",")
	if files == "" || files == "*" {
		m, _ := filepath.Glob(filepath.Join(pk, "*.go"))
		names = nil
		for _, f := range m {
			if !strings.HasSuffix(f, "_test.go") {
				names = append(names, filepath.Base(f))
			}
		}
		sort.Strings(names)
	}
	for _, n := range names {
		instrumentFile(filepath.Join(pk, n))
	}
}

func instrumentFile(path string) {
	src, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	type ins struct {
		off  int
		text string
	}
	var all []ins
	point := func(pos token.Pos) {
		p := fset.Position(pos)
		all = append(all, ins{p.Offset, fmt.Sprintf("verifpt.P(%d);", len(siteList))})
		siteList = append(siteList, site{filepath.Base(path), p.Line})
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.LabeledStmt:
				continue
			}
			point(s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			// The body of these is a block of clauses, not of statements.
			var body *ast.BlockStmt
			switch y := x.(type) {
			case *ast.SwitchStmt:
				body = y.Body
			case *ast.TypeSwitchStmt:
				body = y.Body
			case *ast.SelectStmt:
				body = y.Body
			}
			for _, cl := range body.List {
				ast.Inspect(cl, func(m ast.Node) bool { return false })
			}
		}
		return true
	})
	// Blocks of switch/select bodies hold clauses only; drop points put in front of clauses.
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			clause[fset.Position(x.Pos()).Offset] = true
		case *ast.CommClause:
			clause[fset.Position(x.Pos()).Offset] = true
		}
		return true
	})
	if len(all) == 0 {
		return
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
	var sb strings.Builder
	last := 0
	for _, i := range all {
		if clause[i.off] {
			continue
		}
		sb.Write(src[last:i.off])
		sb.WriteString(i.text)
		last = i.off
	}
	sb.Write(src[last:])
	out := sb.String()
	// Import right after the package clause, on the same line.
	pe := fset.Position(f.Name.End()).Offset
	out = out[:pe] + "; import verifpt \"verif.local/harness/pt\"" + out[pe:]
	put(path, out)
}
