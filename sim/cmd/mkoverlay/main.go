// mkoverlay writes the build overlay of the simulator:
//
//   - patched copies of a few Go runtime/net/net/http files, so that the
//     scheduler, the clock, timers, randomness, dialing and listening of the
//     worker process are decided by the simulator;
//   - instrumented copies of the packages under test, with a yield point
//     before every statement.
//
// Nothing is written outside the output directory.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

type edit struct{ old, new string }

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mkoverlay: "+f+"\n", a...)
	os.Exit(3)
}

var (
	repo   = flag.String("repo", "/repo", "repository under test")
	out    = flag.String("out", "", "output directory")
	rt     = flag.String("rt", "", "directory with zsim.go.txt")
	svcdir = flag.String("svc", "/verif/sim/svc", "directory the service entry point appears in")
	whole  = flag.Bool("whole", false, "leave assignments in one piece")
	goroot = flag.String("goroot", runtime.GOROOT(), "GOROOT")
)

var replace = map[string]string{}

func write(rel, data string) string {
	p := filepath.Join(*out, rel)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	// Keep the file (and its mtime) when nothing changed.
	if b, err := os.ReadFile(p); err == nil && string(b) == data {
		return p
	}
	if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
		die("%v", err)
	}
	return p
}

func patch(rel string, edits []edit) {
	src := filepath.Join(*goroot, "src", rel)
	b, err := os.ReadFile(src)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for _, e := range edits {
		if n := strings.Count(s, e.old); n != 1 {
			die("%s: anchor occurs %d times, want 1: %q", rel, n, e.old)
		}
		s = strings.Replace(s, e.old, e.new, 1)
	}
	replace[src] = write(filepath.Join("std", rel), s)
}

func patchStd() {
	z, err := os.ReadFile(filepath.Join(*rt, "zsim.go.txt"))
	if err != nil {
		die("%v", err)
	}
	replace[filepath.Join(*goroot, "src/runtime/zsim.go")] = write("std/runtime/zsim.go", string(z))

	patch("runtime/runtime2.go", []edit{
		{"\tcgoCtxt         []uintptr      // cgo traceback context\n",
			"\tcgoCtxt         []uintptr      // cgo traceback context\n\tsimTag uint32\n\tsimPrio uint64\n"},
	})
	patch("runtime/proc.go", []edit{
		// Own run queue.
		{"func runqput(pp *p, gp *g, next bool) {\n",
			"func runqput(pp *p, gp *g, next bool) {\n\tif simOn {\n\t\tsimPut(gp)\n\t\treturn\n\t}\n"},
		{"func runqget(pp *p) (gp *g, inheritTime bool) {\n",
			"func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simOn {\n\t\treturn simFind(pp), false\n\t}\n\treturn simRunqgetReal(pp)\n}\n\nfunc simRunqgetReal(pp *p) (gp *g, inheritTime bool) {\n"},
		{"\t// now and pollUntil are saved for work stealing later,\n",
			"\tif simOn {\n\t\treturn simFind(pp), false, false\n\t}\n\n\t// now and pollUntil are saved for work stealing later,\n"},
		{"\tif preempted && sched.gcwaiting.Load() {\n\t\t// If preempted for STW,",
			"\tif simOn {\n\t\tsimPut(gp)\n\t} else if preempted && sched.gcwaiting.Load() {\n\t\t// If preempted for STW,"},
		{"\tif mainStarted {\n\t\twakep()\n\t}\n\n\tschedule()\n}\n\n// Gosched continuation on g0.",
			"\tif mainStarted && !simOn {\n\t\twakep()\n\t}\n\n\tschedule()\n}\n\n// Gosched continuation on g0."},
		// New goroutines belong to the node that starts them.
		{"\tnewg.parentGoid = callergp.goid\n", "\tnewg.parentGoid = callergp.goid\n\tsimNewg(newg, callergp)\n"},
		// The monitor thread neither retakes nor preempts nor polls.
		{"\t\tusleep(delay)\n\n\t\t// sysmon should not enter deep sleep",
			"\t\tusleep(delay)\n\t\tif simOn {\n\t\t\tusleep(10000)\n\t\t\tcontinue\n\t\t}\n\n\t\t// sysmon should not enter deep sleep"},
		{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif faketime != 0 {\n\t\treturn 0\n\t}\n"},
	})
	patch("runtime/rand.go", []edit{
		// Fixed start state: hash seeds and per-thread generators.
		{"\tseed := &globalRand.seed\n\tif len(startupRand) >= 16 &&",
			"\tseed := &globalRand.seed\n\tif true {\n\t\tfor i := range seed {\n\t\t\tseed[i] = byte(i*37 + 11)\n\t\t}\n\t} else if len(startupRand) >= 16 &&"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn {\n\t\treturn simRand()\n\t}\n"},
		{"\t// Overwrite startupRand instead of clearing it,", "\t// (sim) Overwrite startupRand instead of clearing it,"},
	})
	patch("runtime/select.go", []edit{
		{"\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := simCheapn(uint32(norder + 1))\n"},
	})
	patch("runtime/sema.go", []edit{
		{"\ts.ticket = cheaprand() | 1\n", "\ts.ticket = simCheap() | 1\n"},
	})
	patch("runtime/time.go", []edit{
		{"\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = simCheap()\n"},
	})
	patch("runtime/time_fake.go", []edit{
		{"\treturn faketime / 1e9, int32(faketime % 1e9), faketime\n",
			"\tw := faketime\n\tif simOn {\n\t\tif gp := getg().m.curg; gp != nil {\n\t\t\tw += simWall[gp.simTag%simMaxTags]\n\t\t}\n\t}\n\treturn w / 1e9, int32(w % 1e9), faketime\n"},
	})
	patch("net/dial.go", []edit{
		{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
			"var SimDial func(ctx context.Context, network, address string) (Conn, error)\nvar SimListen func(ctx context.Context, network, address string) (Listener, error)\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif SimDial != nil {\n\t\tctx, cancel := d.dialCtx(ctx)\n\t\tdefer cancel()\n\t\treturn SimDial(ctx, network, address)\n\t}\n"},
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
			"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif SimListen != nil {\n\t\treturn SimListen(ctx, network, address)\n\t}\n"},
	})
	// Every simulated node is its own process as far as the default HTTP
	// request multiplexer is concerned.
	patch("net/http/server.go", []edit{
		{"var DefaultServeMux = &defaultServeMux\n",
			"var DefaultServeMux = &defaultServeMux\nvar SimMux func() *ServeMux\n\nfunc simMux() *ServeMux {\n\tif SimMux != nil {\n\t\treturn SimMux()\n\t}\n\treturn DefaultServeMux\n}\n"},
		{"\t\tDefaultServeMux.mux121.handle(pattern, handler)\n", "\t\tsimMux().mux121.handle(pattern, handler)\n"},
		{"\t\tDefaultServeMux.register(pattern, handler)\n", "\t\tsimMux().register(pattern, handler)\n"},
		{"\t\tDefaultServeMux.mux121.handleFunc(pattern, handler)\n", "\t\tsimMux().mux121.handleFunc(pattern, handler)\n"},
		{"\t\tDefaultServeMux.register(pattern, HandlerFunc(handler))\n", "\t\tsimMux().register(pattern, HandlerFunc(handler))\n"},
		{"\t\thandler = DefaultServeMux\n", "\t\thandler = simMux()\n"},
	})
}

// place tells whether an assignment's left side can be written out twice, and
// may be something other goroutines have too: a variable of a function that
// has closures, a variable of the package or part of something.
func place(x ast.Expr, own map[string]bool, closures bool) bool {
	switch t := x.(type) {
	case *ast.Ident:
		return t.Name != "_" && (closures || own[t.Name])
	case *ast.SelectorExpr:
		return plain(t.X)
	case *ast.StarExpr:
		return plain(t.X)
	case *ast.IndexExpr:
		return plain(t.X) && plain(t.Index)
	}
	return false
}

func plain(x ast.Expr) bool {
	switch t := x.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return plain(t.X)
	case *ast.StarExpr:
		return plain(t.X)
	case *ast.ParenExpr:
		return plain(t.X)
	case *ast.IndexExpr:
		return plain(t.X) && plain(t.Index)
	}
	return false
}

// typed tells whether a right side has a type by itself.
func typed(src func(ast.Node) string, lhs, rhs ast.Expr) bool {
	switch t := rhs.(type) {
	case *ast.CallExpr:
		if id, ok := t.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "min", "max", "complex", "real", "imag":
				return false
			}
		}
		return true
	case *ast.BinaryExpr:
		switch t.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
			return src(t.X) == src(lhs) || src(t.Y) == src(lhs) || typed(src, lhs, t.X)
		}
	case *ast.ParenExpr:
		return typed(src, lhs, t.X)
	}
	return false
}

// instrument returns the file with a yield before every statement, and in
// assignments to what may be shared one more between finding the value and
// storing it. Packages listed as light get one per function only.
func instrument(path string, light bool) (string, int) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, b, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	type ins struct {
		off  int
		text string
		skip int
	}
	var is []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	src := func(x ast.Node) string { return string(b[off(x.Pos()):off(x.End())]) }
	own := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				for _, id := range sp.(*ast.ValueSpec).Names {
					own[id.Name] = true
				}
			}
		}
	}
	// Type inference needs a newer language than the module asks for.
	constrained := *whole || strings.Contains(string(b[:off(f.Name.Pos())]), "//go:build")
	closures := false
	split := func(s ast.Stmt) {
		if constrained {
			return
		}
		switch t := s.(type) {
		case *ast.AssignStmt:
			if len(t.Lhs) != 1 || len(t.Rhs) != 1 || t.Tok == token.DEFINE || !place(t.Lhs[0], own, closures) {
				return
			}
			end := off(t.Rhs[0].End())
			if t.Tok != token.ASSIGN {
				op := strings.TrimSuffix(t.Tok.String(), "=")
				is = append(is, ins{off(t.TokPos), "= zzrt.SimAfter(" + src(t.Lhs[0]) + " " + op + " (", len(t.Tok.String())}, ins{end, "))", 0})
			} else if typed(src, t.Lhs[0], t.Rhs[0]) {
				is = append(is, ins{off(t.Rhs[0].Pos()), "zzrt.SimAfter(", 0}, ins{end, ")", 0})
			}
		case *ast.IncDecStmt:
			if place(t.X, own, closures) {
				is = append(is, ins{off(t.TokPos), "= zzrt.SimAfter(" + src(t.X) + " " + t.Tok.String()[:1] + " 1)", 2})
			}
		}
	}
	n := 0
	seen := map[int]bool{}
	add := func(p token.Pos) {
		off := fset.Position(p).Offset
		if seen[off] {
			return
		}
		seen[off] = true
		is = append(is, ins{off, "zzrt.SimYield(); ", 0})
		n++
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			if c, ok := s.(*ast.CaseClause); ok {
				_ = c
				continue
			}
			if _, ok := s.(*ast.CommClause); ok {
				continue
			}
			add(s.Pos())
			split(s)
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch t := x.(type) {
		case *ast.FuncDecl:
			closures = false
			if t.Body != nil {
				ast.Inspect(t.Body, func(x ast.Node) bool {
					if _, ok := x.(*ast.FuncLit); ok {
						closures = true
					}
					return true
				})
			}
			if t.Body != nil && light && len(t.Body.List) > 0 {
				add(t.Body.List[0].Pos())
			}
		case *ast.BlockStmt:
			if !light {
				stmts(t.List)
			}
		case *ast.CaseClause:
			if !light {
				stmts(t.Body)
			}
		case *ast.CommClause:
			if !light {
				stmts(t.Body)
			}
		}
		return true
	})
	if n == 0 {
		return "", 0
	}
	is = append(is, ins{fset.Position(f.Name.End()).Offset, "; import zzrt \"runtime\"", 0})
	sort.SliceStable(is, func(i, j int) bool { return is[i].off < is[j].off })
	var sb strings.Builder
	if !constrained {
		sb.WriteString("//go:build go1.21\n\n")
	}
	last := 0
	for _, e := range is {
		sb.Write(b[last:e.off])
		sb.WriteString(e.text)
		last = e.off + e.skip
	}
	sb.Write(b[last:])
	sb.WriteString("\nvar _ = zzrt.SimYield\n")
	return sb.String(), n
}

// service turns the program in cmd/service into a package, so that a simulated
// node can run the real entry point.
func service() {
	dir := filepath.Join(*repo, "cmd/service")
	es, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	found := false
	for _, e := range es {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			die("%v", err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, e.Name(), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		if f.Name.Name != "main" {
			continue
		}
		s := string(b)
		type rep struct {
			a, b int
			t    string
		}
		reps := []rep{{fset.Position(f.Name.Pos()).Offset, fset.Position(f.Name.End()).Offset, "svc"}}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				reps = append(reps, rep{fset.Position(fd.Name.Pos()).Offset, fset.Position(fd.Name.End()).Offset, "Main"})
				found = true
			}
		}
		for i := len(reps) - 1; i >= 0; i-- {
			s = s[:reps[i].a] + reps[i].t + s[reps[i].b:]
		}
		replace[filepath.Join(*svcdir, e.Name())] = write(filepath.Join("svc", e.Name()), s)
	}
	if !found {
		die("cmd/service has no main function")
	}
}

func main() {
	flag.Parse()
	if *out == "" || *rt == "" {
		die("-out and -rt are required")
	}
	patchStd()
	yields, files := 0, 0
	for _, top := range []string{"pkg", "core", "cfg"} {
		filepath.Walk(filepath.Join(*repo, top), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				die("%v", err)
			}
			if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			rel, _ := filepath.Rel(*repo, p)
			light := strings.HasPrefix(rel, "pkg/mathutils") || strings.HasPrefix(rel, "pkg/searchutils")
			s, n := instrument(p, light)
			if n == 0 {
				return nil
			}
			replace[p] = write(filepath.Join("repo", rel), s)
			yields += n
			files++
			return nil
		})
	}
	service()
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	write("overlay.json", string(j)+"\n")
	fmt.Printf("overlay: %d std files, %d repository files, %d yield points\n", len(replace)-files, files, yields)
}
