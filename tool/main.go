// Command tool copies the packages of a Go module into a scratch directory and
// puts every source of nondeterminism their code has behind the simulator:
//
//   - a scheduling point (simrt.Y) before every statement and at the head of
//     every loop and function body,
//   - iteration over maps (range, maps.Keys, maps.Values, maps.All) in an
//     order the simulator chooses,
//   - package sync, goroutines, channels and select,
//   - time.Now/Since/Until/Sleep and the top-level functions of math/rand.
//
// The copy is what the checks build and run; /repo itself is only read.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listedPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	EmbedFiles []string
	Standard   bool
}

type edit struct {
	off, end int // replace src[off:end]
	text     string
	prio     int
}

// Site describes one scheduling point.
type Site struct {
	File string `json:"f"`
	Line int    `json:"l"`
	Func string `json:"n"`
}

var (
	plain   bool
	simPath string
	sites   []Site
	nSel    int
	stats   = map[string]int{}
	funcs   = map[string][]string{} // import path -> exported functions
)

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "scratch directory")
	sim := flag.String("sim", "", "directory holding simrt, simsync and harness")
	lv := flag.String("level", "full", "full: all seams; plain: an unchanged copy (when the full instrumentation does not build)")
	flag.Parse()
	plain = *lv == "plain"
	if err := run(*repo, *out, *sim); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

func run(repo, out, simDir string) error {
	// the go command may want to update go.mod or go.sum: let it do so in copies
	modDir, err := os.MkdirTemp("", "verif-mod-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(modDir)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil && !os.IsNotExist(err) {
			return err
		}
		if err := os.WriteFile(filepath.Join(modDir, f), b, 0o644); err != nil {
			return err
		}
	}
	modFile := "-modfile=" + filepath.Join(modDir, "go.mod")
	cmd := exec.Command("go", "list", modFile, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,EmbedFiles,Standard", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	var pkgs []listedPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p listedPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		pkgs = append(pkgs, p)
	}
	modCmd := exec.Command("go", "list", modFile, "-m")
	modCmd.Dir = repo
	mod, err := modCmd.Output()
	if err != nil {
		return fmt.Errorf("go list -m: %w", err)
	}
	modPath := strings.TrimSpace(string(mod))
	simPath = modPath + "/verifsim"
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	for _, p := range pkgs {
		if p.Standard || !(p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/")) {
			continue
		}
		rel, err := filepath.Rel(repo, p.Dir)
		if err != nil {
			return err
		}
		top := strings.Split(filepath.ToSlash(rel), "/")[0]
		if top == "testing" || top == "examples" || len(p.GoFiles) == 0 {
			continue
		}
		if err := instrumentPkg(p, rel, out, exports); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}
	// go.mod / go.sum
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(out, "go.mod"), gomod, 0o644); err != nil {
		return err
	}
	gosum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err := os.WriteFile(filepath.Join(out, "go.sum"), gosum, 0o644); err != nil {
		return err
	}
	// simulator and harness
	if err := filepath.Walk(simDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(simDir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		b = bytes.ReplaceAll(b, []byte("SIMMODULE"), []byte(modPath))
		dst := filepath.Join(out, "verifsim", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	}); err != nil {
		return err
	}
	// site table
	var sb strings.Builder
	sb.WriteString("package simrt\n\nfunc init() {\n\tSites = []SiteInfo{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t\t{%q, %d, %q},\n", s.File, s.Line, s.Func)
	}
	sb.WriteString("\t}\n\tSeams = map[string]int{\n")
	keys := make([]string, 0, len(stats))
	for k := range stats {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(&sb, "\t\t%q: %d,\n", k, stats[k])
	}
	sb.WriteString("\t}\n}\n")
	if err := os.WriteFile(filepath.Join(out, "verifsim", "simrt", "sites_gen.go"), []byte(sb.String()), 0o644); err != nil {
		return err
	}
	// table of exported functions
	var imp, tab strings.Builder
	paths := make([]string, 0, len(funcs))
	for p := range funcs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for i, p := range paths {
		if strings.HasSuffix(p, "/smErrors") {
			continue // only checks on behalf of the operations
		}
		fmt.Fprintf(&imp, "\tp%d %q\n", i, p)
		sort.Strings(funcs[p])
		for _, f := range funcs[p] {
			fmt.Fprintf(&tab, "\t%q: reflect.ValueOf(p%d.%s),\n", strings.TrimPrefix(p, modPath+"/")+"."+f, i, f)
		}
	}
	src := "package main\n\nimport (\n\t\"reflect\"\n\n" + imp.String() + ")\n\nvar libFuncs = map[string]reflect.Value{\n" + tab.String() + "}\n"
	return os.WriteFile(filepath.Join(out, "verifsim", "harness", "funcs_gen.go"), []byte(src), 0o644)
}

type pkgInstr struct {
	fset *token.FileSet
	info *types.Info
	rel  string

	// putting package-level variables back to their initial state
	nInit   int
	zeros   []string            // functions that zero the variables without initializer
	inits   map[ast.Expr]string // initializer -> function that evaluates it again
	initFns []string            // init functions, in order
}

func instrumentPkg(p listedPkg, rel, out string, exports map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[string][]byte{}
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(full)
		if err != nil {
			return err
		}
		srcs[f] = b
		af, err := parser.ParseFile(fset, f, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	// (Check fills in info.InitOrder)
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			f, ok := exports[path]
			if !ok {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(f)
		}),
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return err
	}
	for _, af := range files {
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.IsExported() && fd.Type.TypeParams == nil {
				funcs[p.ImportPath] = append(funcs[p.ImportPath], fd.Name.Name)
			}
		}
	}
	pi := &pkgInstr{fset: fset, info: info, rel: rel, inits: map[ast.Expr]string{}}
	dstDir := filepath.Join(out, rel)
	if err := os.MkdirAll(dstDir, 0o755); err != nil {
		return err
	}
	for i, af := range files {
		name := p.GoFiles[i]
		res, err := srcs[name], error(nil)
		if !plain {
			res, err = pi.file(af, name, srcs[name])
		}
		if err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
		if _, err := parser.ParseFile(token.NewFileSet(), name, res, 0); err != nil {
			return fmt.Errorf("%s: instrumented text does not parse: %w", name, err)
		}
		if err := os.WriteFile(filepath.Join(dstDir, name), res, 0o644); err != nil {
			return err
		}
	}
	if !plain {
		if err := os.WriteFile(filepath.Join(dstDir, "zz_simreset.go"), pi.resetFile(files[0].Name.Name), 0o644); err != nil {
			return err
		}
	}
	for _, f := range p.EmbedFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			return err
		}
		dst := filepath.Join(dstDir, f)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (pi *pkgInstr) file(af *ast.File, name string, src []byte) ([]byte, error) {
	var edits []edit
	off := func(p token.Pos) int { return pi.fset.Position(p).Offset }
	add := func(o, e int, t string, prio int) { edits = append(edits, edit{o, e, t, prio}) }
	typeOf := func(e ast.Expr) types.Type {
		if tv, ok := pi.info.Types[e]; ok && tv.Type != nil {
			return tv.Type
		}
		if id, ok := e.(*ast.Ident); ok {
			if o := pi.info.Uses[id]; o != nil {
				return o.Type()
			}
		}
		return nil
	}
	isMap := func(t types.Type) bool {
		_, ok := coreType(t).(*types.Map)
		return ok
	}
	isChan := func(t types.Type) bool {
		_, ok := coreType(t).(*types.Chan)
		return ok
	}
	pkgFunc := func(e ast.Expr) (path, fn string) {
		sel, ok := e.(*ast.SelectorExpr)
		if !ok {
			return "", ""
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok {
			return "", ""
		}
		pn, ok := pi.info.Uses[id].(*types.PkgName)
		if !ok {
			return "", ""
		}
		if _, ok := pi.info.Uses[sel.Sel].(*types.Func); !ok {
			return pn.Imported().Path(), ""
		}
		return pn.Imported().Path(), sel.Sel.Name
	}
	curFunc := "init"
	newSite := func(p token.Pos) int {
		pos := pi.fset.Position(p)
		sites = append(sites, Site{filepath.ToSlash(filepath.Join(pi.rel, name)), pos.Line, curFunc})
		stats["yield"]++
		return len(sites) - 1
	}
	y := func(p token.Pos) string { return fmt.Sprintf("simrt.Y(%d); ", newSite(p)) }
	yieldList := func(list []ast.Stmt) {
		for _, s := range list {
			add(off(s.Pos()), off(s.Pos()), y(s.Pos()), 5)
		}
	}
	usedKeep := map[string]string{} // import path -> a name of it that keeps the import used
	commRecv := map[ast.Expr]bool{}

	var walk func(n ast.Node)
	walk = func(root ast.Node) {
		ast.Inspect(root, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.FuncDecl:
				old := curFunc
				curFunc = s.Name.Name
				if s.Recv != nil && len(s.Recv.List) > 0 {
					curFunc = strings.TrimPrefix(types.ExprString(s.Recv.List[0].Type), "*") + "." + s.Name.Name
				}
				if s.Body != nil {
					if len(s.Body.List) == 0 {
						add(off(s.Body.Lbrace)+1, off(s.Body.Lbrace)+1, " "+y(s.Body.Lbrace), 5)
					}
					walk(s.Body)
				}
				curFunc = old
				return false
			case *ast.BlockStmt:
				if len(s.List) > 0 {
					switch s.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true // the body of a switch or select
					}
				}
				yieldList(s.List)
			case *ast.CaseClause:
				yieldList(s.Body)
			case *ast.CommClause:
				yieldList(s.Body)
			case *ast.ForStmt:
				if len(s.Body.List) == 0 {
					add(off(s.Body.Lbrace)+1, off(s.Body.Lbrace)+1, " "+y(s.Body.Lbrace), 5)
				}
			case *ast.RangeStmt:
				t := typeOf(s.X)
				switch {
				case isMap(t):
					stats["range over map"]++
					add(off(s.X.Pos()), off(s.X.Pos()), "simrt.Map(", 1)
					add(off(s.X.End()), off(s.X.End()), ")", 9)
				case isChan(t):
					stats["channel"]++
					add(off(s.X.Pos()), off(s.X.Pos()), "simrt.ChanSeq(", 1)
					add(off(s.X.End()), off(s.X.End()), ")", 9)
				}
				if len(s.Body.List) == 0 {
					add(off(s.Body.Lbrace)+1, off(s.Body.Lbrace)+1, " "+y(s.Body.Lbrace), 5)
				}
			case *ast.GoStmt:
				stats["go statement"]++
				if fl, ok := s.Call.Fun.(*ast.FuncLit); ok && len(s.Call.Args) == 0 && fl.Type.Results == nil {
					add(off(s.Pos()), off(s.Call.Pos()), "simrt.Go(", 6)
					add(off(s.Call.Lparen), off(s.Call.Rparen)+1, ")", 6)
				} else {
					add(off(s.Pos()), off(s.Call.Pos()), "simrt.GoCall(", 6)
					if len(s.Call.Args) == 0 {
						add(off(s.Call.Lparen), off(s.Call.Lparen)+1, "", 6)
					} else {
						add(off(s.Call.Lparen), off(s.Call.Lparen)+1, ", ", 6)
					}
					if s.Call.Ellipsis.IsValid() {
						return true // rejected by the compiler, reported as a build failure
					}
				}
			case *ast.SelectStmt:
				hasDefault := false
				for _, c := range s.Body.List {
					cc := c.(*ast.CommClause)
					if cc.Comm == nil {
						hasDefault = true
						continue
					}
					switch cm := cc.Comm.(type) {
					case *ast.ExprStmt:
						commRecv[unparen(cm.X)] = true
					case *ast.AssignStmt:
						commRecv[unparen(cm.Rhs[0])] = true
					case *ast.SendStmt:
						commRecv[cm.Chan] = true
					}
				}
				stats["select"]++
				if !hasDefault {
					nSel++
					lbl := fmt.Sprintf("simSel%d", nSel)
					add(off(s.Pos()), off(s.Pos()), lbl+": ", 6)
					add(off(s.Body.Rbrace), off(s.Body.Rbrace), "\ndefault: simrt.Poll(); goto "+lbl+"\n", 6)
				}
			case *ast.SendStmt:
				stats["channel"]++
				if !commRecv[s.Chan] {
					add(off(s.Pos()), off(s.Pos()), "simrt.Send(", 6)
					add(off(s.Arrow), off(s.Arrow)+2, ",", 6)
					add(off(s.End()), off(s.End()), ")", 8)
				}
			case *ast.AssignStmt:
				if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
					if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && !commRecv[u] {
						commRecv[u] = true
						add(off(u.OpPos), off(u.OpPos)+2, "simrt.Recv2(", 6)
						add(off(u.End()), off(u.End()), ")", 8)
					}
				}
			case *ast.UnaryExpr:
				if s.Op == token.ARROW && !commRecv[s] {
					stats["channel"]++
					add(off(s.OpPos), off(s.OpPos)+2, "simrt.Recv(", 6)
					add(off(s.End()), off(s.End()), ")", 8)
				}
			case *ast.CallExpr:
				if id, ok := s.Fun.(*ast.Ident); ok && id.Name == "make" && len(s.Args) == 1 && isChan(typeOf(s)) {
					// an unbuffered channel gets one slot: sender and receiver are
					// scheduled cooperatively and cannot rendezvous in one step
					stats["unbuffered channel"]++
					add(off(s.Rparen), off(s.Rparen), ", 1", 6)
				}
			case *ast.SelectorExpr:
				path, fn := pkgFunc(s)
				switch path {
				case "maps":
					switch fn {
					case "Keys", "Values", "All":
						stats["maps."+fn]++
						add(off(s.Pos()), off(s.End()), "simrt.Maps"+fn, 6)
						usedKeep[path] = "Clone[map[int]int]"
					}
				case "time":
					switch fn {
					case "Now", "Since", "Until", "Sleep":
						stats["time."+fn]++
						add(off(s.Pos()), off(s.End()), "simrt.Time"+fn, 6)
						usedKeep[path] = "Unix"
					}
				case "math/rand":
					switch fn {
					case "", "New", "NewSource", "NewZipf":
					default:
						stats["math/rand."+fn]++
						add(off(s.X.Pos()), off(s.X.End()), "simrt.Rand()", 6)
						usedKeep[path] = "NewSource"
					}
				case "math/rand/v2":
					switch fn {
					case "", "New", "NewPCG", "NewChaCha8", "NewZipf", "N":
					default:
						stats["math/rand/v2."+fn]++
						add(off(s.X.Pos()), off(s.X.End()), "simrt.RandV2()", 6)
						usedKeep[path] = "NewPCG"
					}
				case "runtime":
					if fn == "Gosched" {
						stats["runtime.Gosched"]++
						add(off(s.Pos()), off(s.End()), "simrt.Gosched", 6)
						usedKeep[path] = "GC"
					}
				}
			}
			return true
		})
	}
	for _, d := range af.Decls {
		walk(d)
	}
	// imports
	localName := func(im *ast.ImportSpec, def string) string {
		if im.Name != nil {
			return im.Name.Name
		}
		return def
	}
	tail := ""
	for _, im := range af.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if path == "sync" {
			stats["import sync"]++
			add(off(im.Pos()), off(im.End()), localName(im, "sync")+" "+strconv.Quote(simPath+"/simsync"), 6)
		}
		if keep, ok := usedKeep[path]; ok {
			base := path[strings.LastIndex(path, "/")+1:]
			if base == "v2" {
				base = "rand"
			}
			if nm := localName(im, base); nm != "_" && nm != "." {
				tail += fmt.Sprintf("\nvar _ = %s.%s\n", nm, keep)
			}
		}
	}
	add(off(af.Name.End()), off(af.Name.End()), fmt.Sprintf("; import simrt %q", simPath+"/simrt"), 6)
	tail += "\nvar _ = simrt.Y\n"

	// init functions are called through the generated file, so that they can be called again
	for _, d := range af.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
			nm := fmt.Sprintf("simInitFn%d", len(pi.initFns))
			pi.initFns = append(pi.initFns, nm)
			add(off(fd.Name.Pos()), off(fd.Name.End()), nm, 6)
		}
	}

	// apply, last first; at equal offsets higher prio is placed later in the text
	// stable order at the same offset: closers (9, 8) first, then yields (5), then rewrites (6), then openers (1)
	rank := func(e edit) int {
		switch e.prio {
		case 8, 9:
			return 0
		case 5:
			return 1
		case 6:
			return 2
		case 1:
			return 3
		}
		return 2
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return rank(edits[i]) < rank(edits[j])
	})
	// render gives the rewritten text of an expression
	render := func(lo, hi int) string {
		var b bytes.Buffer
		pos := lo
		for _, e := range edits {
			closer := e.prio == 8 || e.prio == 9
			if e.off < lo || e.end > hi || (e.off == e.end && (e.off == lo && closer || e.off == hi && !closer)) {
				continue
			}
			b.Write(src[pos:e.off])
			b.WriteString(e.text)
			pos = e.end
		}
		b.Write(src[pos:hi])
		return b.String()
	}
	for _, d := range af.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, id := range vs.Names {
					if id.Name != "_" {
						stats["package variable"]++
						nm := pi.initName()
						pi.zeros = append(pi.zeros, nm)
						tail += fmt.Sprintf("\nfunc %s() { simrt.Zero(&%s) }\n", nm, id.Name)
					}
				}
				continue
			}
			for i, v := range vs.Values {
				lhs := []string{vs.Names[i].Name}
				if len(vs.Values) < len(vs.Names) {
					lhs = nil
					for _, id := range vs.Names {
						lhs = append(lhs, id.Name)
					}
				}
				if strings.Trim(strings.Join(lhs, ""), "_") == "" {
					continue
				}
				stats["package variable"] += len(lhs)
				nm := pi.initName()
				pi.inits[v] = nm
				tail += fmt.Sprintf("\nfunc %s() { %s = %s }\n", nm, strings.Join(lhs, ", "), render(off(v.Pos()), off(v.End())))
			}
		}
	}
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			return nil, fmt.Errorf("overlapping edits at offset %d (%q)", e.off, e.text)
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString(tail)
	return b.Bytes(), nil
}

func (pi *pkgInstr) initName() string {
	pi.nInit++
	return fmt.Sprintf("simInit%d", pi.nInit)
}

// resetFile is a file that tells the simulator how to put the package-level
// variables back to where they are when the process starts.
func (pi *pkgInstr) resetFile(name string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport simrt %q\n\nfunc init() {\n", name, simPath+"/simrt")
	for _, f := range pi.initFns {
		fmt.Fprintf(&b, "\t%s()\n", f)
	}
	b.WriteString("\tsimrt.OnReset(func() {\n")
	for _, f := range pi.zeros {
		fmt.Fprintf(&b, "\t\t%s()\n", f)
	}
	for _, in := range pi.info.InitOrder {
		if f, ok := pi.inits[in.Rhs]; ok {
			fmt.Fprintf(&b, "\t\t%s()\n", f)
		}
	}
	for _, f := range pi.initFns {
		fmt.Fprintf(&b, "\t\t%s()\n", f)
	}
	b.WriteString("\t})\n}\n")
	return b.Bytes()
}

// coreType is the underlying type of t, or the one underlying type all members
// of a type parameter's constraint share.
func coreType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	tp, ok := t.(*types.TypeParam)
	if !ok {
		return t.Underlying()
	}
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var core types.Type
	for i := 0; i < it.NumEmbeddeds(); i++ {
		switch e := it.EmbeddedType(i).(type) {
		case *types.Union:
			for j := 0; j < e.Len(); j++ {
				u := e.Term(j).Type().Underlying()
				if core != nil && !types.Identical(core, u) {
					return nil
				}
				core = u
			}
		default:
			core = e.Underlying()
		}
	}
	return core
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
