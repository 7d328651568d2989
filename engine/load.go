package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "yunion.io/x/jsonutils"

// packages whose initialisers are interpreted
func initWanted(path string) bool {
	switch path {
	case "errors", "io", "strconv", "strings", "bytes", "sort", "unicode/utf8", "net/url", "time", "fmt",
		"github.com/pkg/errors", "slices", "cmp", "math", "math/bits", "encoding/base64", "encoding/json",
		"unicode/utf16", "iter", "maps", "encoding", "encoding/hex", "internal/stringslite", "internal/bytealg", "internal/strconv",
		"github.com/ghodss/yaml", "gopkg.in/yaml.v2", "encoding/json/internal/jsonwire", "encoding/json/internal/jsonflags", "encoding/json/internal/jsonopts", "encoding/json/internal", "encoding/json/jsontext", "encoding/json/v2":
		return true
	}
	return strings.HasPrefix(path, "yunion.io/") || strings.HasPrefix(path, "golang.org/x/text/") || strings.HasPrefix(path, "verifharness/")
}

func isModelPkg(path string) bool { return path == "verifharness/models" }

var loadDir = "/verif/harness"

func load() *Prog {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        loadDir,
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GOSUMDB=off"),
		Fset:       token.NewFileSet(),
		BuildFlags: []string{"-tags=verifsym"},
	}
	pkgs, err := packages.Load(cfg, "./h", "./models")
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintf(os.Stderr, "load error: %s: %v\n", p.PkgPath, e)
			bad = true
		}
	})
	if bad {
		fatal("packages do not load")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, repoPkgs: map[*ssa.Package]bool{}, subst: map[string]*ssa.Function{}}
	p.sizes = types.SizesFor("gc", "amd64")
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		p.pkgs[path] = sp
		if path == modPath || strings.HasPrefix(path, modPath+"/") {
			p.repoPkgs[sp] = true
		}
	}
	b := func(k types.BasicKind) *RType { return p.rt(types.Typ[k]) }
	p.tString, p.tInt, p.tByte, p.tBool = b(types.String), b(types.Int), b(types.Uint8), b(types.Bool)
	p.tUint8, p.tInt64, p.tFloat64 = p.tByte, b(types.Int64), b(types.Float64)
	p.tError = p.rt(types.Universe.Lookup("error").Type())
	p.tAny = p.rt(types.Universe.Lookup("any").Type())
	p.tStringSlice = p.rt(types.NewSlice(types.Typ[types.String]))
	rp := p.pkgs["reflect"]
	p.tRtypePtr = p.rt(types.NewPointer(rp.Type("rtype").Type()))
	p.tRValue = p.rt(rp.Type("Value").Type())
	mp := p.pkgs["verifharness/models"]
	p.tRuntimeErr = p.rt(mp.Type("RuntimeError").Type())
	for k, v := range substTable {
		f := mp.Func(v)
		if f == nil {
			fatal("model %s missing", v)
		}
		p.subst[k] = f
	}
	// models named like the function they replace
	for name, mem := range mp.Members {
		if f, ok := mem.(*ssa.Function); ok {
			if doc := substOf(pkgs, name); doc != "" {
				p.subst[doc] = f
			}
		}
	}
	return p
}

var substDocs map[string]string

// substOf returns the name after "replaces:" in the doc comment of a model.
func substOf(pkgs []*packages.Package, name string) string {
	if substDocs == nil {
		substDocs = map[string]string{}
		for _, p := range pkgs {
			if p.PkgPath != "verifharness/models" {
				continue
			}
			for _, f := range p.Syntax {
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Doc == nil {
						continue
					}
					for _, c := range fd.Doc.List {
						if i := strings.Index(c.Text, "replaces:"); i >= 0 {
							substDocs[fd.Name.Name] = strings.TrimSpace(c.Text[i+9:])
						}
					}
				}
			}
		}
	}
	return substDocs[name]
}

var substTable = map[string]string{}

func (p *Prog) lookup(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		fatal("package %s not loaded", pkg)
	}
	f := sp.Func(name)
	if f == nil {
		fatal("function %s.%s not found", pkg, name)
	}
	return f
}

// harnesses lists the harness functions of a property.
func (p *Prog) harnesses(prop string) []*ssa.Function {
	var out []*ssa.Function
	for name, mem := range p.pkgs["verifharness/h"].Members {
		f, ok := mem.(*ssa.Function)
		if ok && strings.HasPrefix(name, prop+"_") && f.Signature.Params().Len() == 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// runInit interprets the package initialisers on this worker.
func (m *M) runInit() {
	m.inInit = true
	m.initOK = map[*ssa.Package]bool{}
	defer func() { m.inInit = false }()
	m.maxSteps = 1 << 60
	for _, path := range []string{"verifharness/h", "verifharness/models"} {
		sp := m.p.pkgs[path]
		m.initPkg(sp)
	}
	m.trail = m.trail[:0]
	m.steps = 0
	m.depth = 0
	m.curFrame = nil
}

func (m *M) initPkg(sp *ssa.Package) {
	if _, done := m.initOK[sp]; done {
		return
	}
	m.initOK[sp] = false
	for _, imp := range sp.Pkg.Imports() {
		if ip := m.p.prog.Package(imp); ip != nil {
			m.initPkg(ip)
		}
	}
	if initWanted(sp.Pkg.Path()) {
		m.initOne(sp)
	}
}

// initOne interprets the initialiser of one package and tells whether it ran
// to its end.
func (m *M) initOne(sp *ssa.Package) bool {
	if m.initing == nil {
		m.initing = map[*ssa.Package]bool{}
	}
	m.initing[sp] = true
	defer delete(m.initing, sp)
	defer func(d int, f *frame, b int) { m.depth, m.curFrame, m.curBlk = d, f, b }(m.depth, m.curFrame, m.curBlk)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathAbort:
					m.initMsgs = append(m.initMsgs, sp.Pkg.Path()+": "+x.msg)
				case *tPanic:
					m.initMsgs = append(m.initMsgs, sp.Pkg.Path()+": panic "+x.msg)
				default:
					panic(r)
				}
			} else {
				m.initOK[sp] = true
			}
		}()
		m.exec2(sp.Func("init"))
	}()
	return m.initOK[sp]
}

// lazyInit interprets the initialiser of a package outside the list of
// initWanted when one of its globals is first used. What it writes stays for
// all later paths.
func (m *M) lazyInit(sp *ssa.Package) bool {
	path := sp.Pkg.Path()
	if m.lazyTried[sp] || path == "runtime" || path == "os" || path == "syscall" || path == "reflect" || strings.HasPrefix(path, "internal/") {
		return false
	}
	if m.lazyTried == nil {
		m.lazyTried = map[*ssa.Package]bool{}
	}
	m.lazyTried[sp] = true
	trail, steps, max, in, freeze := m.trail, m.steps, m.maxSteps, m.inInit, m.freezeOn
	m.trail, m.maxSteps, m.inInit, m.freezeOn = nil, 1<<60, true, false
	defer func() { m.trail, m.steps, m.maxSteps, m.inInit, m.freezeOn = trail, steps, max, in, freeze }()
	return m.initOne(sp)
}

func (m *M) exec2(f *ssa.Function) {
	fn := m.p.fn(f)
	fn.forceCompile(m.p)
	m.exec(fn, nil, nil)
}

// forceCompile compiles a package initialiser (calls to other package
// initialisers are skipped, see prep).
func (fn *Fn) forceCompile(p *Prog) {
	fn.mu.Lock()
	defer fn.mu.Unlock()
	if fn.blks == nil {
		fn.compile(p)
		fn.ready = true
	}
}
