package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/gcexportdata"
	"golang.org/x/tools/go/ssa"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path      string
		Main      bool
		GoVersion string
	}
	Error *struct{ Err string }
}

type Contract struct {
	ID       string // name of contract function with package
	Name     string // target string as written
	Pkg      string
	Props    []string
	Fn       *ssa.Function
	Target   *ssa.Function // nil for lemmas
	Lemma    bool
	Trusted  bool
	Inline   bool // do not use at call sites
	Decl     *ast.FuncDecl
	File     string
	Opts     map[string]string
	Replay   bool
	Unresolv string // reason why it could not be loaded
}

type Loaded struct {
	prog      *ssa.Program
	fset      *token.FileSet
	modPath   string
	pkgs      map[string]*ssa.Package
	tpkgs     map[string]*types.Package
	contracts []*Contract
	byTarget  map[*ssa.Function]*Contract
	dropAt    map[string]map[int]bool
	dropped   []string // contract functions that do not type-check on this tree
	vcPath    string
	repoDir   string
	specFns   map[*ssa.Function]bool
	externs   map[string][]*ssa.Function // model functions for externals
	files     map[string][]string        // contract files per package import path
	infos     map[string]*types.Info
	consts    []string
	ints      []int64
	boxed     []types.Type
	boxedMu   sync.Mutex
}

func run(dir string, env []string, name string, args ...string) ([]byte, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var eb bytes.Buffer
	c.Stderr = &eb
	out, err := c.Output()
	if err != nil {
		return out, fmt.Errorf("%s %v: %v\n%s", name, args, err, eb.String())
	}
	return out, nil
}

func Load(repo, verif string) (*Loaded, error) {
	L := &Loaded{pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, byTarget: map[*ssa.Function]*Contract{}, specFns: map[*ssa.Function]bool{}, externs: map[string][]*ssa.Function{}, repoDir: repo, files: map[string][]string{}, infos: map[string]*types.Info{}, dropAt: map[string]map[int]bool{}}
	L.fset = token.NewFileSet()

	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	goVer := "1.13"
	for _, l := range strings.Split(string(gm), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			L.modPath = f[1]
		}
		if len(f) == 2 && f[0] == "go" {
			goVer = f[1]
		}
	}
	L.vcPath = L.modPath + "/internal/vc"

	// contract sources
	cdir := filepath.Join(verif, "contracts")
	contractFiles := map[string][]string{} // import path -> files
	extraImports := map[string]bool{}
	collect := func(file string) error {
		f, err := parser.ParseFile(token.NewFileSet(), file, nil, parser.ImportsOnly)
		if err != nil {
			return err
		}
		for _, im := range f.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			if !strings.HasPrefix(p, L.modPath) {
				extraImports[p] = true
			}
		}
		return nil
	}
	err = filepath.Walk(cdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(cdir, filepath.Dir(p))
		ip := L.modPath + "/" + filepath.ToSlash(rel)
		contractFiles[ip] = append(contractFiles[ip], p)
		return collect(p)
	})
	if err != nil {
		return nil, err
	}
	vcFiles, _ := filepath.Glob(filepath.Join(verif, "vc", "*.go"))
	for _, f := range vcFiles {
		if err := collect(f); err != nil {
			return nil, err
		}
	}
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,ImportMap,Module,Error", "./..."}
	var ex []string
	for p := range extraImports {
		ex = append(ex, p)
	}
	sort.Strings(ex)
	args = append(args, ex...)
	out, err := run(repo, nil, "go", args...)
	if err != nil {
		return nil, err
	}
	var list []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		list = append(list, p)
	}
	exports := map[string]string{}
	for _, p := range list {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	importMap := map[string]string{}
	for _, p := range list {
		for k, v := range p.ImportMap {
			importMap[k] = v
		}
	}
	imported := map[string]*types.Package{}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if p, ok := L.tpkgs[path]; ok {
			return p, nil
		}
		if m, ok := importMap[path]; ok {
			path = m
		}
		if p, ok := imported[path]; ok && p.Complete() {
			return p, nil
		}
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		fh, err := os.Open(e)
		if err != nil {
			return nil, err
		}
		defer fh.Close()
		r, err := gcexportdata.NewReader(fh)
		if err != nil {
			return nil, err
		}
		return gcexportdata.Read(r, L.fset, imported, path)
	})

	L.prog = ssa.NewProgram(L.fset, ssa.InstantiateGenerics)
	type modPkg struct {
		path  string
		files []*ast.File
		tp    *types.Package
		info  *types.Info
	}
	var mods []modPkg
	check := func(path string, repoFiles, cfiles []string) error {
		drop := map[string]bool{} // file:line of decls to drop
		for attempt := 0; attempt < 60; attempt++ {
			var files []*ast.File
			for _, f := range repoFiles {
				a, err := parser.ParseFile(L.fset, f, nil, parser.ParseComments)
				if err != nil {
					return err
				}
				files = append(files, a)
			}
			nRepo := len(files)
			for _, f := range cfiles {
				a, err := parser.ParseFile(L.fset, f, nil, parser.ParseComments)
				if err != nil {
					return err
				}
				var nd []ast.Decl
				for _, d := range a.Decls {
					pos := L.fset.Position(d.Pos())
					if drop[fmt.Sprintf("%s:%d", pos.Filename, pos.Line)] {
						continue
					}
					nd = append(nd, d)
				}
				a.Decls = nd
				files = append(files, a)
			}
			info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
			var errs []types.Error
			cfg := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) { errs = append(errs, err.(types.Error)) }}
			if path != L.vcPath {
				cfg.GoVersion = "go" + goVer
			}
			tp, _ := cfg.Check(path, L.fset, files, info)
			if len(errs) > 0 {
				progress := false
				var hard error
				for _, e := range errs {
					pos := L.fset.Position(e.Pos)
					isC := false
					for i := nRepo; i < len(files); i++ {
						if L.fset.Position(files[i].Pos()).Filename != pos.Filename {
							continue
						}
						isC = true
						if strings.Contains(e.Msg, "imported and not used") {
							continue
						}
						for _, d := range files[i].Decls {
							if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
								continue
							}
							if d.Pos() <= e.Pos && e.Pos <= d.End() {
								dp := L.fset.Position(d.Pos())
								k := fmt.Sprintf("%s:%d", dp.Filename, dp.Line)
								if !drop[k] {
									drop[k] = true
									if L.dropAt[dp.Filename] == nil {
										L.dropAt[dp.Filename] = map[int]bool{}
									}
									L.dropAt[dp.Filename][dp.Line] = true
									progress = true
									nm := k
									if fd, ok := d.(*ast.FuncDecl); ok {
										nm = fd.Name.Name
									}
									L.dropped = append(L.dropped, path+"."+nm+": "+e.Msg)
								}
							}
						}
					}
					if !isC && !strings.Contains(e.Msg, "imported and not used") {
						hard = e
					}
				}
				if hard != nil {
					return hard
				}
				if progress {
					continue
				}
			}
			L.tpkgs[path] = tp
			L.infos[path] = info
			mods = append(mods, modPkg{path, files, tp, info})
			L.files[path] = cfiles
			return nil
		}
		return fmt.Errorf("too many attempts type-checking %s", path)
	}
	if err := check(L.vcPath, vcFiles, nil); err != nil {
		return nil, fmt.Errorf("vc package: %v", err)
	}
	for _, p := range list {
		if p.Module == nil || !p.Module.Main {
			continue
		}
		var fs []string
		for _, f := range p.GoFiles {
			fs = append(fs, filepath.Join(p.Dir, f))
		}
		if len(fs) == 0 {
			continue
		}
		if err := check(p.ImportPath, fs, contractFiles[p.ImportPath]); err != nil {
			return nil, fmt.Errorf("package %s: %v", p.ImportPath, err)
		}
	}
	// create SSA
	created := map[*types.Package]bool{}
	var mk func(tp *types.Package)
	mk = func(tp *types.Package) {
		if created[tp] {
			return
		}
		created[tp] = true
		for _, i := range tp.Imports() {
			mk(i)
		}
		for _, m := range mods {
			if m.tp == tp {
				L.pkgs[m.path] = L.prog.CreatePackage(tp, m.files, m.info, true)
				return
			}
		}
		L.prog.CreatePackage(tp, nil, nil, true)
	}
	for _, m := range mods {
		mk(m.tp)
	}
	for _, m := range mods {
		L.pkgs[m.path].Build()
	}
	// contracts
	for _, m := range mods {
		for _, f := range m.files {
			fn := L.fset.Position(f.Pos()).Filename
			isC := false
			for _, c := range contractFiles[m.path] {
				if c == fn {
					isC = true
				}
			}
			if !isC {
				L.harvest(f)
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				L.addContract(m.path, fn, fd)
			}
		}
	}
	return L, nil
}

func (L *Loaded) harvest(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BasicLit); ok {
			switch b.Kind {
			case token.STRING:
				s := strings.Trim(b.Value, "\"`")
				if len(s) < 40 {
					L.consts = append(L.consts, s)
				}
			case token.INT:
				var v int64
				if _, err := fmt.Sscanf(b.Value, "%d", &v); err == nil {
					L.ints = append(L.ints, v)
				}
			}
		}
		return true
	})
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

func (L *Loaded) addContract(pkg, file string, fd *ast.FuncDecl) {
	var c *Contract
	sp := L.pkgs[pkg]
	for _, cm := range fd.Doc.List {
		t := strings.TrimPrefix(cm.Text, "//")
		if !strings.HasPrefix(t, "vc:") {
			continue
		}
		f := strings.Fields(t)
		switch f[0] {
		case "vc:contract", "vc:lemma":
			c = &Contract{ID: strings.TrimPrefix(pkg, L.modPath+"/pkg/") + "." + fd.Name.Name, Pkg: pkg, Decl: fd, File: file, Opts: map[string]string{}, Replay: true}
			c.Lemma = f[0] == "vc:lemma"
			rest := f[1:]
			if !c.Lemma {
				c.Name = f[1]
				rest = f[2:]
			} else {
				c.Name = fd.Name.Name
			}
			for _, o := range rest {
				k, v, _ := strings.Cut(o, "=")
				switch k {
				case "prop":
					c.Props = strings.Split(v, ",")
				case "inline":
					c.Inline = true
				case "trusted":
					c.Trusted = true
				case "noreplay":
					c.Replay = false
				default:
					c.Opts[k] = v
				}
			}
			if c.Opts["with"] != "" {
				c.Inline, c.Replay = true, false
			}
			c.Fn = sp.Func(fd.Name.Name)
			if !c.Lemma {
				c.Target = L.findFunc(pkg, c.Name)
				if c.Target == nil {
					c.Unresolv = "target " + c.Name + " not found"
				} else if c.Fn != nil && len(c.Fn.Params) != len(c.Target.Params) {
					c.Inline = true // the contract quantifies over more than the target's parameters
				}
				if c.Target != nil && !c.Inline {
					if L.byTarget[c.Target] == nil {
						L.byTarget[c.Target] = c
					}
				}
			}
			L.contracts = append(L.contracts, c)
		case "vc:spec":
			L.specFns[sp.Func(fd.Name.Name)] = true
		case "vc:extern":
			n, tag := strings.Join(f[1:], " "), ""
			if i := strings.Index(n, " when="); i >= 0 {
				n, tag = n[:i], n[i+6:]
			}
			if tag != "" {
				if fn := L.findFunc(pkg, n); fn != nil {
					n = fn.String()
				}
				n = tag + " " + n
			}
			L.externs[n] = append(L.externs[n], sp.Func(fd.Name.Name))
		}
	}
}

// findFunc resolves "F" or "(*T).M" or "(T).M" in package pkg.
func (L *Loaded) findFunc(pkg, name string) *ssa.Function {
	sp := L.pkgs[pkg]
	if !strings.HasPrefix(name, "(") {
		return sp.Func(name)
	}
	i := strings.Index(name, ").")
	tn := name[1:i]
	mn := name[i+2:]
	ptr := strings.HasPrefix(tn, "*")
	tn = strings.TrimPrefix(tn, "*")
	tm, ok := sp.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	var t types.Type = tm.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	ms := L.prog.MethodSets.MethodSet(t)
	for j := 0; j < ms.Len(); j++ {
		if ms.At(j).Obj().Name() == mn {
			return L.prog.MethodValue(ms.At(j))
		}
	}
	return nil
}
