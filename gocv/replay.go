package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type replayRes struct {
	Name     string
	Accepted int
	Skipped  int
	Fail     string
	Seed     int64
	Input    string
	Stack    string
}

var replayOnly int64

// filtered returns the text of a contract file without the declarations that do not fit the code.
func (L *Loaded) filtered(file string) (string, bool, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return "", false, err
	}
	if len(L.dropAt[file]) == 0 {
		return string(src), false, nil
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		return "", false, err
	}
	out := append([]byte{}, src...)
	blank := func(a, b token.Pos) {
		for i := fs.Position(a).Offset; i < fs.Position(b).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	for _, d := range f.Decls {
		if L.dropAt[file][fs.Position(d.Pos()).Line] {
			blank(d.Pos(), d.End())
		}
	}
	// imports that are no longer used
	g, err := parser.ParseFile(token.NewFileSet(), file, out, 0)
	if err != nil {
		return "", false, err
	}
	used := map[string]bool{}
	ast.Inspect(g, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		if !used[n] {
			blank(im.Pos(), im.End())
			if im.Name == nil && fs.Position(im.Path.End()).Offset > 0 {
				o := fs.Position(im.Pos()).Offset
				if o >= 2 {
					copy(out[o:], "")
				}
			}
		}
	}
	return string(out), true, nil
}

// replay runs the contracts as executable specifications against the real code.
func (L *Loaded) replay(cs []*Contract, seed int64, secs float64, verif string) (map[*Contract]*replayRes, error) {
	res := map[*Contract]*replayRes{}
	byPkg := map[string][]*Contract{}
	for _, c := range cs {
		if c.Replay && c.Fn != nil && c.Unresolv == "" {
			byPkg[c.Pkg] = append(byPkg[c.Pkg], c)
		}
	}
	tmp, err := os.MkdirTemp("", "gocv-replay-")
	if err != nil {
		return res, err
	}
	defer os.RemoveAll(tmp)
	var first error
	for pkg, list := range byPkg {
		if err := L.replayPkg(tmp, pkg, list, seed, secs, verif, res); err != nil && first == nil {
			first = err
		}
	}
	return res, first
}

func (L *Loaded) replayPkg(tmp, pkg string, list []*Contract, seed int64, secs float64, verif string, res map[*Contract]*replayRes) error {
	over := map[string]string{}
	vcs, _ := filepath.Glob(filepath.Join(verif, "vc", "*.go"))
	for _, f := range vcs {
		over[filepath.Join(L.repoDir, "internal", "vc", filepath.Base(f))] = f
	}
	n := 0
	for ip, files := range L.files {
		rel := strings.TrimPrefix(strings.TrimPrefix(ip, L.modPath), "/")
		for _, f := range files {
			src, changed, err := L.filtered(f)
			if err != nil {
				return err
			}
			use := f
			if changed {
				n++
				use = filepath.Join(tmp, fmt.Sprintf("c%d.go", n))
				if err := os.WriteFile(use, []byte(src), 0o644); err != nil {
					return err
				}
			}
			over[filepath.Join(L.repoDir, rel, filepath.Base(f))] = use
		}
	}
	tp := L.tpkgs[pkg]
	imps := map[string]string{}
	qual := func(p *types.Package) string {
		if p == tp {
			return ""
		}
		imps[p.Path()] = p.Name()
		return p.Name()
	}
	var body strings.Builder
	for _, c := range list {
		name := c.Decl.Name.Name
		fmt.Fprintf(&body, "\t\t{Name: %q, Lemma: %v, Run: func(g *vc.Gen) {\n", name, c.Lemma)
		sig := c.Fn.Signature
		var as []string
		for i := 0; i < sig.Params().Len(); i++ {
			as = append(as, fmt.Sprintf("a%d", i))
		}
		gen := tp.Scope().Lookup("gen" + strings.ToUpper(name[:1]) + name[1:])
		if gen != nil && len(as) > 0 {
			fmt.Fprintf(&body, "\t\t\t%s := %s(g)\n", strings.Join(as, ", "), gen.Name())
		} else {
			for i := range as {
				fmt.Fprintf(&body, "\t\t\t%s := vc.Make[%s](g)\n", as[i], types.TypeString(sig.Params().At(i).Type(), qual))
			}
		}
		fmt.Fprintf(&body, "\t\t\tvc.Start(%s)\n\t\t\t%s(%s)\n\t\t}},\n", strings.Join(as, ", "), name, strings.Join(as, ", "))
	}
	var src strings.Builder
	fmt.Fprintf(&src, "//go:build go1.21\n\npackage %s\n\nimport (\n\t\"testing\"\n\tvc %q\n", tp.Name(), L.vcPath)
	for _, p := range sortedKeys(imps) {
		if p != L.vcPath && p != "testing" {
			fmt.Fprintf(&src, "\t%s %q\n", imps[p], p)
		}
	}
	src.WriteString(")\n\nfunc TestVcReplay(t *testing.T) {\n")
	if tp.Scope().Lookup("regGens") != nil {
		src.WriteString("\tregGens()\n")
	}
	src.WriteString("\tvc.Main(t, []vc.Case{\n" + body.String() + "\t})\n}\n")
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg, L.modPath), "/")
	tf := filepath.Join(tmp, "replay_"+strings.ReplaceAll(rel, "/", "_")+"_test.go")
	if err := os.WriteFile(tf, []byte(src.String()), 0o644); err != nil {
		return err
	}
	over[filepath.Join(L.repoDir, rel, "zz_gocv_verif_test.go")] = tf
	oj, _ := json.Marshal(map[string]any{"Replace": over})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, oj, 0o644)
	cfg := map[string]any{"Seconds": secs, "Seed": seed, "Only": replayOnly, "Strs": uniqStr(L.consts), "Ints": L.ints, "Out": filepath.Join(tmp, "out.json")}
	var names []string
	for _, c := range list {
		names = append(names, c.Decl.Name.Name)
	}
	cfg["Names"] = names
	cj, _ := json.Marshal(cfg)
	cf := filepath.Join(tmp, "cfg.json")
	os.WriteFile(cf, cj, 0o644)
	os.Remove(filepath.Join(tmp, "out.json"))
	// the contracts run with a scratch directory as working directory, home and temporary directory
	scratch := filepath.Join(tmp, "scratch")
	os.MkdirAll(scratch, 0o755)
	bin := filepath.Join(tmp, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-o", bin, "-vet=off", "-overlay", of, "./"+rel)
	cmd.Dir = L.repoDir
	var eb bytes.Buffer
	cmd.Stderr, cmd.Stdout = &eb, &eb
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("building the replay of %s: %v\n%s", pkg, err, eb.String())
	}
	eb.Reset()
	run := exec.Command(bin, "-test.run", "TestVcReplay", "-test.timeout", fmt.Sprintf("%ds", int(secs*float64(len(list)))+120))
	run.Dir = scratch
	run.Env = append(os.Environ(), "VC_REPLAY="+cf, "HOME="+scratch, "TMPDIR="+scratch, "SHELL=/bin/sh")
	run.Stderr, run.Stdout = &eb, &eb
	done := make(chan error, 1)
	if err := run.Start(); err != nil {
		return err
	}
	go func() { done <- run.Wait() }()
	var rerr error
	select {
	case rerr = <-done:
	case <-time.After(time.Duration(secs*float64(len(list))+150) * time.Second):
		run.Process.Kill()
		rerr = fmt.Errorf("replay timed out")
	}
	b, err := os.ReadFile(filepath.Join(tmp, "out.json"))
	if err != nil {
		s := eb.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		// the process died: report it against the case that was running
		if rerr != nil {
			for _, c := range list {
				if strings.Contains(s, "vcreplay: running "+c.Decl.Name.Name+"\n") && !strings.Contains(s, "vcreplay: finished "+c.Decl.Name.Name+"\n") && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:")) && strings.Contains(s, L.modPath) {
					res[c] = &replayRes{Name: c.ID, Fail: "the process died", Stack: s, Seed: seed}
				}
			}
		}
		return fmt.Errorf("replay of %s: %v\n%s", pkg, rerr, s)
	}
	var out []*replayRes
	if err := json.Unmarshal(b, &out); err != nil {
		return err
	}
	for _, r := range out {
		for _, c := range list {
			if c.Decl.Name.Name == r.Name {
				res[c] = r
			}
		}
	}
	return nil
}

func uniqStr(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return sortedKeys(m)
}

// replayMain: gocv replay [-s secs] [-only seed] PATTERN...
func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", envOr("GOCV_REPO", "/repo"), "")
	verif := fs.String("verif", "/verif", "")
	secs := fs.Float64("s", 2, "seconds per contract")
	seed := fs.Int64("seed", 1, "")
	fs.Int64Var(&replayOnly, "only", 0, "run exactly this input seed")
	fs.Parse(args)
	L, err := Load(*repo, *verif)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var cs []*Contract
	for _, c := range L.contracts {
		for _, p := range fs.Args() {
			if strings.Contains(c.ID, p) || hasProp(c, p) {
				cs = append(cs, c)
				break
			}
		}
	}
	rr, err := L.replay(cs, *seed, *secs, *verif)
	if err != nil {
		fmt.Println(err)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	bad := 0
	for _, c := range cs {
		r := rr[c]
		if r == nil {
			fmt.Printf("%-40s not replayed\n", c.ID)
			continue
		}
		st := "ok"
		if r.Fail != "" {
			st = "FAIL " + r.Fail
			bad++
		}
		fmt.Printf("%-40s accepted %d skipped %d %s\n", c.ID, r.Accepted, r.Skipped, st)
		if r.Fail != "" {
			fmt.Printf("   seed %d\n%s\n%s\n", r.Seed, r.Input, r.Stack)
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}
