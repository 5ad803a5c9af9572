package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/henderiw/idxtable"

func goEnv() []string {
	drop := map[string]bool{"GOFLAGS": true, "GOTOOLCHAIN": true, "GOPROXY": true, "GOWORK": true, "PATH": true, "GOPATH": true, "GOMODCACHE": true, "GOCACHE": true, "HOME": true}
	var env []string
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); !drop[k] {
			env = append(env, e)
		}
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	return append(env, "HOME="+home,
		"PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build")
}

// harnessOverlay maps paths below /repo/verifx to the files of /verif/harness.
func harnessOverlay(verif, repo string) (map[string]string, error) {
	m := map[string]string{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		m[filepath.Join(repo, "verifx", rel)] = p
		return nil
	})
	return m, err
}

func loadProgram(verif, repo string) (*Program, error) {
	ov, err := harnessOverlay(verif, repo)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: overlay,
		BuildFlags: []string{"-tags=math_big_pure_go,purego"}}
	pk, err := packages.Load(cfg, vroot+"/h", modelsPkg)
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				if !strings.Contains(e.Msg, "missing function body") && !strings.Contains(e.Msg, "func ") {
					msgs = append(msgs, e.Error())
				}
			}
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(msgs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	// module packages in dependency order
	seen := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		imps := append([]*types.Package{}, t.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if strings.HasPrefix(t.Path(), modPath) && t.Path() != vroot+"/nd" && t.Path() != vroot+"/vsync" {
			if sp := p.pkgs[t.Path()]; sp != nil {
				p.inits = append(p.inits, sp)
			}
		}
	}
	for _, q := range pk {
		visit(q.Types)
	}
	return p, nil
}

// isRepo: part of the module under test (harness packages excluded).
func (p *Program) isRepo(path string) bool {
	return strings.HasPrefix(path, modPath) && !strings.HasPrefix(path, vroot)
}

func (p *Program) isMod(path string) bool { return strings.HasPrefix(path, modPath) }

func (p *Program) rtErrType() types.Type {
	return p.pkgs[modelsPkg].Type("RtErr").Type()
}

func (vm *VM) rtErrVal(s string) Value { return s }

var syncImport = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)(?:(\w+)\s+)?"sync"`)

// nativeOverlay writes the overlay file for native builds: the harness
// packages plus the repository's files with package sync replaced.
func nativeOverlay(verif, repo, tmp string, replaceSync bool) (string, error) {
	ov, err := harnessOverlay(verif, repo)
	if err != nil {
		return "", err
	}
	for k := range ov {
		if strings.Contains(k, "/verifx/models/") {
			delete(ov, k)
		}
	}
	if replaceSync {
		n := 0
		err = filepath.Walk(filepath.Join(repo, "pkg"), func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return err
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if !syncImport.Match(b) {
				return nil
			}
			nb := syncImport.ReplaceAllFunc(b, func(m []byte) []byte {
				s := syncImport.FindSubmatch(m)
				name := string(s[2])
				if name == "" || name == "import" {
					name = "sync"
				}
				return []byte(string(s[1]) + name + ` "` + vroot + `/vsync"`)
			})
			f := filepath.Join(tmp, fmt.Sprintf("sync%d.go", n))
			n++
			ov[p] = f
			return os.WriteFile(f, nb, 0o644)
		})
		if err != nil {
			return "", err
		}
	}
	f := filepath.Join(tmp, fmt.Sprintf("overlay-%v.json", replaceSync))
	return f, writeJSON(f, map[string]any{"Replace": ov})
}
