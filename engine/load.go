package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// harnessFiles lists the harness sources of a package directory under /verif/harness.
func harnessFiles(root, pkg string) ([]string, error) {
	dir := filepath.Join(root, "harness", pkg)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			out = append(out, filepath.Join(dir, e.Name()))
		}
	}
	sort.Strings(out)
	return out, nil
}

// harnessOverlay returns overlay contents: harness files plus the vp runtime, for the symbolic side.
// Dropped harness files (they don't fit the current source) are left out.
func harnessOverlay(root, repo, pkg string, native bool, dropped map[string]bool) (map[string][]byte, error) {
	files, err := harnessFiles(root, pkg)
	if err != nil {
		return nil, err
	}
	name, err := packageName(filepath.Join(repo, pkg))
	if err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for _, f := range files {
		if strings.HasSuffix(f, "_native.go") && !native {
			continue
		}
		if dropped[filepath.Join(repo, pkg, "zz_vp_"+filepath.Base(f))] {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		out[filepath.Join(repo, pkg, "zz_vp_"+filepath.Base(f))] = b
	}
	rt, err := os.ReadFile(filepath.Join(root, "harness", "rt", "rt.go.txt"))
	if err != nil {
		return nil, err
	}
	out[filepath.Join(repo, pkg, "zz_vp_rt.go")] = []byte(strings.Replace(string(rt), "package PKG", "package "+name, 1))
	return out, nil
}

func packageName(dir string) (string, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return "", err
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			b, err := os.ReadFile(filepath.Join(dir, e.Name()))
			if err != nil {
				continue
			}
			for _, l := range strings.Split(string(b), "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "package ") {
					return strings.Fields(l)[1], nil
				}
			}
		}
	}
	return "", fmt.Errorf("no package in %s", dir)
}

func loadWorld(root, repo string, pkgsWanted []string) (*World, error) {
	dropped := map[string]bool{}
	var pkgs []*packages.Package
	for {
		ov := map[string][]byte{}
		var pats []string
		for _, p := range pkgsWanted {
			o, err := harnessOverlay(root, repo, p, false, dropped)
			if err != nil {
				return nil, err
			}
			for k, v := range o {
				ov[k] = v
			}
			pats = append(pats, "./"+p)
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0")}
		var err error
		pkgs, err = packages.Load(cfg, append(pats, "errors", "runtime", "io")...)
		if err != nil {
			return nil, err
		}
		var bad []string
		more := false
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if strings.HasPrefix(p.PkgPath, "github.com/iomz/gosstrak") {
				for _, e := range p.Errors {
					f := e.Pos
					if i := strings.IndexByte(f, ':'); i >= 0 {
						f = f[:i]
					}
					if strings.HasPrefix(filepath.Base(f), "zz_vp_") && filepath.Base(f) != "zz_vp_rt.go" && !dropped[f] {
						// a harness of functions which are no longer there
						fmt.Fprintln(os.Stderr, "left out:", e)
						dropped[f] = true
						more = true
					}
					bad = append(bad, e.Error())
				}
			}
		})
		if more {
			continue
		}
		if len(bad) > 0 {
			return nil, fmt.Errorf("load: %s", strings.Join(bad, "\n"))
		}
		break
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w := &World{prog: prog, globals: map[*ssa.Global]int{}, pkgs: map[string]*ssa.Package{}, module: "github.com/iomz/gosstrak", dropped: dropped}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		w.pkgs[p.Pkg.Path()] = p
		var names []string
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := p.Members[n].(*ssa.Global)
			w.globals[g] = firstObj + len(w.byID)
			w.byID = append(w.byID, g)
		}
	}
	return w, nil
}

func (w *World) runtimeErrorType() types.Type {
	return w.pkgs["runtime"].Pkg.Scope().Lookup("errorString").Type()
}

func (w *World) errorsErrorString() *types.Pointer {
	return types.NewPointer(w.pkgs["errors"].Pkg.Scope().Lookup("errorString").Type())
}

// newState makes the initial state of a harness call.
func (ex *Exec) newState() *State {
	st := &State{gs: []*Gor{{id: 0}}, nextObj: firstObj + len(ex.w.byID) + 8, ev: newEval(Model{}), flags: map[string]bool{}}
	st.heap.own = &owner{}
	return st
}

// runHarness explores fn from a fresh state.
func (ex *Exec) runHarness(fn *ssa.Function, caseNo int) {
	ex.harness = fn.Name()
	ex.caseNo = caseNo
	st := ex.newState()
	ex.pushFrame(st, fn, nil, nil, nil)
	ex.run([]*State{st}, nil)
}
