package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/justyntemme/vst3go"

// World is the analysed program: every package of the module that the
// repository's own build compiles, type-checked and in SSA form.
type World struct {
	Models map[string]*ssa.Function // definitions of library functions
	tabs   map[*ssa.Global]bool     // package variables nobody changes
	Dir    string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package // by import path
	Funcs  []*ssa.Function         // all source functions, including closures
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "PATH", "CGO_ENABLED", "GO111MODULE", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1")
}

var leftOut = []string{"examples", "pkg/bridge", "pkg/plugin", "pkg/vst3"}

// withHost also takes in the layer between host and framework (pkg/plugin and
// pkg/vst3), type-checked against a stand-in for the VST3 C header.
var withHost bool

var hostPkgs = []string{"pkg/plugin", "pkg/vst3"}

// hostNames has the C types the equations speak of in the package, whether or
// not its own files still do.
const hostNames = `package plugin

// #include "../../include/vst3/vst3_c_api.h"
// #include "../../bridge/bridge.h"
import "C"

var (
	_ C.char
	_ C.short
	_ C.ushort
	_ C.int
	_ C.uint
	_ C.long
	_ C.ulong
	_ C.float
	_ C.double
	_ C.int32_t
	_ C.uint32_t
	_ C.struct_Steinberg_Vst_AudioBusBuffers
	_ C.struct_Steinberg_Vst_BusInfo
	_ C.struct_Steinberg_Vst_Event
	_ C.struct_Steinberg_Vst_IComponentHandler
	_ *C.struct_Steinberg_Vst_IEventList
	_ *C.struct_Steinberg_Vst_IParameterChanges
	_ C.struct_Steinberg_Vst_NoteOnEvent
	_ C.struct_Steinberg_Vst_NoteOffEvent
	_ C.struct_Steinberg_Vst_ParameterInfo
	_ C.struct_Steinberg_Vst_ProcessContext
	_ C.struct_Steinberg_Vst_ProcessData
	_ C.struct_Steinberg_Vst_ProcessSetup
)
`

func inScope(path string) bool {
	if withHost {
		for _, h := range hostPkgs {
			if path == modPath+"/"+h {
				return true
			}
		}
	}
	if path != modPath && !strings.HasPrefix(path, modPath+"/") {
		return false
	}
	rel := strings.TrimPrefix(path, modPath+"/")
	for _, l := range leftOut {
		if rel == l || strings.HasPrefix(rel, l+"/") {
			return false
		}
	}
	return true
}

// scopeDirs lists every directory of the module that holds non-test Go files
// and is part of the repository's build, so that new packages are analysed too.
func scopeDirs(dir string) ([]string, error) {
	var out []string
	err := filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		base := filepath.Base(p)
		if rel != "." {
			if strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" {
				return filepath.SkipDir
			}
			if !inScope(modPath + "/" + filepath.ToSlash(rel)) {
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		ents, err := os.ReadDir(p)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				out = append(out, "./"+filepath.ToSlash(rel))
				break
			}
		}
		return nil
	})
	return out, err
}

//go:embed cstub/vst3_c_api.h
var stubHeader []byte

// stubRoot is where the stand-in header is laid out.
var stubRoot = os.TempDir()

// writeStub lays the stand-in header out so that the relative includes of the
// sources find it, and returns the directory.
func writeStub() (string, error) {
	d := filepath.Join(stubRoot, "vsa-cstub")
	for _, s := range []string{"a/b", "include/vst3"} {
		if err := os.MkdirAll(filepath.Join(d, s), 0o755); err != nil {
			return "", err
		}
	}
	h := filepath.Join(d, "include/vst3/vst3_c_api.h")
	if b, err := os.ReadFile(h); err == nil && bytes.Equal(b, stubHeader) {
		return d, nil
	}
	return d, os.WriteFile(h, stubHeader, 0o644)
}

// Load type-checks the in-scope packages and builds SSA for them.
func Load(dir string, tags []string) (*World, error) { return loadWith(dir, tags, nil) }

// refDir is where the packages of reference definitions (refs/*.go.txt) are
// laid over the tree. They import the module's packages and only use what
// these export; nothing is written to disk.
const refDir = "pkg/zzvsaref"

func loadWith(dir string, tags []string, refs map[string][]byte) (*World, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:  dir,
		Env:  goEnv(),
		Fset: fset,
	}
	if len(tags) > 0 {
		cfg.BuildFlags = []string{"-tags=" + strings.Join(tags, ",")}
	}
	pats, err := scopeDirs(dir)
	if err != nil {
		return nil, err
	}
	if withHost {
		stub, err := writeStub()
		if err != nil {
			return nil, err
		}
		cfg.Env = append(cfg.Env, "CGO_CFLAGS=-w -I"+stub+"/a/b -I"+stub+"/a")
	}
	if refs != nil {
		at := refDir
		if withHost {
			at = hostPkgs[0]
		}
		cfg.Overlay = map[string][]byte{}
		for name, src := range refs {
			cfg.Overlay[filepath.Join(dir, at, "zzvsa_"+name)] = src
		}
		if !withHost {
			pats = append(pats, "./"+refDir)
		} else {
			cfg.Overlay[filepath.Join(dir, at, "zzvsa_names.go")] = []byte(hostNames)
		}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	var keep []*packages.Package
	for _, p := range pkgs {
		if !inScope(p.PkgPath) {
			continue
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		keep = append(keep, p)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors in the analysed tree: %s", strings.Join(errs, "; "))
	}
	if len(keep) == 0 {
		return nil, fmt.Errorf("no packages found under %s", dir)
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].PkgPath < keep[j].PkgPath })
	prog, spkgs := ssautil.Packages(keep, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Dir: dir, Fset: fset, Pkgs: keep, Prog: prog, SSA: map[string]*ssa.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", keep[i].PkgPath)
		}
		w.SSA[keep[i].PkgPath] = sp
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(T)
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" {
							add(fn)
						}
					}
				}
			}
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return w.Funcs[i].String() < w.Funcs[j].String() })
	return w, nil
}
