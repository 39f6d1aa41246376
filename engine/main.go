package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

var tier = "quick"

func main() {
	var (
		root    = flag.String("root", "/verif", "verification root")
		repo    = flag.String("repo", "/repo", "repository")
		prop    = flag.String("property", "", "property id")
		only    = flag.String("only", "", "regexp of harness names")
		budget  = flag.Int("budget", 0, "seconds per harness")
		rfile   = flag.String("replay", "", "replay a recorded counterexample natively")
		verbose = flag.Bool("v", false, "verbose")
		w       = flag.Int("workers", 0, "workers per harness")
	)
	flag.Parse()
	if t := os.Getenv("VERIF_TIER"); t != "" {
		tier = t
	}
	debugHost = os.Getenv("VX_HOSTPANIC") != ""
	if *rfile != "" {
		code := replayFile(*root, *repo, *rfile)
		cleanupGen()
		os.Exit(code)
	}
	if f := os.Getenv("VX_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	code := runCheck(*root, *repo, *prop, *only, *budget, *w, *verbose)
	pprof.StopCPUProfile()
	cleanupGen()
	os.Exit(code)
}

type harness struct {
	name string
	pkg  string // directory relative to repo
	file string
}

var fnRe = regexp.MustCompile(`(?m)^func (VX_([A-Z][0-9]+)_[A-Za-z0-9_]+)\(\)`)

func findHarnesses(root, prop string) ([]harness, map[string]bool, error) {
	var hs []harness
	files := map[string]bool{}
	hdir := filepath.Join(root, "harness")
	err := filepath.Walk(hdir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(hdir, path)
		for _, mt := range fnRe.FindAllStringSubmatch(string(b), -1) {
			if mt[2] == prop {
				hs = append(hs, harness{name: mt[1], pkg: filepath.Dir(rel), file: path})
				files[path] = true
			}
		}
		return nil
	})
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	return hs, files, err
}

// helper files (zz-common): a harness file may need siblings named common*.go
func runCheck(root, repo, prop, only string, budget, workers int, verbose bool) int {
	t0 := time.Now()
	hs, files, err := findHarnesses(root, prop)
	if err != nil || len(hs) == 0 {
		fmt.Fprintf(os.Stderr, "no harness for %s: %v\n", prop, err)
		return 2
	}
	if only != "" {
		re := regexp.MustCompile(only)
		var k []harness
		for _, h := range hs {
			if re.MatchString(h.name) {
				k = append(k, h)
			}
		}
		hs = k
	}
	loadKnown(root, prop)
	overlay, dirs, err := overlayFor(root, repo, files)
	if err != nil {
		rep := &report{root: root, repo: repo, prop: prop, t0: t0, loadErr: err.Error(), genErr: asGenError(err)}
		return rep.finish()
	}
	var pats []string
	for d := range dirs {
		pats = append(pats, "./"+d)
	}
	sort.Strings(pats)
	rep := &report{root: root, repo: repo, prop: prop, t0: t0, overlay: overlay}
	p, err := loadProgram(repo, overlay, pats)
	for try := 0; err != nil && try < 3; try++ {
		// a harness that no longer compiles against the tree is left out
		dropped := false
		for _, h := range append([]harness(nil), hs...) {
			if strings.Contains(err.Error(), "zz_vx_"+filepath.Base(h.file)+":") {
				dropped = true
				for k := range overlay {
					if overlay[k] == h.file {
						delete(overlay, k)
					}
				}
				for i := range hs {
					if hs[i].name == h.name {
						hs = append(hs[:i:i], hs[i+1:]...)
						break
					}
				}
				rep.dropped = append(rep.dropped, h.name)
			}
		}
		if !dropped || len(hs) == 0 {
			break
		}
		rep.dropErr = err.Error()
		p, err = loadProgram(repo, overlay, pats)
	}
	if err != nil {
		rep.loadErr, rep.genErr = err.Error(), asGenError(err)
		return rep.finish()
	}
	rep.loadTime = time.Since(t0)
	if verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", rep.loadTime.Seconds())
	}
	total := 170
	if tier == "thorough" {
		total = 780
	}
	if budget > 0 {
		total = budget
	}
	deadline := t0.Add(time.Duration(total) * time.Second)
	var exs []*Explorer
	var hx []harness
	for _, h := range hs {
		pk := p.pkgs[modulePath(repo, h.pkg)]
		if pk == nil {
			rep.loadErr = "package not found: " + h.pkg
			continue
		}
		fn := pk.Func(h.name)
		if fn == nil {
			rep.loadErr = "harness not found: " + h.name
			continue
		}
		ex := &Explorer{P: p, name: h.name, fn: p.fn(fn), maxPaths: 2_000_000, maxSteps: 60_000_000, queryMS: 10000, defPreempt: 2}
		if tier == "thorough" {
			ex.queryMS = 60000
		}
		exs = append(exs, ex)
		hx = append(hx, h)
	}
	if workers == 0 {
		workers = 8
	}
	sched.run(p, exs, workers, deadline)
	for i, ex := range exs {
		rep.add(hx[i], ex, ex.cpu)
		if verbose {
			rep.printHarness(ex, ex.cpu)
		}
	}
	return rep.finish()
}

func modulePath(repo, d string) string {
	if d == "." {
		return "github.com/mercari/grpc-federation"
	}
	return "github.com/mercari/grpc-federation/" + d
}

func overlayFor(root, repo string, files map[string]bool) (map[string]string, map[string]bool, error) {
	overlay, err := vxFiles(filepath.Join(root, "vx"), repo)
	if err != nil {
		return nil, nil, err
	}
	hdir := filepath.Join(root, "harness")
	dirs := map[string]bool{}
	for f := range files {
		rel, _ := filepath.Rel(hdir, f)
		d := filepath.Dir(rel)
		dirs[d] = true
		overlay[filepath.Join(repo, d, "zz_vx_"+filepath.Base(f))] = f
		commons, _ := filepath.Glob(filepath.Join(hdir, d, "common*.go"))
		for _, c := range commons {
			overlay[filepath.Join(repo, d, "zz_vx_"+filepath.Base(c))] = c
		}
	}
	for d := range dirs {
		if strings.HasPrefix(d, genPrefix) {
			if err := generated(root, repo, dirs, overlay); err != nil {
				return nil, nil, err
			}
		}
	}
	return overlay, dirs, nil
}

func replayFile(root, repo, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var x struct {
		Property, Harness, Package, File, Kind, Message string
		Inputs                                          map[string]string
	}
	if err := json.Unmarshal(b, &x); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	hs, files, err := findHarnesses(root, x.Property)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if x.Kind == "generation" {
		overlay, dirs, err := overlayFor(root, repo, files)
		if err == nil {
			var pats []string
			for d := range dirs {
				pats = append(pats, "./"+d)
			}
			_, err = loadProgram(repo, overlay, pats)
		}
		if err != nil && asGenError(err) != "" {
			fmt.Println("REPRODUCED: " + asGenError(err))
			return 1
		}
		fmt.Println("NOT REPRODUCED")
		return 0
	}
	overlay, _, err := overlayFor(root, repo, files)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, h := range hs {
		if h.name == x.Harness {
			r := &report{root: root, repo: repo, prop: x.Property, overlay: overlay}
			msg, res := nativeReplay(r, h, &Violation{Harness: x.Harness, Kind: x.Kind, Msg: x.Message, Inputs: x.Inputs})
			fmt.Println(msg)
			for _, b := range r.bins {
				os.RemoveAll(filepath.Dir(b.path))
			}
			if res == replayReproduced {
				return 1
			}
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "harness not found")
	return 2
}
