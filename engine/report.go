package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type report struct {
	bins             map[string]replayBin
	root, repo, prop string
	t0               time.Time
	loadTime         time.Duration
	loadErr          string
	dropped          []string
	dropErr          string
	genErr           string
	overlay          map[string]string
	hs               []hres
}
type hres struct {
	h  harness
	ex *Explorer
	d  time.Duration
}

func (r *report) add(h harness, ex *Explorer, d time.Duration) {
	r.hs = append(r.hs, hres{h, ex, d})
}

// loadKnown reads /verif/known_findings.jsonl: {"id","property","what","status"}.
func loadKnown(root, prop string) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		var e struct{ ID, Property, What, Status string }
		if json.Unmarshal([]byte(l), &e) == nil && e.ID != "" && e.Status == "known" {
			knownFindings[e.ID] = true
			knownText[e.ID] = e.What
			knownProp[e.ID] = e.Property
		}
	}
}

var knownText = map[string]string{}
var knownProp = map[string]string{}

func (ex *Explorer) complete() bool {
	return !ex.stop && ex.stats.unsup.Load() == 0 && ex.stats.unknown.Load() == 0
}

func (ex *Explorer) unreached() []string {
	var r []string
	for l := range ex.mustReach {
		if ex.reach[l] == 0 {
			r = append(r, l)
		}
	}
	sort.Strings(r)
	return r
}

func (r *report) printHarness(ex *Explorer, d time.Duration) {
	fmt.Fprintf(os.Stderr, "%-44s paths=%d done=%d assumed=%d unsup=%d unknown=%d asserts=%d queries=%d solver=%.1fs steps=%d t=%.1fs complete=%v %s\n", ex.name, ex.stats.paths.Load(), ex.stats.done.Load(),
		ex.stats.assumed.Load(), ex.stats.unsup.Load(), ex.stats.unknown.Load(), ex.stats.asserts.Load(), ex.queries, ex.solverTime.Seconds(), ex.stats.steps.Load(), d.Seconds(), ex.complete(), ex.stopWhy)
	for _, k := range sortedKeys(ex.reasons) {
		fmt.Fprintf(os.Stderr, "    incomplete x%d: %s\n", ex.reasons[k], k)
	}
	for _, k := range sortedKeys(ex.notes) {
		fmt.Fprintf(os.Stderr, "    note x%d: %s\n", ex.notes[k], k)
	}
	if len(ex.mustReach) > 0 {
		fmt.Fprintf(os.Stderr, "    reach: %v unreached: %v\n", ex.reach, ex.unreached())
	}
	for i, v := range append(append([]*Violation{}, ex.viol...), ex.known...) {
		if i == 4 {
			break
		}
		fmt.Fprintf(os.Stderr, "    VIOL[%s] %s: %s\n      inputs %v\n      notes %v\n      sched %v\n", v.Known, v.Kind, v.Msg, shownInputs(v.Inputs), v.Notes, len(v.Sched))
	}
	if os.Getenv("VX_INIT") != "" {
		for _, k := range sortedKeys(ex.initFails) {
			fmt.Fprintf(os.Stderr, "    init: %s\n", k)
		}
	}
}

func (r *report) finish() int {
	sort.Slice(r.hs, func(i, j int) bool { return r.hs[i].h.name < r.hs[j].h.name })
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	code := 0
	nviol := 0
	evdir := filepath.Join(r.root, "evidence")
	os.MkdirAll(evdir, 0o755)
	var paths, queries, obligations, discharged int
	var solver time.Duration
	funcs := map[string]bool{}
	var hrep []map[string]any
	var samples []any
	var outside []string
	if r.genErr != "" {
		path := filepath.Join(evdir, fmt.Sprintf("replay-%s-gen.json", r.prop))
		b, _ := json.MarshalIndent(map[string]any{"property": r.prop, "kind": "generation", "message": r.genErr, "how": "./replay.sh <this file> generates and compiles gen/protos again"}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  valid definitions (gen/protos) have no service: %s\n", r.prop, path, r.genErr)
		nviol++
		code = 1
	} else if r.loadErr != "" {
		outside = append(outside, "NOT DECIDED: the harness does not load against this tree: "+r.loadErr)
		fmt.Println("INCOMPLETE property=" + r.prop + " " + r.loadErr)
	}
	if len(r.dropped) > 0 {
		outside = append(outside, fmt.Sprintf("NOT DECIDED: harnesses that do not compile against this tree: %v: %s", r.dropped, r.dropErr))
		fmt.Printf("INCOMPLETE property=%s harnesses %v do not compile: %s\n", r.prop, r.dropped, r.dropErr)
		obligations += len(r.dropped)
	}
	type outv struct {
		v *Violation
		h harness
	}
	var outs []outv
	known := map[string]*Violation{}
	for _, hr := range r.hs {
		ex := hr.ex
		paths += int(ex.stats.paths.Load())
		queries += ex.queries
		solver += ex.solverTime
		for f := range ex.funcs {
			funcs[f] = true
		}
		obligations++
		if ex.complete() && len(ex.viol) == 0 {
			discharged++
		}
		m := map[string]any{
			"harness": ex.name, "paths": ex.stats.paths.Load(), "paths_completed": ex.stats.done.Load(), "paths_cut_by_assumptions": ex.stats.assumed.Load(),
			"assertions_evaluated": ex.stats.asserts.Load(), "solver_queries": ex.queries, "solver_sat": ex.nsat, "solver_unsat": ex.nunsat, "solver_seconds": round3(ex.solverTime.Seconds()),
			"instructions": ex.stats.steps.Load(), "path_conditions_certified_sat": ex.stats.certified.Load(), "symbolic_inputs_max": ex.vars, "exhausted_within_bounds": ex.complete(), "reached": ex.reach, "wall_s": round3(hr.d.Seconds()),
		}
		if ex.stop {
			m["stopped"] = ex.stopWhy
		}
		if len(ex.reasons) > 0 {
			m["undecided_paths"] = ex.reasons
			outside = append(outside, fmt.Sprintf("%s: %d paths undecided", ex.name, ex.stats.unsup.Load()))
		}
		if ex.stats.unknown.Load() > 0 {
			m["solver_unknown"] = ex.stats.unknown.Load()
		}
		if len(ex.notes) > 0 {
			m["notes"] = ex.notes
		}
		hrep = append(hrep, m)
		if ex.sample != nil && len(samples) < 6 {
			samples = append(samples, map[string]any{"harness": ex.name, "inputs": ex.sample})
		}
		for _, v := range spread(ex.viol) {
			outs = append(outs, outv{v, hr.h})
		}
		for _, v := range ex.known {
			known[v.Known] = v
		}
		if len(ex.viol) == 0 && !ex.stop && ex.stats.unsup.Load() == 0 {
			if u := ex.unreached(); len(u) > 0 {
				outs = append(outs, outv{&Violation{Harness: ex.name, Kind: "unreachable", Msg: "no execution reaches: " + strings.Join(u, ", ")}, hr.h})
			}
		}
	}
	for _, k := range sortedKeys(known) {
		p := knownProp[k]
		if p == "" {
			p = r.prop
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.prop, k, knownText[k])
	}
	n := 0
	var unconfirmed []outv
	confirmed := map[string]bool{}
	tried := map[string]int{}
	replayEnd := time.Now().Add(240 * time.Second)
	for _, o := range outs {
		// one report per harness: the others are other inputs for the same
		if confirmed[o.v.Harness] || nviol >= 5 {
			continue
		}
		if tried[o.v.Harness]++; tried[o.v.Harness] > 1 && time.Now().After(replayEnd) {
			continue
		}
		native, res := nativeReplay(r, o.h, o.v)
		if res == replayNotReproduced {
			unconfirmed = append(unconfirmed, o)
			continue
		}
		confirmed[o.v.Harness] = true
		n++
		path := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d.json", r.prop, n))
		b, _ := json.MarshalIndent(map[string]any{"property": r.prop, "harness": o.v.Harness, "package": o.h.pkg, "file": o.h.file, "message": o.v.Msg, "kind": o.v.Kind, "inputs": o.v.Inputs,
			"schedule": o.v.Sched, "notes": o.v.Notes, "native_replay": native, "how": "cd /verif && ./check.sh " + r.prop + " (engine); ./replay.sh <this file> runs the harness natively with these inputs"}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
		fmt.Printf("  %s: %s\n  inputs: %v\n  native replay: %s\n", o.v.Harness, o.v.Msg, shownInputs(o.v.Inputs), native)
		nviol++
		code = 1
	}
	shown := map[string]int{}
	for _, o := range unconfirmed {
		if shown[o.v.Harness]++; confirmed[o.v.Harness] || shown[o.v.Harness] > 3 {
			continue
		}
		// the encoding, not the code, is at fault: report as undecided
		outside = append(outside, fmt.Sprintf("%s: counterexample %q not confirmed natively: %v", o.v.Harness, o.v.Msg, o.v.Inputs))
		fmt.Printf("UNCONFIRMED property=%s %s: %s inputs=%v\n", r.prop, o.v.Harness, o.v.Msg, shownInputs(o.v.Inputs))
	}
	for _, b := range r.bins {
		os.RemoveAll(filepath.Dir(b.path))
	}
	if samples == nil {
		samples = []any{}
		for _, h := range r.hs {
			samples = append(samples, map[string]any{"harness": h.ex.name, "inputs": "no symbolic scalar on the sampled path"})
			break
		}
	}
	ev := map[string]any{
		"property": r.prop, "tier": tier, "seed": seed, "level": levelOf(r.root, r.prop), "wall_s": round3(time.Since(r.t0).Seconds()), "violations": nviol,
		"coverage": map[string]any{
			"explanation":             "symbolic execution of the repository's code (go/ssa of the working tree) with " + solverBin() + "; each path's feasibility and each assertion is decided by the solver for all values of the symbolic inputs within the bounds of the harness",
			"evaluations":             paths,
			"distinct_nontrivial":     completedPaths(r.hs),
			"rule":                    "one evaluation = one feasible symbolic path (a solver-decided class of inputs/schedules); non-trivial = it ran to the end of the harness and through its assertions, rather than being cut by an assumption",
			"samples":                 samples,
			"obligations":             obligations,
			"discharged":              discharged,
			"solver_queries":          queries,
			"solver_seconds":          round3(solver.Seconds()),
			"functions_encoded":       sortedKeys(funcs),
			"functions_encoded_count": len(funcs),
			"harnesses":               hrep,
			"bounds":                  boundsOf(r.root, r.prop),
			"exhaustive":              discharged == obligations && r.loadErr == "" && obligations > 0,
			"load_seconds":            round3(r.loadTime.Seconds()),
			"not_covered":             outside,
			"known_findings":          sortedKeys(known),
		},
		"assumptions": assumptionsOf(r.root, r.prop),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, r.prop+".json"), b, 0o644)
	if code == 0 {
		fmt.Printf("OK property=%s harnesses=%d exhausted=%d paths=%d queries=%d solver=%.1fs wall=%.1fs\n", r.prop, obligations, discharged, paths, queries, solver.Seconds(), time.Since(r.t0).Seconds())
	}
	return code
}

func completedPaths(hs []hres) int {
	n := 0
	for _, h := range hs {
		n += int(h.ex.stats.done.Load())
	}
	return n
}

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

type propMeta struct {
	Bounds      map[string]string `json:"bounds"`
	Assumptions []string          `json:"assumptions"`
	Level       string            `json:"level"`
}

func metaOf(root, prop string) propMeta {
	var all map[string]propMeta
	b, err := os.ReadFile(filepath.Join(root, "props.json"))
	if err != nil {
		return propMeta{}
	}
	json.Unmarshal(b, &all)
	return all[prop]
}
func boundsOf(root, prop string) any { return metaOf(root, prop).Bounds }
func assumptionsOf(root, prop string) []string {
	a := metaOf(root, prop).Assumptions
	if a == nil {
		a = []string{}
	}
	return a
}
func levelOf(root, prop string) string {
	l := metaOf(root, prop).Level
	if l == "" {
		l = "exploration"
	}
	return l
}

// shownInputs leaves out the scheduling choices, which are in the replay file.
func shownInputs(in map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range in {
		if !strings.HasPrefix(k, "sched") {
			r[k] = v
		}
	}
	return r
}

// spread picks counterexamples to replay: the first of each kind, then some
// from all over the exploration.
func spread(vs []*Violation) []*Violation {
	var first, rest []*Violation
	seen := map[string]bool{}
	for _, v := range vs {
		if k := v.Kind + v.Msg; !seen[k] && len(first) < 4 {
			seen[k] = true
			first = append(first, v)
		} else {
			rest = append(rest, v)
		}
	}
	const more = 16
	if len(rest) > more {
		var some []*Violation
		for i := 0; i < more; i++ {
			some = append(some, rest[i*len(rest)/more])
		}
		rest = some
	}
	return append(first, rest...)
}
