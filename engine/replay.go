package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// nativeReplay compiles the harness into the real package (go test -overlay)
// and runs it with the solver's assignment.
func nativeReplay(r *report, h harness, v *Violation) (string, int) {
	if v.Kind == "unreachable" {
		return "not applicable (no execution reaches the expected outcome)", replaySkipped
	}
	if os.Getenv("VX_NOREPLAY") != "" {
		return "skipped", replaySkipped
	}
	tmp, err := os.MkdirTemp("", "vxreplay")
	if err != nil {
		return err.Error(), replaySkipped
	}
	defer os.RemoveAll(tmp)
	b := r.replayBin(h, v.Kind == "race")
	if b.err != "" {
		return "replay does not build: " + b.err, replaySkipped
	}
	in, _ := json.Marshal(v.Inputs)
	inf := filepath.Join(tmp, "input.json")
	os.WriteFile(inf, in, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, b.path, "-test.timeout", "90s", "-test.run", "^TestVXReplay$")
	cmd.Dir = filepath.Join(r.repo, h.pkg)
	if _, err := os.Stat(cmd.Dir); err != nil {
		cmd.Dir = tmp
	}
	cmd.Env = append(os.Environ(), "VX_INPUT="+inf)
	if scheduleDependent(v) {
		cmd.Env = append(cmd.Env, "VX_REPEAT=12")
	}
	out, err := cmd.CombinedOutput()
	s := string(out)
	if len(s) > 1500 {
		s = s[:1500]
	}
	if err != nil {
		return "REPRODUCED natively: " + s, replayReproduced
	}
	if scheduleDependent(v) {
		return "not hit by 12 s of native repetition (needs the recorded schedule)", replayScheduleOnly
	}
	return "NOT reproduced natively: " + s, replayNotReproduced
}

const (
	replaySkipped = iota
	replayReproduced
	replayScheduleOnly
	replayNotReproduced
)

// scheduleDependent: the counterexample fixes choices a native run cannot be
// forced to make (thread schedule, map order, select choice, clock).
func scheduleDependent(v *Violation) bool {
	if v.Kind == "race" || v.Kind == "deadlock" {
		return true
	}
	for k := range v.Inputs {
		for _, p := range []string{"sched", "maporder", "select", "now", "timer", "pow", "rand"} {
			if k == p || strings.HasPrefix(k, p+"#") {
				return true
			}
		}
	}
	return false
}

type replayBin struct{ path, err string }

// replayBin builds the harness as a native test, once.
func (r *report) replayBin(h harness, race bool) replayBin {
	key := fmt.Sprint(h.pkg, h.name, race)
	if b, ok := r.bins[key]; ok {
		return b
	}
	tmp, err := os.MkdirTemp("", "vxreplay")
	if err != nil {
		return replayBin{err: err.Error()}
	}
	pkgName := ""
	b, _ := os.ReadFile(h.file)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "package ") {
			pkgName = strings.TrimSpace(strings.TrimPrefix(l, "package "))
			break
		}
	}
	test := fmt.Sprintf("package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s\"\n)\n\nfunc TestVXReplay(t *testing.T) { vx.RunNative(t, %s) }\n", pkgName, vxPkg, h.name)
	tf := filepath.Join(tmp, "replay_test.go")
	os.WriteFile(tf, []byte(test), 0o644)
	rep := map[string]string{}
	for k, s := range r.overlay {
		rep[k] = s
	}
	rep[filepath.Join(r.repo, h.pkg, "zz_vx_replay_test.go")] = tf
	ob, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	bin := replayBin{path: filepath.Join(tmp, "replay.test")}
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin.path}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.CommandContext(ctx, "go", append(args, "./"+h.pkg)...)
	cmd.Dir = r.repo
	if out, err := cmd.CombinedOutput(); err != nil {
		bin.err = tail(string(out))
	}
	if r.bins == nil {
		r.bins = map[string]replayBin{}
	}
	r.bins[key] = bin
	return bin
}
