package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// Packages below the module's root whose name begins with genPrefix are written
// by the code generator of the tree under test, from gen/protos.
const genPrefix = "zz"

// genError is a failure of the code generator: it refuses or crashes on valid
// definitions, or writes code that does not compile.
type genError string

func (e genError) Error() string { return string(e) }

var genFileRe = regexp.MustCompile(`/` + genPrefix + `\w+/\w+\.pb\.go:\d+`)

// asGenError tells whether err is about what the generator wrote.
func asGenError(err error) string {
	var g genError
	if errors.As(err, &g) {
		return string(g)
	}
	if genFileRe.MatchString(err.Error()) {
		return "the generated code does not compile: " + err.Error()
	}
	return ""
}

var genDir string // scratch directory of this run

func cleanupGen() {
	if genDir != "" {
		os.RemoveAll(genDir)
	}
}

// generated runs the tree's code generator over gen/protos and lays its
// output over the tree.
func generated(root, repo string, dirs map[string]bool, overlay map[string]string) error {
	if genDir != "" {
		return nil
	}
	tmp, err := os.MkdirTemp("", "vxgen")
	if err != nil {
		return err
	}
	genDir = tmp
	tool := filepath.Join(tmp, "gentool")
	cmd := exec.Command("go", "build", "-o", tool, "./cmd/grpc-federation-generator")
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building the generator: %v: %s", err, out)
	}
	src := filepath.Join(tmp, "protos")
	if err := os.CopyFS(src, os.DirFS(filepath.Join(root, "gen", "protos"))); err != nil {
		return err
	}
	out := filepath.Join(tmp, "out")
	if err := os.Mkdir(out, 0o755); err != nil {
		return err
	}
	cfg := fmt.Sprintf(`imports:
  - %[1]s
  - %[2]s
src:
  - %[1]s
out: %[3]s
plugins:
  - plugin: go
    opt: paths=source_relative
  - plugin: go-grpc
    opt: paths=source_relative
  - plugin: grpc-federation
    opt:
    - paths=source_relative
    - import_paths=%[1]s
`, src, filepath.Join(repo, "proto"), out)
	cf := filepath.Join(tmp, "cfg.yaml")
	if err := os.WriteFile(cf, []byte(cfg), 0o644); err != nil {
		return err
	}
	var protos []string
	for d := range dirs {
		if strings.HasPrefix(d, genPrefix) {
			ps, _ := filepath.Glob(filepath.Join(src, d, "*.proto"))
			protos = append(protos, ps...)
		}
	}
	// the tool writes every file the named one depends on as well
	var log bytes.Buffer
	for _, p := range protos {
		if _, err := os.Stat(strings.TrimSuffix(filepath.Join(out, strings.TrimPrefix(p, src)), ".proto") + ".pb.go"); err == nil {
			continue
		}
		cmd := exec.Command(tool, "-c", cf, p)
		cmd.Dir = tmp
		cmd.Stdout, cmd.Stderr = &log, &log
		if err := cmd.Run(); err != nil {
			msg := fmt.Sprintf("generating %s: %v: %s", filepath.Base(p), err, tail(log.String()))
			if strings.Contains(log.String(), ".proto:") || strings.Contains(log.String(), "panic:") {
				return genError(msg)
			}
			return errors.New(msg)
		}
	}
	return filepath.Walk(out, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		b = bytes.Replace(b, []byte("\"go.opentelemetry.io/otel\"\n"), []byte("\""+vxPkg+"/otel\"\n"), 1)
		// generated plugins talk to their harness instead of the process's host
		if bytes.Contains(b, []byte("bufio.NewReader(os.Stdin)")) {
			b = bytes.ReplaceAll(b, []byte("os.Stdin"), []byte("vxStdin"))
			b = bytes.ReplaceAll(b, []byte("os.Stdout"), []byte("vxStdout"))
		}
		b = bytes.ReplaceAll(b, []byte("grpcfedcel.NewCELPlugin("), []byte("vxNewCELPlugin("))
		if err := os.WriteFile(path, b, 0o644); err != nil {
			return err
		}
		rel, _ := filepath.Rel(out, path)
		overlay[filepath.Join(repo, rel)] = path
		return nil
	})
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}
