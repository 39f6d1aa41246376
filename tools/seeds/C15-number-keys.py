prop = "C15"
needs = "a log attribute that contains a map whose keys are not strings"
breaks = "logging a map with number keys fails instead of writing the record"
F = "grpc/federation/cel/log.go"
edits = [(F, "o[fmt.Sprint(k.Value())] = lib.expandVal(v)", "o[string(k.(types.String))] = lib.expandVal(v)")]
pkg = "grpc/federation/cel"
test = '''
package cel

import (
	"bytes"
	"context"
	"log/slog"
	"strings"
	"testing"

	"github.com/google/cel-go/cel"

	"github.com/mercari/grpc-federation/grpc/federation/log"
)

func TestSeededDemo(t *testing.T) {
	env, err := cel.NewEnv(cel.Variable(ContextVariableName, cel.ObjectType(ContextTypeName)), cel.Lib(NewLogLibrary()))
	if err != nil {
		t.Fatal(err)
	}
	for _, expr := range []string{"grpc.federation.log.info('m', {'a': {'k': 'v'}})", "grpc.federation.log.info('m', {'a': {1: 'v'}})"} {
		var buf bytes.Buffer
		ctx := log.WithLogger(context.Background(), slog.New(slog.NewJSONHandler(&buf, nil)))
		ast, iss := env.Compile(expr)
		if iss.Err() != nil {
			t.Fatal(iss.Err())
		}
		prg, err := env.Program(ast)
		if err != nil {
			t.Fatal(err)
		}
		if _, _, err := prg.Eval(map[string]any{ContextVariableName: NewContextValue(ctx)}); err != nil {
			t.Fatal(err)
		}
		if !strings.Contains(buf.String(), ":\\"v\\"") {
			t.Fatal(buf.String())
		}
	}
}
'''
