prop = "C10"
needs = "letters whose case folding is not reached by lower-casing, such as the long s"
breaks = "equalFold compares lower-cased strings, so letters that are equal only under Unicode case folding are reported as different"
F = "grpc/federation/cel/strings.go"
edits = [(F, "types.Bool(strings.EqualFold(args[0].(types.String).Value().(string), args[1].(types.String).Value().(string)))",
          "types.Bool(strings.ToLower(args[0].(types.String).Value().(string)) == strings.ToLower(args[1].(types.String).Value().(string)))")]
pkg = "grpc/federation/cel"
test = '''
package cel

import (
	"context"
	"strings"
	"testing"

	"github.com/google/cel-go/cel"
)

func TestSeededDemo(t *testing.T) {
	env, err := cel.NewEnv(cel.Variable(ContextVariableName, cel.ObjectType(ContextTypeName)), cel.Variable("a", cel.StringType), cel.Variable("b", cel.StringType), cel.Lib(new(StringsLibrary)))
	if err != nil {
		t.Fatal(err)
	}
	ast, iss := env.Compile("grpc.federation.strings.equalFold(a, b)")
	if iss.Err() != nil {
		t.Fatal(iss.Err())
	}
	prg, err := env.Program(ast)
	if err != nil {
		t.Fatal(err)
	}
	for _, p := range [][2]string{{"a", "A"}, {"s", "S"}, {"s", "\\u017f"}, {"\\u03c3", "\\u03c2"}, {"k", "\\u212a"}, {"a", "b"}} {
		out, _, err := prg.Eval(map[string]any{ContextVariableName: NewContextValue(context.Background()), "a": p[0], "b": p[1]})
		if err != nil {
			t.Fatal(err)
		}
		if out.Value() != strings.EqualFold(p[0], p[1]) {
			t.Fatal(p, out)
		}
	}
}
'''
