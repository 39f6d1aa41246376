prop = "C11"
needs = "user information with a password that is present but empty"
breaks = "a URL with an empty password loses the colon after the user when it is passed from one function to another"
F = "grpc/federation/cel/url.go"
edits = [(F, "if x.GetPasswordSet() {", "if x.GetPassword() != \"\" {")]
pkg = "grpc/federation/cel"
test = '''
package cel

import (
	"context"
	"net/url"
	"testing"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
)

func TestSeededDemo(t *testing.T) {
	reg, err := types.NewRegistry(new(URL), new(Userinfo))
	if err != nil {
		t.Fatal(err)
	}
	env, err := cel.NewEnv(cel.CustomTypeAdapter(reg), cel.CustomTypeProvider(reg), cel.Variable(ContextVariableName, cel.ObjectType(ContextTypeName)), cel.Variable("a", cel.StringType), cel.Lib(NewURLLibrary(reg)))
	if err != nil {
		t.Fatal(err)
	}
	ast, iss := env.Compile("grpc.federation.url.parse(a).string()")
	if iss.Err() != nil {
		t.Fatal(iss.Err())
	}
	prg, err := env.Program(ast)
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"http://h/p", "http://u@h/p", "http://u:p@h/p", "http://u:@h/p"} {
		out, _, err := prg.Eval(map[string]any{ContextVariableName: NewContextValue(context.Background()), "a": s})
		if err != nil {
			t.Fatal(err)
		}
		u, _ := url.Parse(s)
		if out.Value() != u.String() {
			t.Fatal(s, out)
		}
	}
}
'''
