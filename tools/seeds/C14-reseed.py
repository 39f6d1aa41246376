prop = "C14"
needs = "a generator that is seeded again, then drawn from together with its source"
breaks = "seeding a generator again detaches it from its source: the source continues its old sequence instead of the one shared with the generator"
F = "grpc/federation/cel/rand.go"
edits = [(F, "					self.(*Rand).Seed(int64(args[0].(types.Int)))\n", "					self.(*Rand).Rand = rand.New(rand.NewSource(int64(args[0].(types.Int)))) //nolint:gosec\n")]
pkg = "grpc/federation/cel"
test = '''
package cel

import (
	"context"
	"math/rand"
	"testing"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
)

func TestSeededDemo(t *testing.T) {
	env, err := cel.NewEnv(cel.Variable(ContextVariableName, cel.ObjectType(ContextTypeName)), cel.Variable("r", RandType), cel.Variable("s", SourceType), cel.Lib(new(RandLibrary)))
	if err != nil {
		t.Fatal(err)
	}
	src := &Source{Source: rand.NewSource(1)}
	r := &Rand{Rand: rand.New(src)}
	eval := func(expr string) any {
		ast, iss := env.Compile(expr)
		if iss.Err() != nil {
			t.Fatal(iss.Err())
		}
		prg, err := env.Program(ast)
		if err != nil {
			t.Fatal(err)
		}
		out, _, err := prg.Eval(map[string]any{ContextVariableName: NewContextValue(context.Background()), "r": r, "s": src})
		if err != nil {
			t.Fatal(err)
		}
		return out.Value()
	}
	gs := rand.NewSource(1)
	g := rand.New(gs)
	if eval("r.int63()") != g.Int63() || eval("r.seed(5)") != true {
		t.Fatal()
	}
	g.Seed(5)
	if eval("r.int63()") != g.Int63() || eval("s.int63()") != gs.Int63() {
		t.Fatal("the sequence is another one")
	}
	_ = types.True
}
'''
