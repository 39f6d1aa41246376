prop = "C12"
needs = "an instant before 1970 that is not a whole number of microseconds"
breaks = "unixMicro divides the nanoseconds, which rounds towards zero before 1970 and overflows for instants far from 1970"
F = "grpc/federation/cel/time.go"
edits = [(F, "return types.Int(v.UnixMicro())", "return types.Int(v.UnixNano() / int64(time.Microsecond))")]
pkg = "grpc/federation/cel"
test = '''
package cel

import (
	"context"
	"testing"
	"time"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
)

func TestSeededDemo(t *testing.T) {
	reg, err := types.NewRegistry(new(Time), new(Location))
	if err != nil {
		t.Fatal(err)
	}
	lib := NewTimeLibrary(reg)
	env, err := cel.NewEnv(cel.CustomTypeAdapter(reg), cel.CustomTypeProvider(reg), cel.Variable(ContextVariableName, cel.ObjectType(ContextTypeName)), cel.Variable("t", TimeType), cel.Lib(lib))
	if err != nil {
		t.Fatal(err)
	}
	ast, iss := env.Compile("t.unixMicro()")
	if iss.Err() != nil {
		t.Fatal(iss.Err())
	}
	prg, err := env.Program(ast)
	if err != nil {
		t.Fatal(err)
	}
	for _, v := range []time.Time{time.Unix(1700000000, 123456789), time.Unix(-1, 5), time.Unix(1<<40, 7)} {
		v = v.UTC()
		out, _, err := prg.Eval(map[string]any{ContextVariableName: NewContextValue(context.Background()), "t": lib.toTimeValue(v)})
		if err != nil {
			t.Fatal(err)
		}
		if out.Value() != v.UnixMicro() {
			t.Fatal(v, out, v.UnixMicro())
		}
	}
}
'''
