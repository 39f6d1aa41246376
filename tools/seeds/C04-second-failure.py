prop = "C04"
needs = 'a definition whose body and whose assignment both fail'
breaks = 'the failure of the assignment is not reported'
edits = [('grpc/federation/cel.go', '\tvalue.lock()\n\tif err := def.Setter(value, v); err != nil {\n\t\terrs = append(errs, err)\n\t}\n\tvalue.setEnvOptValue(name, def.Type)\n\tvalue.setEvalValue(name, v)\n\tvalue.unlock()\n\n\tif len(errs) == 1 {\n\t\treturn errs[0]\n\t} else if len(errs) > 1 {\n\t\treturn errors.Join(errs...)\n\t}\n\treturn nil\n}\n\nfunc evalMap', '\tvalue.lock()\n\tif err := def.Setter(value, v); err != nil && len(errs) == 0 {\n\t\terrs = append(errs, err)\n\t}\n\tvalue.setEnvOptValue(name, def.Type)\n\tvalue.setEvalValue(name, v)\n\tvalue.unlock()\n\n\tif len(errs) == 1 {\n\t\treturn errs[0]\n\t} else if len(errs) > 1 {\n\t\treturn errors.Join(errs...)\n\t}\n\treturn nil\n}\n\nfunc evalMap')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"context"
	"errors"
	"testing"
	"github.com/google/cel-go/cel"
)

type seedValue struct{ *LocalValue; got []int64 }

func newSeedValue(ctx context.Context) *seedValue {
	return &seedValue{LocalValue: NewLocalValue(ctx, NewDefaultEnvOptions(NewCELTypeHelper("org.example", CELTypeHelperFieldMap{"org.example.Arg": {}})), "org.example.Arg", map[string]any{})}
}

func TestSeededDemo(t *testing.T) {
	ctx := WithCELCacheMap(context.Background(), NewCELCacheMap())
	e1, e2 := errors.New("body"), errors.New("assignment")
	err := EvalDefMap(ctx, newSeedValue(ctx), DefMap[[]int64, int64, *seedValue]{
		Name: "a", Type: cel.ListType(cel.IntType), IteratorName: "i", IteratorType: cel.IntType,
		Setter:         func(*seedValue, []int64) error { return e2 },
		IteratorSource: func(*seedValue) []int64 { return []int64{1} },
		Iterator:       func(context.Context, *MapIteratorValue) (any, error) { return nil, e1 },
	})
	if !errors.Is(err, e1) || !errors.Is(err, e2) {
		t.Fatal(err)
	}
}
'''
