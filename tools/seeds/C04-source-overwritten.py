prop = 'C04'
needs = 'a list definition whose result type is the type of its source'
breaks = 'the source list is overwritten with the results'
edits = [('grpc/federation/cel.go', '\tret := reflect.MakeSlice(iterOutType, 0, len(src))\n\tfor _, iter := range src {', '\tret := reflect.ValueOf(src)\n\tif len(src) == 0 || ret.Type() != iterOutType {\n\t\tret = reflect.MakeSlice(iterOutType, 0, len(src))\n\t}\n\tret = ret.Slice(0, 0)\n\tfor _, iter := range src {')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"context"
	"slices"
	"testing"
	"github.com/google/cel-go/cel"
)

type seedValue struct{ *LocalValue; got []int64 }

func newSeedValue(ctx context.Context) *seedValue {
	return &seedValue{LocalValue: NewLocalValue(ctx, NewDefaultEnvOptions(NewCELTypeHelper("org.example", CELTypeHelperFieldMap{"org.example.Arg": {}})), "org.example.Arg", map[string]any{})}
}

func TestSeededDemo(t *testing.T) {
	ctx := WithCELCacheMap(context.Background(), NewCELCacheMap())
	v := newSeedValue(ctx)
	src := []int64{1, 2, 3}
	err := EvalDefMap(ctx, v, DefMap[[]int64, int64, *seedValue]{
		Name: "a", Type: cel.ListType(cel.IntType), IteratorName: "i", IteratorType: cel.IntType,
		Setter:         func(v *seedValue, r []int64) error { v.got = r; return nil },
		IteratorSource: func(*seedValue) []int64 { return src },
		Iterator: func(ctx context.Context, it *MapIteratorValue) (any, error) {
			return it.getEvalValues(ctx)["i"].(int64) * 10, nil
		},
	})
	if err != nil || !slices.Equal(v.got, []int64{10, 20, 30}) {
		t.Fatal(v.got, err)
	}
	if !slices.Equal(src, []int64{1, 2, 3}) {
		t.Fatal("source modified: ", src)
	}
}
'''
