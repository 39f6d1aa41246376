prop = "C13"
needs = "a list with at least three elements whose only misplaced element is the last one"
breaks = "sorting returns the list unsorted when everything before its last element is in order"
F = "grpc/federation/cel/list.go"
edits = [(F, "	fn := sort.Slice\n", '''	inOrder := true
	for i := 2; i < len(vals); i++ {
		if vals[i-1].ExpandedVal.(traits.Comparer).Compare(vals[i-2].ExpandedVal) == direction {
			inOrder = false
			break
		}
	}
	if inOrder && len(vals) > 3 {
		return orig
	}

	fn := sort.Slice
''')]
pkg = "grpc/federation/cel"
test = '''
package cel

import (
	"sort"
	"testing"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
)

func TestSeededDemo(t *testing.T) {
	env, err := cel.NewEnv(cel.OptionalTypes(), cel.Variable("l", cel.ListType(cel.IntType)), cel.Lib(NewListLibrary(types.DefaultTypeAdapter)))
	if err != nil {
		t.Fatal(err)
	}
	ast, iss := env.Compile("l.sortAsc(v, v)")
	if iss.Err() != nil {
		t.Fatal(iss.Err())
	}
	prg, err := env.Program(ast)
	if err != nil {
		t.Fatal(err)
	}
	for _, l := range [][]int64{{}, {2, 1}, {3, 1, 2}, {4, 3, 2, 1}, {1, 2, 3, 4}, {2, 3, 4, 1}, {1, 2, 4, 3}} {
		out, _, err := prg.Eval(map[string]any{"l": l})
		if err != nil {
			t.Fatal(err)
		}
		got, err := cel.RefValueToValue(out)
		if err != nil {
			t.Fatal(err)
		}
		want := append([]int64(nil), l...)
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		for i, v := range got.GetListValue().GetValues() {
			if v.GetInt64Value() != want[i] {
				t.Fatal(l, got)
			}
		}
	}
}
'''
