package cel

import (
	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"

	"github.com/mercari/grpc-federation/vx"
)

func vxListProg(expr string) cel.Program {
	return vxCompile(expr,
		cel.Lib(NewListLibrary(types.DefaultTypeAdapter)),
		cel.ASTValidators(NewASTValidators()...),
		cel.Variable("l", cel.ListType(cel.ListType(cel.IntType))),
		cel.Variable("s", cel.ListType(cel.StringType)),
		cel.Variable("f", cel.ListType(cel.DoubleType)),
		cel.Variable("u", cel.ListType(cel.UintType)),
		cel.Variable("n", cel.ListType(cel.IntType)),
		cel.Variable("k", cel.IntType),
	)
}

var (
	vxSorts = []cel.Program{
		vxListProg("l.sortAsc(v, v[0])"), vxListProg("l.sortDesc(v, v[0])"),
		vxListProg("l.sortStableAsc(v, v[0])"), vxListProg("l.sortStableDesc(v, v[0])"),
	}
	vxSortStrs = []cel.Program{
		vxListProg("s.sortAsc(v, v)"), vxListProg("s.sortDesc(v, v)"),
		vxListProg("s.sortStableAsc(v, v)"), vxListProg("s.sortStableDesc(v, v)"),
	}
	vxSortFloats  = []cel.Program{vxListProg("f.sortAsc(v, v)"), vxListProg("f.sortDesc(v, v)")}
	vxSortUints   = []cel.Program{vxListProg("u.sortAsc(v, v)"), vxListProg("u.sortDesc(v, v)")}
	vxChain       = vxListProg("l.sortStableAsc(v, v[1]).sortStableDesc(w, w[0])")
	vxReduce      = vxListProg("n.reduce(acc, cur, acc + [cur], [k])")
	vxReduceInner = vxListProg("l.reduce(acc, cur, acc + [cur.reduce(a, c, a - c, k)], [])")
	vxFirst       = vxListProg("l.first(v, v[0] == k)")
	vxFlatten     = vxListProg("l.flatten()")
	vxFlattenDeep = vxListProg("[l, [[k]], l].flatten()")
	vxSortFlat    = vxListProg("l.flatten().sortAsc(v, v)")
)

func vxRun(p cel.Program, vars map[string]any) ref.Val {
	v, _, err := p.Eval(vars)
	vx.Assert(err == nil, "evaluation failed")
	return v
}

func vxPair(v ref.Val) (int64, int64) {
	l, ok := v.(traits.Lister)
	vx.Assert(ok && l.Size() == types.Int(2), "element is not an element of the source")
	a, ok1 := l.Get(types.Int(0)).(types.Int)
	b, ok2 := l.Get(types.Int(1)).(types.Int)
	vx.Assert(ok1 && ok2, "element is not an element of the source")
	return int64(a), int64(b)
}

// vxSorted: got has every pair (key, index) once, keys in order and, if the
// sort is stable, equal keys in the order of their index.
func vxSorted(got ref.Val, keys []int64, desc, stable bool) {
	l, ok := got.(traits.Lister)
	vx.Assert(ok && l.Size() == types.Int(len(keys)), "sorted list has a wrong number of elements")
	seen := make([]bool, len(keys))
	var pk, pi int64
	for i := range keys {
		k, idx := vxPair(l.Get(types.Int(i)))
		vx.Assert(idx >= 0 && int(idx) < len(keys), "sorted list has an unknown element")
		vx.Assert(!seen[idx], "element is in the sorted list twice")
		seen[idx] = true
		vx.Assert(keys[idx] == k, "element was changed by sorting")
		if i > 0 {
			if desc {
				vx.Assert(k <= pk, "not in descending order")
			} else {
				vx.Assert(k >= pk, "not in ascending order")
			}
			if stable {
				vx.Assert(k != pk || pi < idx, "equal elements changed their order")
			}
		}
		pk, pi = k, idx
	}
}

func vxPairs(keys []int64) [][]int64 {
	l := [][]int64{}
	for i, k := range keys {
		l = append(l, []int64{k, int64(i)})
	}
	return l
}

func VX_C13_Sort() {
	vx.MustReach("done")
	max := 3
	if vx.Thorough() {
		max = 4
	}
	n := vx.Choose("n", max+1)
	keys := make([]int64, n)
	for i := range keys {
		keys[i] = vx.Int64("k")
	}
	src := vxPairs(keys)
	kind := vx.Choose("kind", 4)
	got := vxRun(vxSorts[kind], map[string]any{"l": src})
	vxSorted(got, keys, kind%2 == 1, kind >= 2)
	for i := range keys {
		vx.Assert(src[i][0] == keys[i] && src[i][1] == int64(i), "sorting modified its source")
	}
	vx.Reach("done")
}

// Stability shows only on lists longer than a dozen elements.
func VX_C13_SortLong() {
	vx.MustReach("done")
	n := 16
	if vx.Thorough() {
		n = 24
	}
	free := 3
	kind := vx.Choose("kind", 4)
	pattern := vx.Choose("pattern", 3)
	keys := make([]int64, n)
	for i := range keys {
		switch {
		case i%5 == 2 && free > 0:
			free--
			keys[i] = vx.Int64("k")
			vx.Assume(keys[i] >= 0 && keys[i] < 3)
		case pattern == 0:
			keys[i] = int64(i % 3)
		case pattern == 1:
			keys[i] = int64((n - i) / 4)
		default:
			keys[i] = 1
		}
	}
	vxSorted(vxRun(vxSorts[kind], map[string]any{"l": vxPairs(keys)}), keys, kind%2 == 1, kind >= 2)
	vx.Reach("done")
}

func VX_C13_SortStrings() {
	vx.MustReach("done")
	n := vx.Choose("n", 3) + 1
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, vx.String("s", 2))
	}
	kind := vx.Choose("kind", 4)
	l := vxRun(vxSortStrs[kind], map[string]any{"s": s}).(traits.Lister)
	vx.Assert(l.Size() == types.Int(n), "wrong number of elements")
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, string(l.Get(types.Int(i)).(types.String)))
	}
	for i := 1; i < n; i++ {
		if kind%2 == 1 {
			vx.Assert(out[i-1] >= out[i], "strings not in descending order")
		} else {
			vx.Assert(out[i-1] <= out[i], "strings not in ascending order")
		}
	}
	for _, x := range s {
		a, b := 0, 0
		for j := range s {
			if s[j] == x {
				a++
			}
			if out[j] == x {
				b++
			}
		}
		vx.Assert(a == b, "string lost or invented by sorting")
	}
	vx.Reach("done")
}

func VX_C13_SortNumbers() {
	vx.MustReach("done")
	desc := vx.Choose("desc", 2)
	if vx.Choose("float", 2) == 1 {
		a, b := vx.Float64("a"), vx.Float64("b")
		vx.Assume(a == a && b == b)
		l := vxRun(vxSortFloats[desc], map[string]any{"f": []float64{a, b}}).(traits.Lister)
		x, y := float64(l.Get(types.Int(0)).(types.Double)), float64(l.Get(types.Int(1)).(types.Double))
		vx.Assert(x == a && y == b || x == b && y == a, "number lost or invented by sorting")
		vx.Assert(desc == 0 && x <= y || desc == 1 && x >= y, "numbers not in order")
	} else {
		a, b := vx.Uint64("a"), vx.Uint64("b")
		l := vxRun(vxSortUints[desc], map[string]any{"u": []uint64{a, b}}).(traits.Lister)
		x, y := uint64(l.Get(types.Int(0)).(types.Uint)), uint64(l.Get(types.Int(1)).(types.Uint))
		vx.Assert(x == a && y == b || x == b && y == a, "number lost or invented by sorting")
		vx.Assert(desc == 0 && x <= y || desc == 1 && x >= y, "numbers not in order")
	}
	vx.Reach("done")
}

// Sorting by one key and then stably by another sorts by both.
func VX_C13_SortChain() {
	vx.MustReach("done")
	n := 3
	var src [][]int64
	for i := 0; i < n; i++ {
		a, b := vx.Int64("a"), vx.Int64("b")
		vx.Assume(a == 0 || a == 1)
		src = append(src, []int64{a, b})
	}
	l := vxRun(vxChain, map[string]any{"l": src}).(traits.Lister)
	vx.Assert(l.Size() == types.Int(n), "wrong number of elements")
	var pa, pb int64
	for i := 0; i < n; i++ {
		a, b := vxPair(l.Get(types.Int(i)))
		vx.Assert(i == 0 || pa > a || pa == a && pb <= b, "chained sort gives a wrong order")
		pa, pb = a, b
	}
	vx.Reach("done")
}

func vxInts(max int) []int64 {
	n := vx.Choose("n", max+1)
	l := []int64{}
	for i := 0; i < n; i++ {
		l = append(l, vx.Int64("e"))
	}
	return l
}

func VX_C13_Reduce() {
	vx.MustReach("done")
	src := vxInts(4)
	k := vx.Int64("k")
	got, ok := vxRun(vxReduce, map[string]any{"n": src, "k": k}).(traits.Lister)
	vx.Assert(ok && got.Size() == types.Int(len(src)+1), "reduce did not use every element once")
	vx.Assert(got.Get(types.Int(0)) == types.Int(k), "reduce does not start with the initial value")
	for i, x := range src {
		vx.Assert(got.Get(types.Int(i+1)) == types.Int(x), "reduce takes the elements out of order")
	}
	vx.Reach("done")
}

func VX_C13_ReduceNested() {
	vx.MustReach("done")
	src := vxNestedInts(2, 2)
	k := vx.Int64("k")
	vx.Assume(k > -1000 && k < 1000)
	got, ok := vxRun(vxReduceInner, map[string]any{"l": src, "k": k}).(traits.Lister)
	vx.Assert(ok && got.Size() == types.Int(len(src)), "reduce did not use every element once")
	for i, in := range src {
		want := k
		for _, x := range in {
			want -= x
		}
		vx.Assert(got.Get(types.Int(i)) == types.Int(want), "nested reduce gives a wrong value")
	}
	vx.Reach("done")
}

func vxNestedInts(max, inner int) [][]int64 {
	n := vx.Choose("lists", max+1)
	l := [][]int64{}
	for i := 0; i < n; i++ {
		in := vxInts(inner)
		for _, x := range in {
			vx.Assume(x > -1000 && x < 1000)
		}
		l = append(l, in)
	}
	return l
}

func VX_C13_First() {
	vx.MustReach("found", "none")
	n := vx.Choose("n", 4)
	keys := make([]int64, n)
	for i := range keys {
		keys[i] = vx.Int64("k")
	}
	k := vx.Int64("want")
	got, ok := vxRun(vxFirst, map[string]any{"l": vxPairs(keys), "k": k}).(*types.Optional)
	vx.Assert(ok, "first does not return an optional")
	want := -1
	for i := range keys {
		if keys[i] == k {
			want = i
			break
		}
	}
	if want < 0 {
		vx.Reach("none")
		vx.Assert(!got.HasValue(), "first found an element that does not match")
		return
	}
	vx.Reach("found")
	vx.Assert(got.HasValue(), "first did not find the matching element")
	a, i := vxPair(got.GetValue())
	vx.Assert(a == k && i == int64(want), "first found another element")
}

func VX_C13_Flatten() {
	vx.MustReach("done")
	src := vxNestedInts(3, 2)
	got, ok := vxRun(vxFlatten, map[string]any{"l": src}).(traits.Lister)
	vx.Assert(ok, "flatten does not return a list")
	var want []int64
	for _, in := range src {
		want = append(want, in...)
	}
	vx.Assert(got.Size() == types.Int(len(want)), "flatten lost or invented elements")
	for i, x := range want {
		vx.Assert(got.Get(types.Int(i)) == types.Int(x), "flatten changed the order of the elements")
	}
	vx.Reach("done")
}

// One level only.
func VX_C13_FlattenOneLevel() {
	vx.MustReach("done")
	src := vxNestedInts(2, 2)
	k := vx.Int64("k")
	got, ok := vxRun(vxFlattenDeep, map[string]any{"l": src, "k": k}).(traits.Lister)
	vx.Assert(ok && got.Size() == types.Int(2*len(src)+1), "flatten does not remove exactly one level")
	for i := 0; i < 2*len(src)+1; i++ {
		in, ok := got.Get(types.Int(i)).(traits.Lister)
		vx.Assert(ok, "flatten removed more than one level")
		want := []int64{k}
		if i != len(src) {
			want = src[i%(len(src)+1)]
		}
		vx.Assert(in.Size() == types.Int(len(want)), "flatten changed an inner list")
		for j, x := range want {
			vx.Assert(in.Get(types.Int(j)) == types.Int(x), "flatten changed an inner list")
		}
	}
	vx.Reach("done")
}

func VX_C13_FlattenThenSort() {
	vx.MustReach("done")
	src := vxNestedInts(2, 2)
	got := vxRun(vxSortFlat, map[string]any{"l": src}).(traits.Lister)
	n := 0
	for _, in := range src {
		n += len(in)
	}
	vx.Assert(got.Size() == types.Int(n), "wrong number of elements")
	for i := 1; i < n; i++ {
		vx.Assert(got.Get(types.Int(i-1)).(types.Int) <= got.Get(types.Int(i)).(types.Int), "not in ascending order")
	}
	vx.Reach("done")
}
