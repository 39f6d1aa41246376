package federation

import (
	"strconv"
	"strings"

	"google.golang.org/genproto/googleapis/rpc/errdetails"

	"github.com/mercari/grpc-federation/vx"
)

// Comparisons with null and where they can stand in an expression; # is the comparison.
var vxPositions = []struct {
	expr string
	want func(c bool) bool
}{
	{"#", func(c bool) bool { return c }},
	{"!(#)", func(c bool) bool { return !c }},
	{"# || false", func(c bool) bool { return c }},
	{"true && #", func(c bool) bool { return c }},
	{"(#) ? false : true", func(c bool) bool { return !c }},
	{"n == 1 ? # : false", func(c bool) bool { return c }},
	{"n == 2 ? false : #", func(c bool) bool { return c }},
	{"(#) == true", func(c bool) bool { return c }},
	{"(#) != true", func(c bool) bool { return !c }},
	{"[#, false][0]", func(c bool) bool { return c }},
	{"[false, #].size() == 2 && [false, #][1]", func(c bool) bool { return c }},
	{"{'k': #}['k']", func(c bool) bool { return c }},
	{"(#) in {#: 1}", func(c bool) bool { return true }},
	{"{#: 1, !(#): 2}[true] == 1", func(c bool) bool { return c }},
	{"string(#) == 'true'", func(c bool) bool { return c }},
	{"grpc.federation.private.Error{message: # ? 'a' : 'b'}.message == 'a'", func(c bool) bool { return c }},
	{"[1, 2].exists(x, x == 2 && #)", func(c bool) bool { return c }},
	{"[1, 2].all(x, #)", func(c bool) bool { return c }},
	{"[1].map(x, #)[0]", func(c bool) bool { return c }},
	{"[1].filter(x, #).size() == 1", func(c bool) bool { return c }},
	{"[#].exists(x, x)", func(c bool) bool { return c }},
	{"[1].exists(x, [2].exists(y, #))", func(c bool) bool { return c }},
	{"[1].reduce(acc, cur, acc, #)", func(c bool) bool { return c }},
	{"[1].reduce(acc, cur, # && acc, true)", func(c bool) bool { return c }},
	{"[#].reduce(acc, cur, cur, false)", func(c bool) bool { return c }},
	{"[1, 2].first(x, #) == optional.of(1)", func(c bool) bool { return c }},
	{"[1].map(x, #, x).size() == 1", func(c bool) bool { return c }},
	{"[3].sortAsc(x, #)[0] == 3", func(c bool) bool { return true }},
	{"[1].exists_one(x, #)", func(c bool) bool { return c }},
	{"['a'].exists(x, (# ? x : 'b').startsWith('a'))", func(c bool) bool { return c }},
	{"grpc.federation.private.Error{message: # ? 'a' : 'b', code: 1} == grpc.federation.private.Error{message: 'a', code: 1}", func(c bool) bool { return c }},
	{"grpc.federation.strings.contains(# ? 'xyz' : 'x', 'y')", func(c bool) bool { return c }},
	{"optional.of(#).value()", func(c bool) bool { return c }},
	{"# == false ? 'x' == 'y' : 'x' == 'x'", func(c bool) bool { return c }},
	{"(#) && (#) && !(!(#))", func(c bool) bool { return c }},
}

// What is compared with null, and whether it depends on m.
var vxOperands = []string{"m", "$.m", "[m][0]", "$.l[0]", "(n == 1 ? m : m)", "dyn(m)", "{'a': m}['a']"}

func vxNullCase(ops, poss []int) {
	vx.MustReach("null", "present")
	op := vxOperands[ops[vx.Choose("operand", len(ops))]]
	pos := vxPositions[poss[vx.Choose("position", len(poss))]]
	arg := &vxArg{N: 1}
	isNull := vx.Choose("null", 2) == 1
	if !isNull {
		arg.M = &errdetails.ErrorInfo{}
	}
	arg.L = []*errdetails.ErrorInfo{arg.M}
	var cmp string
	c := isNull
	switch vx.Choose("form", 4) {
	case 0:
		cmp = op + " == null"
	case 1:
		cmp = "null == " + op
	case 2:
		cmp, c = op+" != null", !isNull
	case 3:
		cmp, c = "null != "+op, !isNull
	}
	if strings.Contains(pos.expr, "# ==") || strings.Contains(pos.expr, "{#:") {
		cmp = "(" + cmp + ")"
	}
	got, err := vxRealEval[bool](arg, strings.ReplaceAll(pos.expr, "#", cmp))
	if isNull {
		vx.Reach("null")
	} else {
		vx.Reach("present")
	}
	vx.Assert(err == nil, "comparison with null is an error")
	vx.Assert(got == pos.want(c), "comparison with null is wrong")
}

func vxRange(a, b int) []int {
	var r []int
	for i := a; i < b; i++ {
		r = append(r, i)
	}
	return r
}

// Every position, for a plain variable.
func VX_C06_Positions() { vxNullCase([]int{0}, vxRange(0, len(vxPositions))) }

// Every operand, in plain position and inside a macro.
func VX_C06_Operands() { vxNullCase(vxRange(0, len(vxOperands)), []int{0, 16}) }

// All pairs (thorough).
func VX_C06_All() {
	if vx.Thorough() {
		vxNullCase(vxRange(1, len(vxOperands)), vxRange(0, len(vxPositions)))
	} else {
		vxNullCase([]int{1, 3}, []int{7, 13, 20})
	}
}

// The elements of a list compared with null inside macros.
func VX_C06_Elements() {
	vx.MustReach("done")
	n := vx.Choose("n", 3)
	arg := &vxArg{}
	nulls := 0
	for i := 0; i < n; i++ {
		if vx.Choose("null", 2) == 1 {
			arg.L = append(arg.L, nil)
			nulls++
		} else {
			arg.L = append(arg.L, &errdetails.ErrorInfo{})
		}
	}
	list := []string{"l", "$.l"}[vx.Choose("list", 2)]
	var expr string
	var want bool
	switch vx.Choose("macro", 5) {
	case 0:
		expr, want = list+".exists(x, x == null)", nulls > 0
	case 1:
		expr, want = list+".all(x, null != x)", nulls == 0
	case 2:
		expr, want = list+".filter(x, x == null).size() == "+strconv.Itoa(nulls), true
	case 3:
		expr, want = list+".exists_one(x, x == null)", nulls == 1
	case 4:
		expr, want = list+".map(x, x != null, 1).size() == "+strconv.Itoa(n-nulls), true
	}
	got, err := vxRealEval[bool](arg, expr)
	vx.Assert(err == nil, "comparison with null in a macro is an error")
	vx.Assert(got == want, "comparison with null in a macro is wrong")
	vx.Reach("done")
}

// Plain data is never null, and comparisons that do not involve null are not affected.
func VX_C06_Scalars() {
	vx.MustReach("done")
	arg := &vxArg{N: vx.Int64("n"), S: vx.String("s", 2), M: &errdetails.ErrorInfo{Reason: "r"}}
	cases := []struct {
		expr string
		want bool
	}{
		{"n == $.n", true},
		{"dyn(n) == null", false},
		{"dyn(s) != null", true},
		{"null == null", true},
		{"null != null", false},
		{"m != null && m.reason == 'r' && $.m.reason == 'r'", true},
		{"n > 5 && m != null", arg.N > 5},
		{"s == '' || m == null", arg.S == ""},
	}
	c := cases[vx.Choose("case", len(cases))]
	got, err := vxRealEval[bool](arg, c.expr)
	vx.Assert(err == nil, "expression failed")
	vx.Assert(got == c.want, "expression has a wrong value")
	vx.Reach("done")
}

// The message argument is found wherever it is written; the same character in
// a literal or a comment is text.
func VX_C06_MessageArgument() {
	vx.MustReach("done")
	k := 1
	if vx.Thorough() {
		k = 2
	}
	alphabet := []string{"$", "a", " ", "$.n"}
	lit := ""
	for i := 0; i < k; i++ {
		lit += alphabet[vx.Choose("c", len(alphabet))]
	}
	lit += "$"
	quotes := [][2]string{{"'", "'"}, {`"`, `"`}, {"'''", "'''"}, {`"""`, `"""`}, {"r'", "'"}, {`R"`, `"`}, {"'\\'", "'"}, {`"'`, `"`}, {`r"\`, `"`}}
	q := quotes[vx.Choose("quote", len(quotes))]
	want := lit
	switch q[0] {
	case "'\\'", `"'`:
		want = "'" + lit
	case `r"\`:
		want = `\` + lit
	}
	x := vx.Int64("x")
	arg := &vxArg{N: x, S: want}
	expr := "$.s == " + q[0] + lit + q[1] + " && $.n == n // it's $"
	got, err := vxRealEval[bool](arg, expr)
	vx.Assert(err == nil, "expression failed")
	vx.Assert(got, "text of a literal was changed, or the message argument was not found")
	vx.Reach("done")
}

// Anchored patterns.
func VX_C06_Pattern() {
	vx.MustReach("done")
	s := []string{"ab", "abc", "b", ""}[vx.Choose("s", 4)]
	got, err := vxRealEval[bool](&vxArg{S: s}, "$.s.matches('^a?b$')")
	vx.Assert(err == nil && got == (s == "ab" || s == "b"), "anchored pattern is wrong")
	vx.Reach("done")
}
