package resolver

import (
	exprv1 "google.golang.org/genproto/googleapis/api/expr/v1alpha1"

	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/vx"
)

// vxRefs is a checked expression that refers to the names.
func vxRefs(names ...string) *CELValue {
	m := map[int64]*exprv1.Reference{
		100: {Name: ""},
		101: {OverloadId: []string{"f"}},
		102: {Name: "__ARG__"},
	}
	for i, n := range names {
		m[int64(i+1)] = &exprv1.Reference{Name: n}
	}
	return &CELValue{CheckedExpr: &exprv1.CheckedExpr{ReferenceMap: m}}
}

func vxPlain(name string) *VariableDefinition {
	return &VariableDefinition{Name: name, Expr: &VariableExpr{By: vxRefs()}}
}

func vxSet(defs ...*VariableDefinition) *VariableDefinitionSet {
	return &VariableDefinitionSet{Defs: defs}
}

func vxBy(v *CELValue) *VariableDefinition {
	return &VariableDefinition{Name: "inner", Expr: &VariableExpr{By: v}}
}

func vxArgList(v *CELValue) []*Argument {
	return []*Argument{{Name: "k", Value: &Value{CEL: vxRefs()}}, {Name: "l", Value: &Value{CEL: v}}}
}

const vxErrSlots = 15

// vxGRPCErr is an error definition with the reference in one of its parts.
func vxGRPCErr(slot int, v *CELValue) *GRPCError {
	e := &GRPCError{}
	d := &GRPCErrorDetail{}
	switch slot {
	case 0:
		e.If = v
	case 1:
		e.Message = v
	case 2:
		e.IgnoreAndResponse = v
	case 3:
		e.DefSet = vxSet(vxBy(v))
	case 4:
		e.DefSet = vxSet(vxPlain("inner"), &VariableDefinition{Name: "o", If: v, Expr: &VariableExpr{By: vxRefs("inner")}})
	case 5:
		d.If = v
	case 6:
		d.By = []*CELValue{vxRefs(), v}
	case 7:
		d.DefSet = vxSet(vxBy(v))
	case 8:
		d.Messages = vxSet(&VariableDefinition{Name: "m", Expr: &VariableExpr{Message: &MessageExpr{Message: &Message{}, Args: vxArgList(v)}}})
	case 9, 10, 11:
		p := &PreconditionFailureViolation{Type: vxRefs(), Subject: vxRefs(), Description: vxRefs()}
		switch slot {
		case 9:
			p.Type = v
		case 10:
			p.Subject = v
		case 11:
			p.Description = v
		}
		d.PreconditionFailures = []*PreconditionFailure{{Violations: []*PreconditionFailureViolation{p}}}
	case 12, 13:
		p := &BadRequestFieldViolation{Field: vxRefs(), Description: vxRefs()}
		if slot == 12 {
			p.Field = v
		} else {
			p.Description = v
		}
		d.BadRequests = []*BadRequest{{FieldViolations: []*BadRequestFieldViolation{p}}}
	case 14:
		d.LocalizedMessages = []*LocalizedMessage{{Message: vxRefs()}, {Message: v}}
	}
	e.Details = GRPCErrorDetails{{}, d}
	return e
}

const vxSlots = 11 + 2*vxErrSlots

// vxDefOf is a definition that refers to other definitions in one of the parts
// a definition can have.
func vxDefOf(name string, slot int, v *CELValue) *VariableDefinition {
	d := &VariableDefinition{Name: name}
	call := func() *CallExpr { return &CallExpr{Request: &Request{}} }
	switch {
	case slot == 0:
		d.Expr = &VariableExpr{By: v}
	case slot == 1:
		d.If, d.Expr = v, &VariableExpr{By: vxRefs()}
	case slot == 2:
		d.Expr = &VariableExpr{Message: &MessageExpr{Message: &Message{}, Args: vxArgList(v)}}
	case slot == 3:
		d.Expr = &VariableExpr{Enum: &EnumExpr{By: v}}
	case slot == 4:
		d.Expr = &VariableExpr{Map: &MapExpr{Iterator: &Iterator{Name: "iter", Source: vxPlain("none")}, Expr: &MapIteratorExpr{By: v}}}
	case slot == 5:
		d.Expr = &VariableExpr{Map: &MapExpr{Iterator: &Iterator{Name: "iter", Source: vxPlain("none")}, Expr: &MapIteratorExpr{Message: &MessageExpr{Message: &Message{}, Args: vxArgList(v)}}}}
	case slot == 6:
		d.Expr = &VariableExpr{Map: &MapExpr{Iterator: &Iterator{Name: "iter", Source: vxPlain("none")}, Expr: &MapIteratorExpr{Enum: &EnumExpr{By: v}}}}
	case slot == 7:
		c := call()
		c.Request.Args = vxArgList(v)
		d.Expr = &VariableExpr{Call: c}
	case slot == 8:
		c := call()
		c.Request.Args = []*Argument{{Name: "k", Value: &Value{CEL: vxRefs()}, If: v}}
		d.Expr = &VariableExpr{Call: c}
	case slot == 9:
		c := call()
		c.Retry = &RetryPolicy{If: v}
		d.Expr = &VariableExpr{Call: c}
	case slot == 10:
		// the source of a list definition, which is a definition by itself
		d.Expr = &VariableExpr{Map: &MapExpr{Iterator: &Iterator{Name: "iter", Source: &VariableDefinition{}}, Expr: &MapIteratorExpr{By: vxRefs("iter")}}}
		for _, r := range v.CheckedExpr.ReferenceMap {
			if r.Name != "" && r.Name != "__ARG__" {
				d.Expr.Map.Iterator.Source.Name = r.Name
			}
		}
	case slot < 11+vxErrSlots:
		c := call()
		c.Errors = []*GRPCError{{}, vxGRPCErr(slot-11, v)}
		d.Expr = &VariableExpr{Call: c}
	default:
		d.Expr = &VariableExpr{Validation: &ValidationExpr{Error: vxGRPCErr(slot-11-vxErrSlots, v)}}
	}
	return d
}

// vxPlan checks the plan: every definition is in it, and wherever one is
// evaluated everything in need(it) has been evaluated before.
func vxPlan(set *VariableDefinitionSet, need map[*VariableDefinition][]*VariableDefinition) {
	seen := map[*VariableDefinition]bool{}
	var before func(g VariableDefinitionGroup) map[*VariableDefinition]bool
	before = func(g VariableDefinitionGroup) map[*VariableDefinition]bool {
		done := map[*VariableDefinition]bool{}
		var end *VariableDefinition
		var starts []VariableDefinitionGroup
		switch g := g.(type) {
		case *SequentialVariableDefinitionGroup:
			end = g.End
			if g.Start != nil {
				starts = append(starts, g.Start)
			}
		case *ConcurrentVariableDefinitionGroup:
			end, starts = g.End, g.Starts
		}
		for _, s := range starts {
			for d := range before(s) {
				done[d] = true
			}
		}
		for _, n := range need[end] {
			vx.Assert(done[n], "a definition is evaluated before another that it depends on: "+end.Name+" needs "+n.Name)
		}
		done[end], seen[end] = true, true
		return done
	}
	for _, g := range set.DefinitionGroups() {
		before(g)
	}
	for _, d := range set.Definitions() {
		vx.Assert(seen[d], "a definition is not evaluated: "+d.Name)
	}
}

var vxBase = &Message{Name: "M", File: &File{Name: "f.proto", Package: &Package{Name: "p"}}, Rule: &MessageRule{}}

// Whatever part of a definition refers to an earlier one.
func VX_C20_Parts() {
	vx.MustReach("dependent", "independent")
	name := vx.StringN("ref", 1)
	slot := vx.Choose("part", vxSlots)
	a, b := vxPlain("a"), vxPlain("b")
	c := vxDefOf("c", slot, vxRefs(name))
	vx.Assume(name != "c")
	set := vxSet(a, b, c, &VariableDefinition{Name: "d", Expr: &VariableExpr{By: vxRefs("c")}})
	ctx := newContext()
	setupVariableDefinitionSet(ctx, vxBase, set)
	vx.Assert(ctx.error() == nil, "refused")
	need := map[*VariableDefinition][]*VariableDefinition{set.Defs[3]: {c}}
	vx.Reach("independent")
	switch name {
	case "a":
		need[c] = []*VariableDefinition{a}
		vx.Reach("dependent")
	case "b":
		need[c] = []*VariableDefinition{b}
	}
	vxPlan(set, need)
}

// Every graph of dependencies among the definitions, with validations among
// them: what follows a validation waits for it.
func VX_C20_Plan() {
	vx.MustReach("done")
	n := 4
	if vx.Thorough() {
		n = 5
	}
	names := []string{"e", "b", "d", "a", "c"}
	set := vxSet()
	need := map[*VariableDefinition][]*VariableDefinition{}
	for i := 0; i < n; i++ {
		d := &VariableDefinition{Name: names[i], If: vxRefs()}
		var refs []string
		for j := 0; j < i; j++ {
			if vx.Bool("depends") {
				refs = append(refs, names[j])
				need[d] = append(need[d], set.Defs[j])
			} else if set.Defs[j].IsValidation() {
				need[d] = append(need[d], set.Defs[j])
			}
		}
		if vx.Bool("validation") {
			d.Expr = &VariableExpr{Validation: &ValidationExpr{Error: &GRPCError{If: vxRefs(refs...)}}}
		} else {
			d.Expr = &VariableExpr{By: vxRefs(refs...)}
		}
		set.Defs = append(set.Defs, d)
	}
	ctx := newContext()
	setupVariableDefinitionSet(ctx, vxBase, set)
	vx.Assert(ctx.error() == nil, "refused")
	vxPlan(set, need)
	vx.Reach("done")
}

// vxIdent is an arbitrary identifier of up to max characters.
func vxIdent(name string, max int) string {
	n := vx.String(name, max)
	vx.Assume(n != "")
	for i := 0; i < len(n); i++ {
		c := n[i]
		vx.Assume(c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || i > 0 && '0' <= c && c <= '9')
	}
	return n
}

// Whatever the names of the definitions and of the iterator.
func VX_C20_Names() {
	vx.MustReach("done")
	max := 2
	if vx.Thorough() {
		max = 3
	}
	a, b, iter := vxPlain(vxIdent("a", 3)), vxPlain(vxIdent("b", max)), vxIdent("iter", max)
	vx.Assume(a.Name != b.Name && a.Name != iter && b.Name != iter)
	c := vxPlain("dddd")
	refs := vxRefs(a.Name, iter)
	c.Expr = &VariableExpr{Map: &MapExpr{Iterator: &Iterator{Name: iter, Source: b}, Expr: &MapIteratorExpr{By: refs}}}
	if vx.Bool("condition") {
		c.Expr.Map.Expr.By = vxRefs(iter)
		c.If = vxRefs(a.Name)
	}
	set := vxSet(a, b, c)
	ctx := newContext()
	setupVariableDefinitionSet(ctx, vxBase, set)
	vx.Assert(ctx.error() == nil, "refused")
	vxPlan(set, map[*VariableDefinition][]*VariableDefinition{c: {a, b}})
	vx.Reach("done")
}

// vxOnly is a checked expression that refers to the names and nothing else.
func vxOnly(names ...string) *CELValue {
	v := vxRefs(names...)
	for _, k := range []int64{100, 101, 102} {
		delete(v.CheckedExpr.ReferenceMap, k)
	}
	return v
}

func vxShowPlan(set *VariableDefinitionSet) string {
	s := ""
	var show func(g VariableDefinitionGroup)
	show = func(g VariableDefinitionGroup) {
		switch g := g.(type) {
		case *SequentialVariableDefinitionGroup:
			if g.Start != nil {
				show(g.Start)
			}
			s += g.End.Name + ";"
		case *ConcurrentVariableDefinitionGroup:
			s += "{"
			for _, x := range g.Starts {
				show(x)
			}
			s += "}" + g.End.Name + ";"
		}
	}
	for _, g := range set.DefinitionGroups() {
		s += "["
		show(g)
		s += "]"
	}
	return s
}

// Whatever the order in which maps are visited, the plan is the same.
func VX_C21_Plan() {
	vx.MustReach("done")
	n := 3
	var bits [3][3]bool
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			bits[i][j] = vx.Bool("depends")
		}
	}
	slot := []int{0, 4}[vx.Choose("part", 2)]
	plan := func() string {
		names := []string{"b", "a", "c"}
		set := vxSet()
		for i := 0; i < n; i++ {
			var refs []string
			for j := 0; j < i; j++ {
				if bits[i][j] {
					refs = append(refs, names[j])
				}
			}
			if i == 2 {
				set.Defs = append(set.Defs, vxDefOf(names[i], slot, vxOnly(refs...)))
			} else {
				set.Defs = append(set.Defs, &VariableDefinition{Name: names[i], Expr: &VariableExpr{By: vxOnly(refs...)}})
			}
		}
		setupVariableDefinitionSet(newContext(), vxBase, set)
		return vxShowPlan(set)
	}
	want := plan()
	vxAnyOrder(func() { vx.Assert(plan() == want, "another plan") })
	vx.Reach("done")
}

// The same for arbitrary names.
func VX_C21_PlanNames() {
	vx.MustReach("done")
	max := 2
	if vx.Thorough() {
		max = 3
	}
	names := []string{vxIdent("a", max), vxIdent("b", max), "x"}
	vx.Assume(names[0] != names[1] && names[0] != "x" && names[1] != "x")
	joined := vx.Bool("joined")
	plan := func() string {
		set := vxSet(&VariableDefinition{Name: names[0], Expr: &VariableExpr{By: vxOnly()}}, &VariableDefinition{Name: names[1], Expr: &VariableExpr{By: vxOnly()}})
		if joined {
			set.Defs = append(set.Defs, &VariableDefinition{Name: "x", Expr: &VariableExpr{By: vxOnly(names[0], names[1])}})
		}
		setupVariableDefinitionSet(newContext(), vxBase, set)
		return vxShowPlan(set)
	}
	want := plan()
	vxAnyOrder(func() { vx.Assert(plan() == want, "another plan") })
	vx.Reach("done")
}

// The names a definition refers to do not depend on the order either.
func VX_C21_Names() {
	vx.MustReach("done")
	slot := vx.Choose("part", vxSlots)
	if slot == 10 {
		slot = 0
	}
	names := func() string {
		s := ""
		for _, r := range vxDefOf("d", slot, vxOnly("b", "a")).ReferenceNames() {
			s += r + ","
		}
		return s
	}
	want := names()
	vxAnyOrder(func() { vx.Assert(names() == want, "other names") })
	vx.Reach("done")
}

// vxAnyOrder runs f with every order of visiting maps; natively often enough to
// meet a bad order.
func vxAnyOrder(f func()) {
	if vx.Symbolic() {
		vx.MapOrder(true)
		f()
		vx.MapOrder(false)
		return
	}
	for i := 0; i < 300; i++ {
		f()
	}
}

const vxHows = 8

// vxUses lets the message use another in one of the ways a message can.
func vxUses(m, dep *Message, how int) {
	e := &VariableExpr{Message: &MessageExpr{Message: dep}}
	d := &VariableDefinition{Name: "d", Expr: e}
	loc := source.NewLocationBuilder("f.proto").WithMessage(m.Name).WithOption().WithDef(0)
	switch how {
	case 1:
		d.Expr = &VariableExpr{Map: &MapExpr{Iterator: &Iterator{Name: "i", Source: vxPlain("s")}, Expr: &MapIteratorExpr{Message: e.Message}}}
	case 2:
		d.Expr = &VariableExpr{Call: &CallExpr{Request: &Request{}, Errors: []*GRPCError{{DefSet: vxSet(d)}}}}
		d = &VariableDefinition{Name: "c", Expr: d.Expr}
		d.Expr.Call.Errors[0].DefSet.Defs[0].Expr = e
	case 3:
		in := &VariableDefinition{Name: "in", Expr: e}
		d.Expr = &VariableExpr{Validation: &ValidationExpr{Error: &GRPCError{DefSet: vxSet(in)}}}
	case 4:
		in := &VariableDefinition{Name: "in", Expr: e}
		d.Expr = &VariableExpr{Validation: &ValidationExpr{Error: &GRPCError{Details: GRPCErrorDetails{{DefSet: vxSet(in)}}}}}
	case 5:
		in := &VariableDefinition{Name: "in", Expr: e}
		d.Expr = &VariableExpr{Call: &CallExpr{Request: &Request{}, Errors: []*GRPCError{{Details: GRPCErrorDetails{{}, {Messages: vxSet(in)}}}}}}
	case 6:
		in := &VariableDefinition{Name: "in", Expr: e}
		in = &VariableDefinition{Name: "out", Expr: &VariableExpr{Call: &CallExpr{Request: &Request{}, Errors: []*GRPCError{{DefSet: vxSet(in)}}}}}
		d.Expr = &VariableExpr{Validation: &ValidationExpr{Error: &GRPCError{DefSet: vxSet(in)}}}
	case 7:
		m.Fields = append(m.Fields, &Field{Name: "o", Message: m, Rule: &FieldRule{Oneof: &FieldOneofRule{DefSet: vxSet(d)}}})
		return
	}
	d.builder = loc
	m.Rule.DefSet.Defs = append(m.Rule.DefSet.Defs, d)
}

// vxNamed is vxMessages with names chosen to be distinct, equal in different
// files, or equal in different enclosing messages.
func vxNamed(n int) []*Message {
	ms := vxMessages(n)
	how := vx.Choose("names", 3)
	if how == 0 {
		return ms
	}
	for i, m := range ms[1:] {
		m.Name = ms[0].Name
		if how == 1 {
			m.File = &File{Name: string(rune('g'+i)) + ".proto", Package: &Package{Name: string(rune('q' + i))}}
		} else {
			m.ParentMessage = &Message{Name: string(rune('P' + i)), File: m.File}
		}
	}
	return ms
}

func vxMessages(n int) []*Message {
	names := []string{"B", "A", "C", "D"}
	var ms []*Message
	f := &File{Name: "f.proto", Package: &Package{Name: "p"}}
	for i := 0; i < n; i++ {
		ms = append(ms, &Message{Name: names[i], File: f, Rule: &MessageRule{DefSet: vxSet()}})
	}
	return ms
}

// vxCycle: does some message lead to itself?
func vxCycle(e [][]bool) bool {
	n := len(e)
	r := make([][]bool, n)
	for i := range r {
		r[i] = append([]bool(nil), e[i]...)
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if r[i][k] && r[k][j] {
					r[i][j] = true
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if r[i][i] {
			return true
		}
	}
	return false
}

// Messages that need each other are refused, in whatever way they do, and
// nothing else is: then every message is reached from some message that no
// other needs.
func VX_C23_Messages() {
	vx.MustReach("refused", "accepted")
	n := 3
	how := 0
	ms := vxNamed(n)
	e := make([][]bool, n)
	for i := range e {
		e[i] = make([]bool, n)
		for j := range e[i] {
			if vx.Bool("uses") {
				e[i][j] = true
				vxUses(ms[i], ms[j], how)
			}
		}
	}
	vxCheckMessages(ms, e)
}

// The same for every way in which a message can need another.
func VX_C23_Ways() {
	vx.MustReach("refused", "accepted")
	n := 2
	ms := vxNamed(n)
	e := make([][]bool, n)
	for i := range e {
		e[i] = make([]bool, n)
		for j := range e[i] {
			if h := vx.Choose("uses", vxHows+1); h > 0 {
				e[i][j] = true
				vxUses(ms[i], ms[j], h-1)
			}
		}
	}
	vxCheckMessages(ms, e)
}

func VX_C23_Four() {
	vx.MustReach("refused", "accepted")
	n := 4
	ms := vxMessages(n)
	e := make([][]bool, n)
	for i := range e {
		e[i] = make([]bool, n)
		for j := range e[i] {
			if (i != j && (vx.Thorough() || (i+j)%2 == 1)) && vx.Bool("uses") {
				e[i][j] = true
				vxUses(ms[i], ms[j], (i+j)%2)
			}
		}
	}
	vxCheckMessages(ms, e)
}

func vxCheckMessages(ms []*Message, e [][]bool) {
	ctx := newContext()
	g := CreateAllMessageDependencyGraph(ctx, ms)
	if vxCycle(e) {
		vx.Assert(ctx.error() != nil, "messages that need each other are accepted")
		vx.Reach("refused")
		return
	}
	vx.Assert(ctx.error() == nil, "messages are refused though none needs itself")
	vx.Assert(g != nil, "no graph")
	seen := map[*Message]bool{}
	for _, r := range g.Roots {
		for _, m := range r.childMessages() {
			seen[m] = true
		}
	}
	for i, m := range ms {
		vx.Assert(seen[m], "a message is missing")
		root := true
		for j := range ms {
			if e[j][i] {
				root = false
			}
		}
		is := false
		for _, r := range g.Roots {
			is = is || r.Message == m
		}
		vx.Assert(is == root, "another set of outermost messages")
	}
	vx.Reach("accepted")
}

// Whatever the order in which maps are visited, the order of the messages is
// the same, also with equal names in different packages.
func VX_C21_Messages() {
	vx.MustReach("done")
	n := 3
	var bits [3][3]bool
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			bits[i][j] = vx.Bool("uses")
		}
	}
	same := vx.Bool("other package")
	name := [2]string{vxIdent("name", 2), vxIdent("name", 2)}
	run := func() string {
		ms := vxMessages(n)
		if same {
			ms[0].Name, ms[1].Name = name[0], name[1]
			ms[1].File = &File{Name: "g.proto", Package: &Package{Name: "q"}}
		}
		for i := range bits {
			for j := range bits[i] {
				if bits[i][j] {
					vxUses(ms[i], ms[j], 0)
				}
			}
		}
		g := CreateAllMessageDependencyGraph(newContext(), ms)
		s := ""
		for _, r := range g.Roots {
			for _, m := range r.childMessages() {
				s += m.FQDN() + ","
			}
			s += ";"
		}
		return s
	}
	want := run()
	vxAnyOrder(func() { vx.Assert(run() == want, "another order") })
	vx.Reach("done")
}
