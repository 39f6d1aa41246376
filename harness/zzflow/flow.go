package zzflow

import (
	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"
)

// Every expression is compiled once, before the requests explored.
func init() {
	for _, r := range []*GetChoiceRequest{{A: true}, {B: true, N: 1}, {B: true, N: -1}, {S: "x"}} {
		vxSvc.GetChoice(vxCtx, r)
	}
	vxSvc.GetList(vxCtx, &GetListRequest{Elems: []*Elem{{On: true}, {}}, Nums: []int64{1}})
	for _, r := range []*GetCheckedRequest{{}, {N: -1}, {N: 15, Deep: true}} {
		vxSvc.GetChecked(vxCtx, r)
	}
	for _, r := range []*GetStepsRequest{{}, {A: true, B: true, N: 1}} {
		vxSvc.GetSteps(vxCtx, r)
	}
}

// Exclusive fields: the first member whose condition holds, else the default, else none.
func VX_C25_Choice() {
	vx.MustReach("sub", "text", "number", "default", "a", "other", "none")
	vx.Delays(0)
	req := &GetChoiceRequest{A: vx.Bool("a"), B: vx.Bool("b"), N: vxMax(vx.Int64("n")), S: vx.String("s", 1)}
	res, err := vxSvc.GetChoice(vxCtx, req)
	vx.Assert(err == nil, "fails")
	c := res.Choice
	switch {
	case req.A:
		vx.Reach("sub")
		x, ok := c.Value.(*Choice_Sub)
		vx.Assert(ok && x.Sub != nil && x.Sub.N == req.N+1, "first member")
	case req.B && req.N > 0:
		vx.Reach("text")
		x, ok := c.Value.(*Choice_Text)
		vx.Assert(ok && x.Text == req.S, "second member")
	case req.B:
		vx.Reach("number")
		x, ok := c.Value.(*Choice_Number)
		vx.Assert(ok && x.Number == req.N, "third member")
	default:
		vx.Reach("default")
		x, ok := c.Value.(*Choice_None)
		vx.Assert(ok && x.None == (req.S == ""), "default member")
	}
	switch {
	case req.A:
		vx.Reach("a")
		x, ok := res.Optional.Value.(*Optional_Text)
		vx.Assert(ok && x.Text == req.S, "first member of a group without default")
	case req.S == "x":
		vx.Reach("other")
		x, ok := res.Optional.Value.(*Optional_Other)
		vx.Assert(ok && x.Other == "other", "second member of a group without default")
	default:
		vx.Reach("none")
		vx.Assert(res.Optional.Value == nil, "no member")
	}
}

// Lists: one element per source element, in order, of every kind.
func VX_C25_Lists() {
	vx.MustReach("done")
	vx.Delays(0)
	max := 3
	if vx.Thorough() {
		max = 4
	}
	req := &GetListRequest{}
	n := vx.Choose("elems", max)
	for i := 0; i < n; i++ {
		e := &Elem{N: vx.Int64("n"), On: vx.Bool("on")}
		if i < 2 {
			e.S = vx.String("s", 1)
		}
		vx.Assume(e.N > -1<<62 && e.N < 1<<62)
		req.Elems = append(req.Elems, e)
	}
	res, err := vxSvc.GetList(vxCtx, req)
	vx.Assert(err == nil, "fails")
	vx.Assert(len(res.Doubled) == n && len(res.Subs) == n && len(res.Kinds) == n && len(res.Again) == n, "length")
	on := 0
	for i, e := range req.Elems {
		vx.Assert(res.Doubled[i] == 2*e.N, "element computed by an expression")
		vx.Assert(res.Subs[i] != nil && res.Subs[i].N == e.N && res.Subs[i].S == e.S, "element which is a message")
		k := Kind_KIND_OTHER
		if e.On {
			k = Kind_KIND_RED
			vx.Assert(on < len(res.On) && res.On[on] == e.N, "element of a filtered list")
			on++
		}
		vx.Assert(res.Kinds[i] == k, "element which is an enum")
		vx.Assert(res.Again[i] == e.S, "list made from a list")
	}
	vx.Assert(on == len(res.On), "length of a filtered list")
	vx.Reach("done")
}

// Every element of a list fits the field or the request fails.
func VX_C25_NarrowList() {
	vx.MustReach("ok", "refused")
	vx.Delays(0)
	req := &GetListRequest{}
	n := vx.Choose("nums", 4)
	fits := true
	for i := 0; i < n; i++ {
		x := vx.Int64("x")
		req.Nums = append(req.Nums, x)
		fits = fits && x >= -1<<31 && x < 1<<31
	}
	res, err := vxSvc.GetList(vxCtx, req)
	vx.Assert((err == nil) == fits, "an element that does not fit is an error")
	if err != nil {
		vx.Reach("refused")
		return
	}
	vx.Reach("ok")
	vx.Assert(len(res.Narrow) == n, "length")
	for i, x := range req.Nums {
		vx.Assert(int64(res.Narrow[i]) == x, "element")
	}
}

// Validations: the first that applies decides.
func VX_C25_Validation() {
	vx.MustReach("ok", "negative", "details", "teens")
	vx.Delays(0)
	req := &GetCheckedRequest{N: vxMax(vx.Int64("n")), S: vx.String("s", 1), Deep: vx.Bool("deep")}
	vx.Assume(len(req.S) == 0 || req.S[0] < 0x80)
	res, err := vxSvc.GetChecked(vxCtx, req)
	switch {
	case req.N < 0:
		vx.Reach("negative")
		st, ok := status.FromError(err)
		vx.Assert(err != nil && ok && st.Code() == codes.InvalidArgument && st.Message() == "negative "+req.S && len(st.Details()) == 0, "first validation")
		vx.Assert(res == nil, "no response besides an error")
	case req.Deep && req.N > 5:
		vx.Reach("details")
		st, ok := status.FromError(err)
		vx.Assert(err != nil && ok && st.Code() == codes.FailedPrecondition && st.Message() == "details", "second validation")
		ds := st.Details()
		want := 0
		if req.N > 10 {
			want++
			b, ok := ds[0].(*errdetails.BadRequest)
			vx.Assert(ok && len(b.FieldViolations) == 1 && b.FieldViolations[0].Field == "n" && b.FieldViolations[0].Description == req.S, "first detail")
			if req.N < 20 {
				vx.Reach("teens")
				want++
				l, ok := ds[1].(*errdetails.LocalizedMessage)
				vx.Assert(ok && l.Locale == "en" && l.Message == "teens", "second detail")
			}
		}
		vx.Assert(len(ds) == want, "number of details")
	default:
		vx.Reach("ok")
		vx.Assert(err == nil && res.After == req.N+1, "a validation which does not apply changes nothing")
	}
}

// Conditions on every kind of definition; without its value a definition is empty.
func VX_C25_Steps() {
	vx.MustReach("done", "all")
	vx.Delays(0)
	req := &GetStepsRequest{A: vx.Bool("a"), B: vx.Bool("b"), N: vx.Int64("n")}
	vx.Assume(req.N > -1<<62 && req.N < 1<<62)
	res, err := vxSvc.GetSteps(vxCtx, req)
	vx.Assert(err == nil, "fails")
	var x int64
	if req.A {
		x = req.N
	}
	vx.Assert(res.X == x, "conditional expression")
	vx.Assert((res.Y != nil) == (x > 0), "conditional message is there exactly when its condition holds")
	var z int64
	if x > 0 {
		vx.Assert(res.Y.N == x, "conditional message")
		if req.B {
			z = x + 1
			vx.Reach("all")
		}
	}
	vx.Assert(res.Z == z, "expression depending on a conditional message")
	if req.B {
		vx.Assert(len(res.L) == 2 && res.L[0] == 1+x && res.L[1] == 2+x, "conditional list")
	} else {
		vx.Assert(len(res.L) == 0, "list whose condition is false")
	}
	e, t := Kind_KIND_OTHER, "set"
	if req.A {
		e, t = Kind_KIND_RED, ""
	}
	vx.Assert(res.E == e && res.T == t, "conditional enum and text")
	vx.Reach("done")
}
