package federation

import (
	"context"
	"fmt"

	"github.com/google/cel-go/cel"
	celtypes "github.com/google/cel-go/common/types"
	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/mercari/grpc-federation/vx"
)

// vxTexts returns n programs, each of which yields its text, fails or yields a
// number instead, by choice.
func vxTexts(n int) (progs []cel.Program, texts []string, ok []bool) {
	for i := 0; i < n; i++ {
		switch vx.Choose("part", 3) {
		case 0:
			s := fmt.Sprintf("t%d", i)
			if i == 0 {
				s = vx.String("text", 2)
			}
			progs, texts, ok = append(progs, vxConst(celtypes.String(s))), append(texts, s), append(ok, true)
		case 1:
			progs, texts, ok = append(progs, vxErr(errVX)), append(texts, ""), append(ok, false)
		case 2:
			progs, texts, ok = append(progs, vxConst(celtypes.Bytes{1}.Equal(celtypes.Bytes{1}))), append(texts, ""), append(ok, false)
		}
	}
	return
}

// Precondition failures: exactly the violations all of whose parts could be
// evaluated, in order; none at all means no detail.
func VX_C18_PreconditionFailure() {
	vx.MustReach("all", "some", "none")
	max := 2
	if vx.Thorough() {
		max = 3
	}
	n := vx.Choose("n", max+1)
	progs, texts, ok := vxTexts(3 * n)
	logger, recs := vxLogger()
	ctx := WithLogger(vxCtx(progs...), logger)
	var vs []*PreconditionFailureViolation
	var want []int
	for i := 0; i < n; i++ {
		vs = append(vs, &PreconditionFailureViolation{
			Type: "t", TypeCacheIndex: 3*i + 1, Subject: "s", SubjectCacheIndex: 3*i + 2, Desc: "d", DescCacheIndex: 3*i + 3,
		})
		if ok[3*i] && ok[3*i+1] && ok[3*i+2] {
			want = append(want, i)
		}
	}
	got := PreconditionFailure(ctx, vxNewValue(ctx), vs)
	vx.Assert(len(*recs) == n-len(want), "a violation that could not be evaluated was not logged")
	if len(want) == 0 {
		vx.Reach("none")
		vx.Assert(got == nil, "detail without violations")
		return
	}
	if len(want) == n {
		vx.Reach("all")
	} else {
		vx.Reach("some")
	}
	vx.Assert(got != nil && len(got.GetViolations()) == len(want), "a violation was lost, or one that could not be evaluated was reported")
	for k, i := range want {
		v := got.GetViolations()[k]
		vx.Assert(v.GetType() == texts[3*i] && v.GetSubject() == texts[3*i+1] && v.GetDescription() == texts[3*i+2], "violation has wrong parts")
	}
}

func VX_C18_BadRequest() {
	vx.MustReach("all", "some", "none")
	max := 3
	n := vx.Choose("n", max+1)
	progs, texts, ok := vxTexts(2 * n)
	logger, recs := vxLogger()
	ctx := WithLogger(vxCtx(progs...), logger)
	var vs []*BadRequestFieldViolation
	var want []int
	for i := 0; i < n; i++ {
		vs = append(vs, &BadRequestFieldViolation{Field: "f", FieldCacheIndex: 2*i + 1, Desc: "d", DescCacheIndex: 2*i + 2})
		if ok[2*i] && ok[2*i+1] {
			want = append(want, i)
		}
	}
	got := BadRequest(ctx, vxNewValue(ctx), vs)
	vx.Assert(len(*recs) == n-len(want), "a violation that could not be evaluated was not logged")
	if len(want) == 0 {
		vx.Reach("none")
		vx.Assert(got == nil, "detail without violations")
		return
	}
	if len(want) == n {
		vx.Reach("all")
	} else {
		vx.Reach("some")
	}
	vx.Assert(got != nil && len(got.GetFieldViolations()) == len(want), "a violation was lost, or one that could not be evaluated was reported")
	for k, i := range want {
		v := got.GetFieldViolations()[k]
		vx.Assert(v.GetField() == texts[2*i] && v.GetDescription() == texts[2*i+1], "violation has wrong parts")
	}
}

func VX_C18_LocalizedMessage() {
	vx.MustReach("message", "failed")
	progs, texts, ok := vxTexts(1)
	logger, recs := vxLogger()
	ctx := WithLogger(vxCtx(progs...), logger)
	locale := vx.String("locale", 2)
	got := LocalizedMessage(ctx, &LocalizedMessageParam{Value: vxNewValue(ctx), Locale: locale, Message: "m", CacheIndex: 1})
	if ok[0] {
		vx.Reach("message")
		vx.Assert(got.GetLocale() == locale && got.GetMessage() == texts[0], "message has wrong parts")
		vx.Assert(len(*recs) == 0, "failure logged without one")
	} else {
		vx.Reach("failed")
		vx.Assert(got == nil, "message that could not be evaluated was reported")
		vx.Assert(len(*recs) == 1, "failure was not logged")
	}
}

// Custom messages: the value of the variable, or nothing.
func VX_C18_CustomMessage() {
	vx.MustReach("message", "nothing")
	reason := vx.String("reason", 2)
	info := &errdetails.ErrorInfo{Reason: reason}
	var p cel.Program
	reg := vxHelper.CELRegistry()
	kind := vx.Choose("kind", 5)
	logged := 0
	switch kind {
	case 0:
		p = vxConst(reg.NativeToValue(info))
	case 1:
		p, logged = vxErr(errVX), 1
	case 2:
		p = vxConst(celtypes.NullValue)
	case 3:
		p = vxConst(celtypes.OptionalNone)
	case 4:
		p = vxConst(celtypes.String("not a message"))
	}
	logger, recs := vxLogger()
	ctx := WithLogger(vxCtx(p), logger)
	got := CustomMessage(ctx, &CustomMessageParam{Value: vxNewValue(ctx), MessageValueName: "m", CacheIndex: 1, MessageIndex: 3})
	if kind == 0 {
		vx.Reach("message")
		m, ok := got.(*errdetails.ErrorInfo)
		vx.Assert(ok && m.GetReason() == reason, "message was lost or changed")
	} else {
		vx.Reach("nothing")
		vx.Assert(got == nil, "something was reported for a message that is not there")
	}
	vx.Assert(len(*recs) >= logged, "failure was not logged")
	_ = context.Background
	_ = wrapperspb.String
}
