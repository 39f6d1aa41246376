package zzerrors

import (
	"log/slog"
	"strings"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/protoadapt"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

func init() {
	vxDep.get = func(*zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) { return &zzdep.GetItemResponse{}, nil }
	vxSvc.GetPlain(vxCtx, &GetPlainRequest{})
	vxSvc.GetHandled(vxCtx, &GetHandledRequest{})
	vxSvc.GetDetailed(vxCtx, &GetDetailedRequest{})
	vxSvc.GetInspected(vxCtx, &GetInspectedRequest{})
	for c := codes.Code(1); c <= 16; c++ {
		vxFail(vxStatus(c, "", &errdetails.PreconditionFailure{}, &errdetails.BadRequest{FieldViolations: []*errdetails.BadRequest_FieldViolation{{Field: "x"}}}))
		vxSvc.GetHandled(vxCtx, &GetHandledRequest{N: 10, Nums: []int64{1, 2}})
		vxSvc.GetHandled(vxCtx, &GetHandledRequest{N: 5, Nums: []int64{1, 2}})
		vxSvc.GetDetailed(vxCtx, &GetDetailedRequest{N: 10})
		vxSvc.GetInspected(vxCtx, &GetInspectedRequest{S: "y"})
	}
	vxFail(vxStatus(codes.Aborted, "", &errdetails.LocalizedMessage{}, &errdetails.LocalizedMessage{}))
	vxSvc.GetInspected(vxCtx, &GetInspectedRequest{S: "y"})
	vxFail(vxStatus(codes.Unknown, ""))
	vxSvc.GetCaught(vxCtx, &GetCaughtRequest{S: ""})
	vxSvc.GetCaught(vxCtx, &GetCaughtRequest{S: "y"})
	vxFail(vxStatus(codes.Aborted, ""))
	vxSvc.GetCaught(vxCtx, &GetCaughtRequest{S: ""})
	vxFail(vxStatus(codes.Unknown, "", &errdetails.ErrorInfo{}))
	vxSvc.GetTried(vxCtx, &GetTriedRequest{})
	vxSvc.GetTried(vxCtx, &GetTriedRequest{S: "y"})
	vxSvc.GetListed(vxCtx, &GetListedRequest{})
	vxLogs.levels = nil
}

// A failure nobody handles is the response's failure.
func VX_C27_Unhandled() {
	vx.MustReach("ok", "failed")
	vx.Delays(0)
	if vx.Bool("ok") {
		vx.Reach("ok")
		t := vx.Int64("total")
		vx.Assume(t != 1<<63-1)
		vxDep.get = func(*zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
			return &zzdep.GetItemResponse{Total: t}, nil
		}
		res, err := vxSvc.GetPlain(vxCtx, &GetPlainRequest{})
		vx.Assert(err == nil && res.Total == t+1 && len(vxLogs.levels) == 0, "success")
		return
	}
	vx.Reach("failed")
	fail, c, msg, details := vxAnyFailure()
	vxFail(fail)
	res, err := vxSvc.GetPlain(vxCtx, &GetPlainRequest{})
	vx.Assert(res == nil, "no response besides a failure")
	vxIs(err, c, msg, details, "failure")
	vx.Assert(vxDep.calls > 0, "called")
	if _, ok := status.FromError(fail); ok {
		vxOneLog(slog.LevelError)
	}
}

// The first block that applies decides about a failure.
func VX_C27_Blocks() {
	vx.MustReach("wrapped", "response", "ignored", "text only", "code only", "first", "second", "last", "original")
	vx.Delays(0)
	fail, c, msg, details := vxAnyFailure()
	vxFail(fail)
	req := &GetHandledRequest{N: vx.Int64("n"), S: vx.String("s", 1)}
	vx.Assume(req.N != 1<<63-1)
	vx.Assume(len(req.S) == 0 || req.S[0] < 0x80)
	for i := vx.Choose("nums", 3); i > 0; i-- {
		req.Nums = append(req.Nums, vx.Int64("num"))
	}
	calls := vxDep.calls
	res, err := vxSvc.GetHandled(vxCtx, req)
	vx.Assert(vxDep.calls == calls+1, "called once")
	n := len(req.Nums)
	switch {
	case c == codes.NotFound:
		vx.Reach("wrapped")
		vxIs(err, codes.Unavailable, req.S+msg, details, "code and text replaced")
		vxOneLog(slog.LevelWarn)
	case c == codes.InvalidArgument && req.N+1 > 10:
		vx.Reach("response")
		vx.Assert(err == nil && res.Total == req.N+1 && !res.Absent, "ignored with a response")
	case c == codes.Aborted:
		vx.Reach("ignored")
		vx.Assert(err == nil && res.Total == 0 && res.Absent, "ignored")
	case c == codes.Internal:
		vx.Reach("text only")
		vxIs(err, codes.Internal, "only the text", details, "text replaced")
		vxOneLog(slog.LevelInfo)
	case c == codes.DataLoss:
		vx.Reach("code only")
		want := msg
		if msg == "" {
			want = "error"
		}
		vxIs(err, codes.OutOfRange, want, details, "code replaced")
		vxOneLog(slog.LevelDebug)
	case c == codes.Unauthenticated && n > 0 && req.Nums[0] == 1:
		vx.Reach("first")
		vxIs(err, codes.AlreadyExists, "first", details, "condition on the request")
		vxOneLog(slog.LevelError)
	case c == codes.Canceled && n > 1:
		vx.Reach("second")
		vxIs(err, codes.AlreadyExists, "second", details, "condition after a definition")
	case c == codes.PermissionDenied && n > 1 && req.N == 5:
		vx.Reach("last")
		vx.Assert(err == nil && res.Total == req.Nums[0] && !res.Absent, "ignored with a response of the last block")
	default: // no condition holds, or one cannot be evaluated
		vx.Reach("original")
		vx.Assert(res == nil, "no response besides a failure")
		vxIs(err, c, msg, details, "original failure")
	}
	if err == nil {
		vx.Assert(len(vxLogs.levels) == 0, "no record without a failure")
	}
}

// Details of a failure: added in order where their conditions hold, kept where none are given.
func VX_C27_Details() {
	vx.MustReach("detailed", "kept", "both")
	vx.Delays(0)
	fail, c, msg, details := vxAnyFailure()
	vxFail(fail)
	req := &GetDetailedRequest{N: vx.Int64("n"), S: vx.String("s", 1)}
	vx.Assume(req.N > -1<<40 && req.N < 1<<40)
	vx.Assume(len(req.S) == 0 || req.S[0] < 0x80)
	_, err := vxSvc.GetDetailed(vxCtx, req)
	switch c {
	case codes.NotFound:
		vx.Reach("detailed")
		st, ok := status.FromError(err)
		vx.Assert(err != nil && ok && st.Code() == codes.FailedPrecondition && st.Message() == "detailed", "code and text")
		ds := st.Details()
		i := 0
		if 2*req.N > 10 {
			vx.Assert(len(ds) >= 2, "first details")
			r, ok := ds[0].(*Reason)
			vx.Assert(ok && r.N == 2*req.N && r.S == req.S, "message as detail")
			o, ok := ds[1].(*zzdep.Owner)
			vx.Assert(ok && o.Name == req.S && o.Age == 3, "value as detail")
			i = 2
		}
		if req.N < 100 {
			if i > 0 {
				vx.Reach("both")
			}
			vx.Assert(len(ds) == i+3, "second details")
			p, ok := ds[i].(*errdetails.PreconditionFailure)
			vx.Assert(ok && len(p.Violations) == 2, "precondition failure")
			v, w := p.Violations[0], p.Violations[1]
			vx.Assert(v.Type == "t" && v.Subject == req.S && v.Description == msg && w.Type == req.S && w.Subject == "u" && w.Description == "d", "violations")
			b, ok := ds[i+1].(*errdetails.BadRequest)
			vx.Assert(ok && len(b.FieldViolations) == 1 && b.FieldViolations[0].Field == "f" && b.FieldViolations[0].Description == req.S, "bad request")
			l, ok := ds[i+2].(*errdetails.LocalizedMessage)
			vx.Assert(ok && l.Locale == "en-US" && l.Message == req.S+"!", "localized message")
			i += 3
		}
		vx.Assert(len(ds) == i, "number of details")
	case codes.Aborted:
		vx.Reach("kept")
		vxIs(err, codes.Aborted, "kept", details, "details kept")
	default:
		vxIs(err, c, msg, details, "original failure")
	}
}

// Conditions see everything a failure carries.
func VX_C27_Inspected() {
	vx.MustReach("precondition", "bad request", "localized", "custom", "info", "text", "original")
	vx.Delays(0)
	s := vx.String("s", 1)
	msg := vx.String("msg", 1)
	x := vx.String("x", 1)
	var ds []protoadapt.MessageV1
	pre, bad, info, custom := vx.Bool("pre"), vx.Bool("bad"), vx.Bool("info"), vx.Bool("custom")
	if info {
		ds = append(ds, &errdetails.ErrorInfo{Reason: x})
	}
	if pre {
		ds = append(ds, &errdetails.PreconditionFailure{Violations: []*errdetails.PreconditionFailure_Violation{{Subject: "q"}, {Subject: x}}})
	}
	if custom {
		ds = append(ds, &zzdep.Owner{Name: x})
	}
	if bad {
		ds = append(ds, &errdetails.BadRequest{FieldViolations: []*errdetails.BadRequest_FieldViolation{{Field: x}}})
	}
	loc := vx.Choose("localized", 3)
	for i := 0; i < loc; i++ {
		ds = append(ds, &errdetails.LocalizedMessage{Message: []string{"first", "second"}[i]})
	}
	for _, t := range []string{s, msg, x} {
		vx.Assume(len(t) == 0 || t[0] < 0x80)
	}
	vxFail(vxStatus(codes.ResourceExhausted, msg, ds...))
	_, err := vxSvc.GetInspected(vxCtx, &GetInspectedRequest{S: s})
	want, text := codes.ResourceExhausted, msg
	switch {
	case pre && (s == x || s == "q"):
		want, text = codes.FailedPrecondition, "precondition"
		vx.Reach("precondition")
	case bad && x == s:
		want, text = codes.InvalidArgument, "bad request"
		vx.Reach("bad request")
	case loc == 2:
		want, text = codes.NotFound, "second"
		vx.Reach("localized")
	case custom:
		want, text = codes.OutOfRange, "custom"
		vx.Reach("custom")
	case info && x == s:
		want, text = codes.Aborted, "info"
		vx.Reach("info")
	case msg == s:
		want, text = codes.DataLoss, "text"
		vx.Reach("text")
	default:
		vx.Reach("original")
	}
	st, ok := status.FromError(err)
	vx.Note(st.Code().String() + " " + st.Message())
	vx.Note(want.String() + " " + text)
	vx.Assert(err != nil && ok && st.Code() == want && st.Message() == text && len(st.Details()) == len(ds), "the first block whose condition holds for the failure")
}

// No failure becomes a success, whatever it is, unless a block says so.
func VX_C27_Caught() {
	vx.MustReach("unknown", "caught", "original")
	vx.Delays(0)
	fail, c, msg, details := vxAnyFailure()
	vxFail(fail)
	req := &GetCaughtRequest{S: vx.String("s", 1)}
	vx.Assume(len(req.S) == 0 || req.S[0] < 0x80)
	res, err := vxSvc.GetCaught(vxCtx, req)
	vx.Assert(res == nil && err != nil, "a failure stays one")
	switch {
	case c == codes.Unknown && msg == req.S:
		vx.Reach("unknown")
		vxIs(err, c, "unknown", details, "block on the code and the text")
	case req.S == "":
		vx.Reach("caught")
		vxIs(err, c, "caught", details, "block on the request")
	default:
		vx.Reach("original")
		vxIs(err, c, msg, details, "original failure")
	}
}

// Neither does one of a call whose retry cannot be decided.
func VX_C27_Tried() {
	vx.MustReach("again", "at once", "undecided", "caught")
	vx.Delays(0)
	infos := vx.Choose("infos", 3)
	i := vx.Int64("i")
	again := vx.Bool("again")
	var ds []protoadapt.MessageV1
	for k := 0; k < infos; k++ {
		r := "no"
		if again {
			r = "again"
		}
		ds = append(ds, &errdetails.ErrorInfo{Reason: r})
	}
	c := codes.Code(vx.Uint32("code"))
	vx.Assume(c >= 1 && c <= 16)
	vxFail(vxStatus(c, "m", ds...))
	req := &GetTriedRequest{I: i, S: vx.String("s", 1)}
	vx.Assume(len(req.S) == 0 || req.S[0] < 0x80)
	calls := vxDep.calls
	res, err := vxSvc.GetTried(vxCtx, req)
	vx.Assert(res == nil && err != nil, "a failure stays one")
	st, ok := status.FromError(err)
	calls = vxDep.calls - calls
	decided := i >= 0 && i < int64(infos)
	if req.S == "" {
		vx.Reach("caught")
		vx.Assert(ok && st.Message() == "tried" && st.Code() != codes.OK, "text replaced")
	} else if decided {
		vx.Assert(ok && st.Message() == "m", "text")
	}
	switch {
	case !decided:
		vx.Reach("undecided")
		vx.Assert(calls == 1, "called once")
	case again:
		vx.Reach("again")
		vx.Assert(calls == 2 && st.Code() == c, "called twice")
	default:
		vx.Reach("at once")
		vx.Assert(calls == 1 && st.Code() == c, "called once")
	}
}

// vxDetail is a detail of a kind, and what the listing shows of it.
func vxDetail(kind, n int) (protoadapt.MessageV1, string) {
	t := string(rune('a' + n))
	switch kind {
	case 0:
		return &errdetails.ErrorInfo{Reason: t}, t
	case 1:
		return &errdetails.RetryInfo{RetryDelay: &durationpb.Duration{Seconds: int64(n)}}, string(rune('0'+n)) + "s"
	case 2:
		return &errdetails.DebugInfo{Detail: t}, t
	case 3:
		return &errdetails.QuotaFailure{Violations: []*errdetails.QuotaFailure_Violation{{Subject: t}}}, t
	case 4:
		return &errdetails.PreconditionFailure{Violations: []*errdetails.PreconditionFailure_Violation{{Subject: t}}}, t
	case 5:
		return &errdetails.BadRequest{FieldViolations: []*errdetails.BadRequest_FieldViolation{{Field: t}}}, t
	case 6:
		return &errdetails.RequestInfo{RequestId: t}, t
	case 7:
		return &errdetails.ResourceInfo{ResourceName: t}, t
	case 8:
		return &errdetails.Help{Links: []*errdetails.Help_Link{{Url: t}}}, t
	case 9:
		return &errdetails.LocalizedMessage{Message: t}, t
	}
	return &zzdep.Owner{Name: t}, "custom"
}

// Every detail of a failure is listed under its kind, in the failure's order.
func VX_C27_Listed() {
	vx.MustReach("none", "one", "same", "different", "three")
	vx.Delays(0)
	n := vx.Choose("n", 3)
	if n == 2 && vx.Choose("more", 2) == 1 {
		n = 3
	}
	msg := vx.String("msg", 1)
	vx.Assume(len(msg) == 0 || msg[0] < 0x80)
	var ds []protoadapt.MessageV1
	var lists [11][]string
	first := -1
	for i := 0; i < n; i++ {
		kind := first
		if i < 2 {
			kind = vx.Choose("kind", 11)
		}
		if i == 1 && kind == first {
			vx.Reach("same")
		} else if i == 1 {
			vx.Reach("different")
		}
		if i == 0 {
			first = kind
		}
		d, t := vxDetail(kind, i)
		ds = append(ds, d)
		lists[kind] = append(lists[kind], t)
	}
	vxFail(vxStatus(codes.ResourceExhausted, msg, ds...))
	_, err := vxSvc.GetListed(vxCtx, &GetListedRequest{})
	var want string
	for i, l := range lists {
		if i > 0 {
			want += ";"
		}
		want += strings.Join(l, ",")
	}
	want += "/" + string(rune('0'+n)) + msg
	vx.Reach([]string{"none", "one", "two", "three"}[n])
	st, ok := status.FromError(err)
	vx.Note(st.Message())
	vx.Assert(err != nil && ok && st.Message() == want, "every detail is listed under its kind, in order")
}
