package federation

import (
	"context"
	"errors"
	"fmt"
	"log/slog"
	"strings"

	"golang.org/x/sync/errgroup"
	"google.golang.org/genproto/googleapis/rpc/errdetails"
	grpccodes "google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/protoadapt"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/mercari/grpc-federation/vx"

	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
)

// A branch that panics becomes an error of the group; the others are not
// disturbed and the process goes on.
func VX_C09_PanickingBranch() {
	vx.MustReach("done")
	kind := vx.Choose("kind", 6)
	var eg errgroup.Group
	n := 0
	var finished [2]bool
	for i := 0; i < 2; i++ {
		i := i
		GoWithRecover(&eg, func() (any, error) {
			if i == 0 {
				switch kind {
				case 0:
					panic("vx: boom")
				case 1:
					panic(errVX)
				case 2:
					var m map[string]int
					m["x"]++
				case 3:
					var v *vxVars
					v.a++
				case 4:
					s := make([]int, n)
					s[vx.Choose("idx", 2)]++
				case 5:
					return nil, errVX
				}
			}
			finished[i] = true
			return nil, nil
		})
	}
	err := eg.Wait()
	vx.Assert(err != nil, "panic was lost")
	vx.Assert(!finished[0] && finished[1], "another branch did not finish")
	var re *RecoveredError
	switch kind {
	case 0:
		vx.Assert(errors.As(err, &re) && re.Message == "vx: boom", "panic message was lost")
		vx.Assert(strings.Contains(err.Error(), "vx: boom"), "error does not show the panic message")
	case 1:
		vx.Assert(errors.As(err, &re) && re.Message == errVX.Error(), "panic message was lost")
	case 5:
		vx.Assert(err == errVX, "error was replaced")
	default:
		vx.Assert(errors.As(err, &re) && re.Message != "", "runtime panic did not become an error")
	}
	vx.Reach("done")
}

// Message and stack of a recovered panic, whatever was thrown.
func VX_C09_Recovered() {
	vx.MustReach("oneLine", "lines")
	n := 4
	if vx.Thorough() {
		n = 5
	}
	msg := vx.String("msg", n)
	stack := []string{"", "goroutine 1 [running]:\n\tmain.go:1\n\nfoo()\n", "a\n\t\tb"}[vx.Choose("stack", 3)]
	e := RecoverError(msg, []byte(stack))
	src := stack
	if i := strings.IndexByte(msg, '\n'); i >= 0 {
		vx.Reach("lines")
		vx.Assert(e.Message == msg[:i], "message is not the first line of the panic")
		src = msg[i+1:]
	} else {
		vx.Reach("oneLine")
		vx.Assert(e.Message == msg, "message is not that of the panic")
	}
	k := 0
	for _, line := range strings.Split(src, "\n") {
		if line == "" {
			continue
		}
		vx.Assert(k < len(e.Stack), "a line of the stack was lost")
		vx.Assert(e.Stack[k] == strings.TrimPrefix(line, "\t"), "a line of the stack was changed")
		k++
	}
	vx.Assert(k == len(e.Stack), "stack has extra lines")
	vx.Assert(e.Error() == "recovered error: "+e.Message, "error text")
}

// Wrapping an error with log attributes changes neither its identity, its
// text nor its status.
func VX_C09_WithLogAttrs() {
	vx.MustReach("status", "plain", "nil")
	code := vx.Choose("code", 17)
	var err error
	switch vx.Choose("err", 3) {
	case 0:
		if code == 0 {
			code = 5
		}
		vx.Reach("status")
		err = grpcstatus.Error(grpccodes.Code(code), "vx: status")
	case 1:
		vx.Reach("plain")
		err = fmt.Errorf("outer: %w", errVX)
	case 2:
		vx.Reach("nil")
		vx.Assert(NewErrorWithLogAttrs(nil, slog.LevelWarn, nil) == nil, "no error became an error")
		return
	}
	w := NewErrorWithLogAttrs(err, slog.LevelWarn, []slog.Attr{slog.String("k", "v")})
	vx.Assert(errors.Is(w, err) && w.Error() == err.Error(), "wrapping changed the error")
	vx.Assert(grpcstatus.Code(w) == grpcstatus.Code(err), "wrapping changed the status code")
	var re *ErrorWithLogAttrs
	vx.Assert(errors.As(fmt.Errorf("again: %w", w), &re), "attributes not found in a wrapped error")
}

// One failed request is logged exactly once, at its level, with its message
// and its attributes.
func VX_C09_ErrorLog() {
	vx.MustReach("status", "recovered", "plain", "nil")
	logger, recs := vxLogger()
	ctx := WithLogger(context.Background(), logger)
	kind := vx.Choose("kind", 4)
	wrapped := vx.Choose("wrapped", 2) == 1
	level := []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError}[vx.Choose("level", 4)]
	var err error
	switch kind {
	case 0:
		vx.Reach("nil")
		OutputErrorLog(ctx, nil)
		vx.Assert(len(*recs) == 0, "no error was logged as one")
		return
	case 1:
		err = grpcstatus.Error(grpccodes.NotFound, "vx: gone")
	case 2:
		err = RecoverError("vx: boom", []byte("x\ny"))
	case 3:
		err = errVX
	}
	if wrapped {
		err = NewErrorWithLogAttrs(err, level, []slog.Attr{slog.String("k1", "v"), slog.String("k2", "v")})
	}
	around := vx.Choose("around", 3)
	switch {
	case err == nil || kind == 2 && around == 2:
	case around == 1:
		err = fmt.Errorf("vx: outer: %w", err)
	case around == 2:
		err = errors.Join(errors.New("vx: first"), err)
	}
	OutputErrorLog(ctx, err)
	vx.Assert(len(*recs) == 1, "error not logged exactly once")
	rec := (*recs)[0]
	switch {
	case kind == 1:
		vx.Reach("status")
		vx.Assert(rec.msg == grpcstatus.Convert(err).Message() && strings.HasSuffix(rec.msg, "vx: gone"), "logged message is not that of the status")
		if wrapped {
			vx.Assert(rec.level == level, "logged at another level than the error's")
			vx.Assert(vxKeys(rec.attrs) == "k1,k2,grpc_status", "attributes of the error were not logged")
		} else {
			vx.Assert(rec.level == slog.LevelError, "error not logged as an error")
			vx.Assert(vxKeys(rec.attrs) == "grpc_status", "status was not logged")
		}
		g := rec.attrs[len(rec.attrs)-1].Value.Group()
		vx.Assert(len(g) == 2 && g[0].Value.String() == "NotFound", "status code was not logged")
	case kind == 2 && !wrapped:
		vx.Reach("recovered")
		vx.Assert(rec.level == slog.LevelError && rec.msg == "vx: boom", "panic not logged with its message")
		vx.Assert(vxKeys(rec.attrs) == "stack_trace" && len(rec.attrs[0].Value.Group()) == 2, "stack of the panic was not logged")
	case kind == 3 && !wrapped:
		vx.Reach("plain")
		vx.Assert(rec.level == slog.LevelError && rec.msg == err.Error(), "error not logged with its text")
	default:
		vx.Assert(rec.level == level && strings.HasPrefix(vxKeys(rec.attrs), "k1,k2"), "attributes of the error were not logged")
	}
}

func vxDetail(k int) protoadapt.MessageV1 {
	switch k {
	case 0:
		return &errdetails.ErrorInfo{Reason: "r"}
	case 1:
		return &errdetails.RetryInfo{RetryDelay: durationpb.New(5)}
	case 2:
		return &errdetails.DebugInfo{Detail: "d"}
	case 3:
		return &errdetails.QuotaFailure{}
	case 4:
		return &errdetails.PreconditionFailure{}
	case 5:
		return &errdetails.BadRequest{}
	case 6:
		return &errdetails.RequestInfo{RequestId: "q"}
	case 7:
		return &errdetails.ResourceInfo{Owner: "o"}
	case 8:
		return &errdetails.Help{}
	case 9:
		return &errdetails.LocalizedMessage{Locale: "l", Message: "m"}
	}
	return durationpb.New(7)
}

func vxDetailLists(e *grpcfedcel.Error) [11]int {
	return [11]int{
		len(e.GetErrorInfo()), len(e.GetRetryInfo()), len(e.GetDebugInfo()), len(e.GetQuotaFailures()),
		len(e.GetPreconditionFailures()), len(e.GetBadRequests()), len(e.GetRequestInfo()), len(e.GetResourceInfo()),
		len(e.GetHelps()), len(e.GetLocalizedMessages()), len(e.GetCustomMessages()),
	}
}

// An expression sees a failed call's code, message and every one of its
// details, each under its kind.
func VX_C09_ErrorValue() {
	vx.MustReach("done", "notStatus")
	code := vx.Choose("code", 16) + 1
	n := vx.Choose("n", 3)
	st := grpcstatus.New(grpccodes.Code(code), "vx: failed")
	var kinds []int
	var want [11]int
	for i := 0; i < n; i++ {
		k := vx.Choose("kind", 11)
		if !vx.Thorough() && i == 1 {
			vx.Assume(code == 5)
		}
		kinds = append(kinds, k)
		want[k]++
		var err error
		st, err = st.WithDetails(vxDetail(k))
		vx.Assert(err == nil, "detail rejected")
	}
	ctx := vxCtx()
	value := vxNewValue(ctx)
	if n == 0 && vx.Choose("plain", 2) == 1 {
		SetGRPCError(ctx, value, errVX)
		got, _ := vxSeen(value, "error")
		e, ok := got.(*grpcfedcel.Error)
		vx.Assert(ok && e.GetCode() == int32(grpccodes.Unknown) && e.GetMessage() == errVX.Error() && len(e.GetDetails()) == 0, "failure without a status is not visible as an unknown one")
		vx.Reach("notStatus")
		return
	}
	err := st.Err()
	if vx.Choose("wrap", 2) == 1 {
		err = NewErrorWithLogAttrs(err, slog.LevelWarn, nil)
	}
	SetGRPCError(ctx, value, err)
	got, _ := vxSeen(value, "error")
	e, ok := got.(*grpcfedcel.Error)
	vx.Assert(ok, "expression does not see the error")
	vx.Assert(e.GetCode() == int32(code) && e.GetMessage() == "vx: failed", "expression sees another code or message")
	vx.Assert(len(e.GetDetails()) == n, "a detail was lost")
	for i, d := range e.GetDetails() {
		m, err := d.UnmarshalNew()
		vx.Assert(err == nil && proto.Equal(m, vxDetail(kinds[i]).(proto.Message)), "a detail was changed")
	}
	vx.Assert(vxDetailLists(e) == want, "a detail is listed under another kind")
	vx.Reach("done")
}
