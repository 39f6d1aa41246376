package zzerrors

import (
	"context"
	"errors"
	"log/slog"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/protoadapt"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

type vxStore struct {
	zzdep.StoreClient
	get   func(in *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error)
	calls int
}

func (s *vxStore) GetItem(_ context.Context, in *zzdep.GetItemRequest, _ ...grpc.CallOption) (*zzdep.GetItemResponse, error) {
	s.calls++
	return s.get(in)
}

func (s *vxStore) Dep_StoreClient(ErrorsClientConfig) (zzdep.StoreClient, error) { return s, nil }

// vxLog keeps the levels of the records about a failed request.
type vxLog struct{ levels []slog.Level }

func (l *vxLog) Enabled(context.Context, slog.Level) bool { return true }
func (l *vxLog) Handle(_ context.Context, r slog.Record) error {
	r.Attrs(func(a slog.Attr) bool {
		if a.Key == "error" {
			vx.Note(a.Value.String())
		}
		if a.Key == "grpc_status" {
			l.levels = append(l.levels, r.Level)
		}
		return true
	})
	return nil
}
func (l *vxLog) WithAttrs([]slog.Attr) slog.Handler { return l }
func (l *vxLog) WithGroup(string) slog.Handler      { return l }

var (
	vxDep  = &vxStore{}
	vxLogs = &vxLog{}
	vxSvc  *Errors
	vxCtx  = context.Background()
)

func init() {
	file_zzerrors_errors_proto_init()
	svc, err := NewErrors(ErrorsConfig{Client: vxDep, Logger: slog.New(vxLogs)})
	if err != nil {
		panic(err)
	}
	vxSvc = svc
}

func vxFail(err error) {
	vxDep.get = func(*zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) { return nil, err }
}

func vxStatus(c codes.Code, msg string, details ...protoadapt.MessageV1) error {
	st, err := status.New(c, msg).WithDetails(details...)
	if err != nil {
		panic(err)
	}
	return st.Err()
}

// vxAnyFailure is an arbitrary failure of a call, and the code and text it stands for.
func vxAnyFailure() (error, codes.Code, string, int) {
	msg := vx.String("msg", 1)
	vx.Assume(len(msg) == 0 || msg[0] < 0x80)
	switch vx.Choose("failure", 3) {
	case 0:
		return errors.New(msg), codes.Unknown, msg, 0
	case 1:
		c := codes.Code(vx.Uint32("code"))
		vx.Assume(c >= 1 && c <= 16)
		return status.Error(c, msg), c, msg, 0
	}
	c := codes.Code(vx.Uint32("code"))
	vx.Assume(c >= 1 && c <= 16)
	return vxStatus(c, msg, &errdetails.ErrorInfo{Reason: "why"}), c, msg, 1
}

func vxIs(err error, c codes.Code, msg string, details int, what string) {
	vx.Assert(err != nil, what)
	st, ok := status.FromError(err)
	if !ok { // a failure that is no status
		vx.Assert(c == codes.Unknown && err.Error() == msg && details == 0, what)
		return
	}
	vx.Assert(st.Code() == c, what+": code")
	vx.Assert(st.Message() == msg, what+": text")
	vx.Assert(len(st.Details()) == details, what+": details")
	if details == 1 {
		i, ok := st.Details()[0].(*errdetails.ErrorInfo)
		vx.Assert(ok && i.Reason == "why", what+": detail")
	}
}

func vxOneLog(l slog.Level) {
	vx.Assert(len(vxLogs.levels) == 1 && vxLogs.levels[0] == l, "level of the record")
}
