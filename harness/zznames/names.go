package zznames

import (
	"context"
	"os"
	"strconv"

	grpcfed "github.com/mercari/grpc-federation/grpc/federation"
	"github.com/mercari/grpc-federation/vx"
)

var vxSvc *Names

func init() {
	file_zznames_names_proto_init()
	os.Setenv("ERR", "5")
	os.Unsetenv("TYPE")
	svc, err := NewNames(NamesConfig{})
	if err != nil {
		panic(err)
	}
	vxSvc = svc
	for _, r := range []*DoRequest{{}, {Fn: true, Value: 1033}, {Fn: true, Range: []int64{1, 2}}} {
		svc.Do(context.Background(), r)
	}
}

func vxInt(name string) int64 {
	n := vx.Int64(name)
	vx.Assume(n > -1<<60 && n < 1<<60)
	return n
}

// Names and texts that mean something in the code written.
func VX_C24_Names() {
	vx.MustReach("ok", "refused")
	vx.Delays(0)
	req := &DoRequest{Value: vxInt("value"), Type: vx.String("type", 1), Err: vxInt("err"), Fn: vx.Bool("fn"), S: vx.String("s", 1)}
	if vx.Bool("range") {
		req.Range = []int64{int64(vx.Choose("elem", 3)), 3}
		vx.Assume(req.Value > -3 && req.Value < 3)
	}
	res, err := vxSvc.Do(context.Background(), req)
	if req.Value == 1033 {
		vx.Reach("refused")
		st, ok := grpcfed.GRPCStatusFromError(err)
		vx.Assert(ok && st.Code() == grpcfed.FailedPreconditionCode && st.Message() == "`*/"+req.Type+"`*/", "failed validation")
		return
	}
	if err != nil {
		vx.Fail("unexpected failure: " + err.Error())
	}
	vx.Reach("ok")
	ctx := req.Value - 1
	e := req.Err - ctx
	sw := req.Type + "`*/"
	s := req.S + "`"
	fn := ""
	if req.Fn {
		fn = "*/" + sw
	}
	vx.Assert(res.Value == req.Value && res.Ctx == ctx && res.Err == e && res.V == 2 && res.Ret == e-2, "numbers")
	vx.Assert(res.Type == sw && res.Func == fn && res.S == s+"`" && res.XX == s && res.A_B_1 == s, "texts")
	vx.Assert(res.Req.V == e-2-1 && res.Req.Ctx == sw+"2" && res.Req.Value == s, "message")
	vx.Assert(res.Zznames == req.Value-25 && res.Dep == req.Value-33 && res.StringValue == sw+s+"*/", "later definitions")
	vx.Assert(res.Svc == "`d`\"*/" && res.Map == 5, "environment and variables of the service")
	vx.Assert(len(res.Range) == len(req.Range) && len(res.Eg) == len(req.Range), "lists")
	for i, n := range req.Range {
		n -= req.Value
		vx.Assert(res.Range[i] == n, "element of a list")
		vx.Assert(res.Eg[i].V == n-1 && res.Eg[i].Ctx == "c`2" && res.Eg[i].Value == strconv.FormatInt(n, 10), "message of a list")
	}
}
