package zzflow

import (
	"context"

	"github.com/mercari/grpc-federation/vx"
)

var (
	vxSvc *Flow
	vxCtx = context.Background()
)

func init() {
	file_zzflow_flow_proto_init()
	svc, err := NewFlow(FlowConfig{})
	if err != nil {
		panic(err)
	}
	vxSvc = svc
}

func vxMax(n int64) int64 { vx.Assume(n != 1<<63-1); return n }
