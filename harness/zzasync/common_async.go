package zzasync

import (
	"context"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

type vxStore struct {
	zzdep.StoreClient
	item  func(ctx context.Context, in *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error)
	owner func(ctx context.Context, in *zzdep.GetOwnerRequest) (*zzdep.GetOwnerResponse, error)
}

func (s *vxStore) GetItem(ctx context.Context, in *zzdep.GetItemRequest, _ ...grpc.CallOption) (*zzdep.GetItemResponse, error) {
	return s.item(ctx, in)
}

func (s *vxStore) GetOwner(ctx context.Context, in *zzdep.GetOwnerRequest, _ ...grpc.CallOption) (*zzdep.GetOwnerResponse, error) {
	return s.owner(ctx, in)
}

func (s *vxStore) Dep_StoreClient(AsyncClientConfig) (zzdep.StoreClient, error) { return s, nil }

var (
	vxDep = &vxStore{}
	vxSvc *Async
	vxCtx = context.Background()
)

func vxOK() {
	vxDep.item = func(context.Context, *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		return &zzdep.GetItemResponse{Total: 1}, nil
	}
	vxDep.owner = func(context.Context, *zzdep.GetOwnerRequest) (*zzdep.GetOwnerResponse, error) {
		return &zzdep.GetOwnerResponse{Owner: &zzdep.Owner{Name: "x"}}, nil
	}
}

func vxFailing(c codes.Code) {
	vxDep.item = func(context.Context, *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		return nil, status.Error(c, "")
	}
	vxDep.owner = func(context.Context, *zzdep.GetOwnerRequest) (*zzdep.GetOwnerResponse, error) {
		return nil, status.Error(c, "")
	}
}

// Every expression is compiled once, before the requests explored.
func init() {
	file_zzasync_async_proto_init()
	svc, err := NewAsync(AsyncConfig{Client: vxDep})
	if err != nil {
		panic(err)
	}
	vxSvc = svc
	for _, c := range []codes.Code{codes.OK, codes.Internal, codes.Aborted, codes.NotFound, codes.DeadlineExceeded} {
		vxFailing(c)
		if c == codes.OK {
			vxOK()
		}
		vxSvc.GetTwo(vxCtx, &GetTwoRequest{})
		vxSvc.GetDiamond(vxCtx, &GetDiamondRequest{})
		vxSvc.GetRetried(vxCtx, &GetRetriedRequest{})
	}
	vxOK()
	item := vxDep.item
	vxFailing(codes.Aborted)
	vxDep.item = item
	vxSvc.GetTwo(vxCtx, &GetTwoRequest{})
	owner := vxDep.owner
	vxFailing(codes.NotFound)
	vxDep.owner = owner
	vxSvc.GetTwo(vxCtx, &GetTwoRequest{})
}

func vxIs(err error, c codes.Code, msg string) bool {
	st, ok := status.FromError(err)
	return err != nil && ok && st.Code() == c && st.Message() == msg
}

func vxPlainMsg(name string) string {
	s := vx.String(name, 1)
	vx.Assume(len(s) == 0 || s[0] < 0x80)
	return s
}
