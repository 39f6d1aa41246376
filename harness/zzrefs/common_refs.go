package zzrefs

import (
	"context"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

type vxStore struct {
	zzdep.StoreClient
	mu    sync.Mutex
	began map[string]int
	done  map[string]int
	slow  string // the call that takes longer than the others
	fail  string // the call that fails
	item  func(in *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error)
}

func (s *vxStore) GetItem(_ context.Context, in *zzdep.GetItemRequest, _ ...grpc.CallOption) (*zzdep.GetItemResponse, error) {
	return s.item(in)
}

func (s *vxStore) GetOwner(_ context.Context, in *zzdep.GetOwnerRequest, _ ...grpc.CallOption) (*zzdep.GetOwnerResponse, error) {
	s.mu.Lock()
	s.began[in.Name]++
	vx.Assert(s.began[in.Name] == 1, "called again: "+in.Name)
	slow, fail := s.slow == in.Name, s.fail == in.Name
	s.mu.Unlock()
	if slow {
		time.Sleep(30 * time.Millisecond)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if fail {
		return nil, status.Error(codes.DataLoss, in.Name)
	}
	s.done[in.Name]++
	return &zzdep.GetOwnerResponse{Owner: &zzdep.Owner{Name: "<" + in.Name + ">"}}, nil
}

func (s *vxStore) Dep_StoreClient(RefsClientConfig) (zzdep.StoreClient, error) { return s, nil }

func (s *vxStore) reset(slow, fail string) {
	s.began, s.done, s.slow, s.fail = map[string]int{}, map[string]int{}, slow, fail
	s.item = func(*zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		return &zzdep.GetItemResponse{Item: &zzdep.Item{Id: "item"}}, nil
	}
}

var (
	vxDep = &vxStore{}
	vxSvc *Refs
	vxCtx = context.Background()
)

// Every expression is compiled once, before the requests explored.
func init() {
	file_zzrefs_refs_proto_init()
	svc, err := NewRefs(RefsConfig{Client: vxDep})
	if err != nil {
		panic(err)
	}
	vxSvc = svc
	for _, err := range []error{nil, status.Error(codes.NotFound, ""), status.Error(codes.Aborted, ""), status.Error(codes.Internal, ""), status.Error(codes.Unavailable, "")} {
		vxDep.reset("", "")
		if err != nil {
			vxDep.item = func(*zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) { return nil, err }
		}
		vxSvc.GetCall(vxCtx, &GetCallRequest{})
	}
	vxDep.reset("", "")
	vxSvc.GetRest(vxCtx, &GetRestRequest{})
	vxDep.reset("", "")
	vxSvc.GetRest(vxCtx, &GetRestRequest{Id: "<l_vif>"})
}

func vxIs(err error, c codes.Code, msg string) bool {
	st, ok := status.FromError(err)
	return err != nil && ok && st.Code() == c && st.Message() == msg
}

// vxPick chooses the variable that is late, or the one that is not there at all.
func vxPick(names []string) {
	n := names[vx.Choose("variable", len(names))]
	if vx.Bool("fails") {
		vxDep.reset("", n)
	} else {
		vxDep.reset(n, "")
	}
}
