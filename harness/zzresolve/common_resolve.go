package zzresolve

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

// vxImpl is the dependency and the implementation of the resolvers. What each
// of them is given and how often is recorded.
type vxImpl struct {
	zzdep.StoreClient
	mu    sync.Mutex
	count map[string]int
	fail  string // the one that fails
	how   int    // 0 status, 1 plain error, 2 panic, 3 cancelled, 4 panic about a cancelled context
	res   *zzdep.GetItemResponse
	req   *zzdep.GetItemRequest
	user  Resolve_Resolve_UserArgument
	name  *User
	names Resolve_Resolve_UserArgument
	leafs []string
	tag   Resolve_Resolve_GetResponseArgument
	extra Resolve_Resolve_GetResponseArgument
	wait  time.Duration
	heed  bool
}

func (s *vxImpl) step(name string, after ...string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.count[name]++
	if name != "leaf" {
		vx.Assert(s.count[name] == 1, "called again: "+name)
	}
	for _, a := range after {
		vx.Assert(s.count[a+" done"] == 1, name+" is called before what it needs is there: "+a)
	}
	if s.fail == name {
		switch s.how {
		case 0:
			return status.Error(codes.Aborted, name)
		case 1:
			return errors.New(name)
		case 2:
			panic(name)
		case 3:
			return context.Canceled
		default:
			panic(fmt.Errorf("%s: %w", name, context.Canceled))
		}
	}
	s.count[name+" done"]++
	return nil
}

func (s *vxImpl) GetItem(ctx context.Context, in *zzdep.GetItemRequest, _ ...grpc.CallOption) (*zzdep.GetItemResponse, error) {
	s.req = in
	if s.wait > 0 {
		if s.heed {
			select {
			case <-time.After(s.wait):
			case <-ctx.Done():
				return nil, status.FromContextError(ctx.Err()).Err()
			}
		} else {
			time.Sleep(s.wait)
		}
	}
	if err := s.step("dep"); err != nil {
		return nil, err
	}
	return s.res, nil
}

func (s *vxImpl) Dep_StoreClient(ResolveClientConfig) (zzdep.StoreClient, error) { return s, nil }

func (s *vxImpl) Resolve_Resolve_Leaf(_ context.Context, in *Resolve_Resolve_LeafArgument) (*Leaf, error) {
	if err := s.step("leaf", "dep"); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.leafs = append(s.leafs, in.Owner.GetName())
	return &Leaf{Name: "leaf " + in.Owner.GetName()}, nil
}

func (s *vxImpl) Resolve_Resolve_User(_ context.Context, in *Resolve_Resolve_UserArgument) (*User, error) {
	if err := s.step("user", "dep"); err != nil {
		return nil, err
	}
	s.user = *in
	return &User{Id: in.Key, Name: "lost", Leaf: &Leaf{Name: "lost"}, Age: in.Twice + 1}, nil
}

func (s *vxImpl) Resolve_Resolve_User_Name(_ context.Context, in *Resolve_Resolve_User_NameArgument) (string, error) {
	if err := s.step("name", "dep", "user"); err != nil {
		return "", err
	}
	s.names, s.name = *in.Resolve_Resolve_UserArgument, &User{Id: in.Resolve_User.Id, Age: in.Resolve_User.Age}
	return "name " + in.Key, nil
}

func (s *vxImpl) Resolve_Resolve_GetResponse_Tag(_ context.Context, in *Resolve_Resolve_GetResponse_TagArgument) (string, error) {
	if err := s.step("tag", "dep"); err != nil {
		return "", err
	}
	s.tag = *in.Resolve_Resolve_GetResponseArgument
	return "tag " + in.S, nil
}

func (s *vxImpl) Resolve_Resolve_GetResponse_Extra(_ context.Context, in *Resolve_Resolve_GetResponse_ExtraArgument) ([]*Leaf, error) {
	if err := s.step("extra", "dep"); err != nil {
		return nil, err
	}
	s.extra = *in.Resolve_Resolve_GetResponseArgument
	return []*Leaf{{Name: in.UserName}, nil}, nil
}

func (s *vxImpl) reset(res *zzdep.GetItemResponse) {
	s.count, s.res, s.fail, s.how = map[string]int{}, res, "", 0
	s.user, s.names, s.name, s.leafs = Resolve_Resolve_UserArgument{}, Resolve_Resolve_UserArgument{}, nil, nil
	s.tag, s.extra = Resolve_Resolve_GetResponseArgument{}, Resolve_Resolve_GetResponseArgument{}
	s.wait, s.heed, s.req = 0, false, nil
}

var (
	vxI   = &vxImpl{}
	vxSvc *Resolve
	vxCtx = context.Background()
)

// Every expression is compiled once, before the requests explored.
func init() {
	file_zzresolve_resolve_proto_init()
	svc, err := NewResolve(ResolveConfig{Client: vxI, Resolver: vxI})
	if err != nil {
		panic(err)
	}
	vxSvc = svc
	for _, total := range []int64{0, 1, 1000} {
		for _, skip := range []bool{true, false} {
			vxI.reset(&zzdep.GetItemResponse{Total: total, Item: &zzdep.Item{}, Items: []*zzdep.Item{{}}})
			vxSvc.Get(vxCtx, &GetRequest{Skip: skip})
		}
	}
	for _, n := range []int64{-1, 1} {
		vxI.reset(&zzdep.GetItemResponse{})
		vxSvc.Run(vxCtx, &RunRequest{N: n})
		vxI.reset(&zzdep.GetItemResponse{})
		vxSvc.Limit(vxCtx, &LimitRequest{})
		vxI.reset(&zzdep.GetItemResponse{Item: &zzdep.Item{}})
		vxSvc.Both(vxCtx, &BothRequest{})
	}
}

func vxIs(err error, c codes.Code, msg string) bool {
	st, ok := status.FromError(err)
	return err != nil && ok && st.Code() == c && st.Message() == msg
}

// vxFailed asserts that err is the failure chosen.
func vxFailed(err error) {
	switch vxI.how {
	case 0:
		vx.Assert(vxIs(err, codes.Aborted, vxI.fail), "failure of the one that fails")
	case 1, 3:
		vx.Assert(err != nil, "failure without a status")
	default:
		vx.Assert(err != nil && strings.Contains(err.Error(), vxI.fail), "a panic is a failure")
	}
}
