package zzasync

import (
	"context"
	"errors"
	"sync"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

// A call is made once, after everything it needs and only if that succeeded.
func VX_C28_Diamond() {
	vx.MustReach("ok", "a", "left", "c", "d", "left and c")
	if vx.Choose("starve", 2) == 1 {
		vx.Starve(1)
	} else {
		vx.Delays(1)
	}
	if vx.Thorough() {
		if vx.Choose("starve", 2) == 1 {
			vx.Starve(2)
		} else {
			vx.Delays(2)
		}
	}
	failing := []string{"", "a", "left", "c", "d", "left and c"}[vx.Choose("failing", 6)]
	fails := func(name string) bool {
		return failing == name || failing == "left and c" && (name == "left" || name == "c")
	}
	var mu sync.Mutex
	count := map[string]int{}
	step := func(name string, after ...string) error {
		mu.Lock()
		defer mu.Unlock()
		count[name]++
		vx.Assert(count[name] == 1, "called again")
		for _, a := range after {
			vx.Assert(count[a+" done"] == 1, "called before what it needs was there")
		}
		if fails(name) {
			return status.Error(codes.Aborted, name)
		}
		count[name+" done"]++
		return nil
	}
	n, t := vx.Int64("n"), vx.Int64("t")
	vx.Assume(t != 1<<63-1)
	vxDep.item = func(_ context.Context, in *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		name := "a"
		if in.Id != "" {
			name = "d"
		}
		if name == "a" {
			if err := step(name); err != nil {
				return nil, err
			}
			vx.Assert(in.N == n, "first request")
			return &zzdep.GetItemResponse{Total: t, Item: &zzdep.Item{Id: "7"}}, nil
		}
		if err := step(name, "a", "left", "c"); err != nil {
			return nil, err
		}
		vx.Assert(in.N == t+1 && in.Id == "owner c7", "last request")
		return &zzdep.GetItemResponse{Total: 99}, nil
	}
	vxDep.owner = func(_ context.Context, in *zzdep.GetOwnerRequest) (*zzdep.GetOwnerResponse, error) {
		name := "c"
		if in.Name == "left" {
			name = "left"
		} else {
			vx.Assert(in.Name == "c7", "request in the middle")
		}
		if err := step(name, "a"); err != nil {
			return nil, err
		}
		return &zzdep.GetOwnerResponse{Owner: &zzdep.Owner{Name: "owner " + in.Name}}, nil
	}
	res, err := vxSvc.GetDiamond(vxCtx, &GetDiamondRequest{N: n})
	mu.Lock()
	defer mu.Unlock()
	if failing == "" {
		vx.Reach("ok")
		vx.Assert(err == nil && res.Total == 99 && res.Left == "owner left", "result")
		vx.Assert(len(count) == 8, "calls")
		return
	}
	vx.Reach(failing)
	vx.Assert(res == nil, "no response besides a failure")
	if failing == "left and c" {
		vx.Assert(vxIs(err, codes.Aborted, "left") || vxIs(err, codes.Aborted, "c"), "failure of one of the calls")
	} else {
		vx.Assert(vxIs(err, codes.Aborted, failing), "failure of the call")
	}
	switch failing {
	case "a":
		vx.Assert(count["left"]+count["c"]+count["d"] == 0, "called although what it needs failed")
	case "left", "c", "left and c":
		vx.Assert(count["d"] == 0, "called although what it needs failed")
	}
}

// Calls that do not need each other run at the same time.
func VX_C28_Concurrent() {
	vx.MustReach("done")
	if vx.Choose("starve", 2) == 1 {
		vx.Starve(1)
	} else {
		vx.Delays(1)
	}
	both := make(chan struct{})
	var mu sync.Mutex
	n := 0
	meet := func() {
		mu.Lock()
		n++
		if n == 2 {
			close(both)
		}
		mu.Unlock()
		<-both
	}
	vxDep.item = func(context.Context, *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		return &zzdep.GetItemResponse{Total: 1}, nil
	}
	vxDep.owner = func(context.Context, *zzdep.GetOwnerRequest) (*zzdep.GetOwnerResponse, error) {
		meet()
		return &zzdep.GetOwnerResponse{}, nil
	}
	_, err := vxSvc.GetDiamond(vxCtx, &GetDiamondRequest{})
	vx.Assert(err == nil && n == 2, "calls at the same time")
	vx.Reach("done")
}

// Each call handles its own failure, whatever the other does.
func VX_C28_Failures() {
	vx.MustReach("ok", "both ignored", "a ignored", "b ignored", "failed")
	if vx.Choose("starve", 2) == 1 {
		vx.Starve(2)
	} else {
		vx.Delays(2)
	}
	if vx.Thorough() {
		if vx.Choose("starve", 2) == 1 {
			vx.Starve(3)
		} else {
			vx.Delays(3)
		}
	}
	// a cancellation without a status is a failure like any other
	cs := []codes.Code{codes.OK, codes.NotFound, codes.Aborted, codes.Canceled}
	a, b := cs[vx.Choose("a", 4)], cs[vx.Choose("b", 4)]
	fail := func(c codes.Code, msg string) error {
		if c == codes.Canceled {
			return context.Canceled
		}
		return status.Error(c, msg)
	}
	vxDep.item = func(context.Context, *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		if a != codes.OK {
			return nil, fail(a, "a")
		}
		return &zzdep.GetItemResponse{Total: 1}, nil
	}
	vxDep.owner = func(context.Context, *zzdep.GetOwnerRequest) (*zzdep.GetOwnerResponse, error) {
		if b != codes.OK {
			return nil, fail(b, "b")
		}
		return &zzdep.GetOwnerResponse{Owner: &zzdep.Owner{Name: "x"}}, nil
	}
	res, err := vxSvc.GetTwo(vxCtx, &GetTwoRequest{})
	ac, bc := a == codes.Canceled, b == codes.Canceled
	af, bf := a == codes.Aborted, b == codes.NotFound
	if af || bf || ac || bc {
		vx.Reach("failed")
		vx.Assert(res == nil, "no response besides a failure")
		vx.Assert(af && vxIs(err, a, "a") || bf && vxIs(err, b, "b") || (ac || bc) && errors.Is(err, context.Canceled), "failure which is not handled")
		return
	}
	vx.Assert(err == nil, "failure although every failure is handled")
	total, name := int64(1), "x"
	if a != codes.OK {
		total = -1
	}
	if b != codes.OK {
		name = "b"
	}
	vx.Assert(res.Total == total && res.Name == name && res.Both == (total > 0), "result")
	switch {
	case a == codes.OK && b == codes.OK:
		vx.Reach("ok")
	case a == codes.OK:
		vx.Reach("b ignored")
	case b == codes.OK:
		vx.Reach("a ignored")
	default:
		vx.Reach("both ignored")
	}
}

// Retries, their interval, their number and the time limit are those of the call.
func VX_C28_Retries() {
	vx.MustReach("ok", "refused", "used up", "late")
	vx.Delays(0)
	id := vxPlainMsg("id")
	attempts := 0
	var at []int64
	end := ""
	vxDep.item = func(ctx context.Context, in *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		vx.Assert(in.Id == id, "request of an attempt")
		vx.Assert(end == "", "attempted again although it must not")
		attempts++
		at = append(at, vx.Now())
		switch vx.Choose("outcome", 4) {
		case 0:
			end = "ok"
			return &zzdep.GetItemResponse{Total: 5, Item: &zzdep.Item{Id: "o"}}, nil
		case 1:
			end = "refused"
			return nil, status.Error(codes.Internal, "no")
		case 2:
			if attempts == 3 {
				end = "used up"
			}
			return nil, status.Error(codes.Unavailable, "again")
		}
		end = "late"
		<-ctx.Done()
		return nil, status.FromContextError(ctx.Err()).Err()
	}
	names, outs := 0, 0
	vxDep.owner = func(_ context.Context, in *zzdep.GetOwnerRequest) (*zzdep.GetOwnerResponse, error) {
		names++
		outs++
		if names < 3 {
			return nil, status.Error(codes.Unknown, "flaky")
		}
		return &zzdep.GetOwnerResponse{Owner: &zzdep.Owner{Name: "n" + in.Name}}, nil
	}
	start := vx.Now()
	res, err := vxSvc.GetRetried(vxCtx, &GetRetriedRequest{Id: id})
	spent := vx.Now() - start
	vx.Reach(end)
	for i := 1; i < len(at); i++ {
		vx.Assert(at[i]-at[i-1] >= 30e6, "attempted again too soon")
		if vx.Symbolic() {
			vx.Assert(at[i]-at[i-1] < 31e6, "attempted again too late")
		}
	}
	switch end {
	case "ok":
		vx.Assert(err == nil && res.Total == 5 && res.Name == "no", "result")
		vx.Assert(names == 3 && spent >= 30e6*int64(attempts-1)+30e6, "retries of the other call")
	case "refused":
		vx.Assert(vxIs(err, codes.Internal, "no"), "failure that is not retried")
	case "used up":
		vx.Assert(attempts == 3 && vxIs(err, codes.Unavailable, "again"), "last failure")
	case "late":
		vx.Assert(err == nil && res.Total == -2, "the time limit is a failure that can be handled")
		vx.Assert(spent >= 100e6, "gave up before the time limit")
		if vx.Symbolic() {
			vx.Assert(spent < 200e6, "gave up long after the time limit")
		}
	}
}
