package zzresolve

import (
	"time"

	"google.golang.org/grpc/codes"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

func vxGet(orders bool, total int64) {
	vx.Delays(0)
	items := 2
	req, res := &GetRequest{N: 4, S: "s"}, &zzdep.GetItemResponse{Total: total, Item: &zzdep.Item{Id: "i"}}
	if orders {
		if vx.Choose("starve", 2) == 1 {
			vx.Starve(1)
		} else {
			vx.Delays(1)
		}
	} else {
		req.N, req.S, req.Skip, res.Item.Id = vx.Int64("n"), vx.String("s", 1), vx.Bool("skip"), vx.String("id", 1)
		items = vx.Choose("items", 3)
	}
	for i := range items {
		it := &zzdep.Item{}
		if i > 0 || orders || vx.Bool("owner") {
			it.Owner = &zzdep.Owner{Name: []string{"x", "y"}[i]}
		}
		res.Items = append(res.Items, it)
	}
	vxI.reset(res)
	vxI.fail = []string{"", "dep", "leaf", "user", "name", "tag", "extra"}[vx.Choose("fail", 7)]
	if vxI.fail != "" {
		if orders {
			vxI.how = 2 * vx.Choose("how", 2)
		} else {
			vxI.how = vx.Choose("how", 5)
		}
	}
	got, err := vxSvc.Get(vxCtx, req)
	vxI.mu.Lock()
	defer vxI.mu.Unlock()
	vx.Assert(vxI.req.Id == req.S && vxI.req.N == req.N, "request of the call")
	big := !req.Skip && total > 50
	failed := vxI.fail != "" && vxI.count[vxI.fail] != vxI.count[vxI.fail+" done"]
	if failed && big && vxI.count["user"] == 0 {
		// the validation and the failure are independent of each other
		vx.Reach("two failures")
		vx.Assert(got == nil && err != nil, "no response besides a failure")
		return
	}
	if failed {
		vx.Reach("failed")
		vx.Assert(got == nil, "no response besides a failure")
		vxFailed(err)
		return
	}
	if big {
		vx.Reach("refused")
		vx.Assert(got == nil && vxIs(err, codes.OutOfRange, "big"), "failed validation of a message with a resolver")
		vx.Assert(vxI.count["user"] == 0 && vxI.count["name"] == 0, "resolver called although its message failed")
		return
	}
	if err != nil {
		vx.Fail("unexpected failure: " + err.Error())
	}
	vx.Reach("ok")
	vx.Assert(len(got.All) == len(res.Items), "messages of a list")
	for i, it := range res.Items {
		vx.Assert(got.All[i].Name == "leaf "+it.GetOwner().GetName(), "message of a list with a resolver")
	}
	leafs := len(res.Items)
	name, user := "", got.User
	if req.Skip {
		vx.Assert(user == nil && vxI.count["user"]+vxI.count["name"] == 0, "message that is not wanted")
	} else {
		name = "name " + req.S + res.Item.Id
		vx.Assert(user.Id == req.S+res.Item.Id && user.Age == 2*total+1, "fields from the message's resolver")
		vx.Assert(user.Name == name, "field from its own resolver")
		vx.Assert((user.Leaf != nil) == (total != 0), "field from an expression")
		if total != 0 {
			vx.Assert(user.Leaf.Name == "leaf "+user.Id, "field from an expression")
			leafs++
		}
		vx.Assert(vxI.user.Key == user.Id && vxI.user.Total == total && vxI.user.Twice == 2*total, "arguments of the message's resolver")
		vx.Assert(vxI.names.Key == user.Id && vxI.names.Total == total && vxI.names.Twice == 2*total, "arguments of the field's resolver")
		vx.Assert(vxI.name.Id == user.Id && vxI.name.Age == user.Age, "message given to the field's resolver")
	}
	vx.Assert(vxI.count["leaf"] == leafs && vxI.count["tag"] == 1 && vxI.count["extra"] == 1, "number of calls of the resolvers")
	vx.Assert(got.Tag == "tag "+req.S && got.Total == total && got.UserName == name, "fields")
	vx.Assert(len(got.Extra) == 2 && got.Extra[0].Name == name && got.Extra[1] == nil, "list from a resolver")
	for _, a := range []Resolve_Resolve_GetResponseArgument{vxI.tag, vxI.extra} {
		vx.Assert(a.S == req.S && a.N == req.N && a.Skip == req.Skip && a.Total == total && a.UserName == name, "arguments and variables given to a field's resolver")
		vx.Assert(len(a.All) == len(res.Items) && a.User == user && a.Res == res, "messages given to a field's resolver")
	}
}

// Messages and fields with resolvers, for all requests and responses.
func VX_C30_Values() {
	vx.MustReach("ok", "failed", "refused")
	total := vx.Int64("total")
	vx.Assume(total > -1<<62 && total < 1<<62)
	vxGet(false, total)
}

// The same in other orders of execution.
func VX_C30_Orders() {
	vx.MustReach("ok", "failed")
	vx.Race()
	vxGet(true, 3)
}

// A method whose response comes from another message.
func VX_C30_Response() {
	vx.MustReach("ok", "refused", "failed")
	vx.Delays(0)
	vxI.reset(&zzdep.GetItemResponse{})
	if vx.Bool("fail") {
		vxI.fail, vxI.how = "dep", vx.Choose("how", 5)
	}
	req := &RunRequest{N: vx.Int64("n"), S: vx.String("s", 1)}
	res, err := vxSvc.Run(vxCtx, req)
	switch {
	case req.N < 0 && vxI.fail != "":
		vx.Assert(res == nil && err != nil, "no response besides a failure")
	case req.N < 0:
		vx.Reach("refused")
		vx.Assert(res == nil && vxIs(err, codes.Aborted, "negative"), "failed validation")
	case vxI.fail != "":
		vx.Reach("failed")
		vx.Assert(res == nil, "no response besides a failure")
		vxFailed(err)
	default:
		vx.Reach("ok")
		vx.Assert(err == nil && res != nil, "response of another message")
	}
	if req.N >= 0 {
		vx.Assert(vxI.count["dep"] == 1 && vxI.req.Id == req.S && vxI.req.N == req.N, "call whose result is not used")
	}
}

func vxLimited(do func(n int64) (total int64, name string, none bool, err error)) {
	if vx.Choose("starve", 2) == 1 {
		vx.Starve(1)
	} else {
		vx.Delays(1)
	}
	total, n := vx.Int64("total"), vx.Int64("n")
	id := vx.String("id", 1)
	vxI.reset(&zzdep.GetItemResponse{Total: total, Item: &zzdep.Item{Id: id}})
	vxI.wait = []time.Duration{0, 10, 49, 51, 79, 81, 200}[vx.Choose("wait", 7)] * time.Millisecond
	vxI.heed = vx.Bool("heed")
	if vx.Bool("fail") {
		vxI.fail, vxI.how = "dep", vx.Choose("how", 5)
	}
	start := time.Now()
	t, name, none, err := do(n)
	took := time.Since(start)
	vxI.mu.Lock()
	defer vxI.mu.Unlock()
	if vxI.wait > 50*time.Millisecond {
		vx.Reach("late")
		vx.Assert(none && err != nil, "no response after the time limit")
		st := codes.DeadlineExceeded
		vx.Assert(vxIs(err, st, "context deadline exceeded"), "failure of the time limit")
		if vx.Symbolic() {
			vx.Assert(took == 50*time.Millisecond, "the time limit is kept")
		}
		return
	}
	if vxI.fail != "" {
		vx.Reach("failed")
		vx.Assert(none, "no response besides a failure")
		vxFailed(err)
		return
	}
	if err != nil {
		vx.Fail("unexpected failure: " + err.Error())
	}
	vx.Reach("ok")
	vx.Assert(t == total && vxI.req.N == n && (name == id || name == "-"), "response within the time limit")
	if vx.Symbolic() {
		vx.Assert(took == vxI.wait, "the response is not held back")
	}
}

// A method with a time limit around a call with a longer one.
func VX_C30_Limit() {
	vx.MustReach("ok", "late", "failed")
	vxLimited(func(n int64) (int64, string, bool, error) {
		res, err := vxSvc.Limit(vxCtx, &LimitRequest{N: n})
		return res.GetTotal(), "-", res == nil, err
	})
}

// A method with a time limit whose response comes from another message.
func VX_C30_LimitResponse() {
	vx.MustReach("ok", "late", "failed")
	vxLimited(func(n int64) (int64, string, bool, error) {
		res, err := vxSvc.Both(vxCtx, &BothRequest{N: n})
		return res.GetTotal(), res.GetName(), res == nil, err
	})
}
