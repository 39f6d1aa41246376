package zzplugin

import (
	"strings"
	"time"

	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/types/known/durationpb"

	"github.com/mercari/grpc-federation/vx"
)

func vxList[T any](f func() T) []T {
	var l []T
	for range vx.Choose("len", 3) {
		l = append(l, f())
	}
	return l
}

func vxSame[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vxObj() *Obj { return &Obj{N: []int64{0, -9}[vx.Choose("n", 2)], S: "o"} }

func vxSameObj(a, b *Obj) bool {
	return a != nil && b != nil && a.N == b.N && a.S == b.S && len(a.Subs) == len(b.Subs)
}

func vxSameObjs(a, b []*Obj) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vxSameObj(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Every function of a plugin is called with exactly its arguments, and its
// result is that of the expression; the metadata of the request come along.
func VX_C16_Generated() {
	vx.MustReach(append([]string{"failed"}, vxFuncs...)...)
	vx.Delays(0)
	vxReady()
	k := vx.Choose("function", len(vxFuncs))
	req := &CallRequest{K: int64(k)}
	vxPlug.fail = nil
	if vx.Bool("fails") {
		vxPlug.fail = vxBroken
		req.O, req.T = &Obj{}, durationpb.New(0)
		vxCall(k, req)
		return
	}
	str := func() string { return []string{"", "\"\n\\é"}[vx.Choose("s", 2)] }
	num := func() int64 { return []int64{-1 << 63, 1<<63 - 1}[vx.Choose("i", 2)] }
	unum := func() uint64 { return []uint64{7, 1<<64 - 1}[vx.Choose("u", 2)] }
	dbl := func() float64 { return []float64{-0.1, 1e300}[vx.Choose("d", 2)] }
	kind := func() Kind { return []Kind{Kind_KIND_FIVE, Kind(9)}[vx.Choose("e", 2)] }
	dur := func() *durationpb.Duration {
		return durationpb.New([]time.Duration{1500 * time.Millisecond, -time.Nanosecond}[vx.Choose("t", 2)])
	}
	switch k {
	case 0, 1:
		req.S, req.Sl = str(), vxList(str)
	case 2, 3:
		b := func() bool { return vx.Bool("b") }
		req.B, req.Bl = b(), vxList(b)
	case 4, 5:
		req.I, req.Il = num(), vxList(num)
	case 6, 7:
		req.U, req.Ul = unum(), vxList(unum)
	case 8, 9:
		req.D, req.Dl = dbl(), vxList(dbl)
	case 10, 11, 16, 17, 18, 22:
		req.O, req.Ol = vxObj(), vxList(vxObj)
		req.I, req.S = 41, "t"
	case 12, 13:
		req.E, req.El = kind(), vxList(kind)
	case 14, 15:
		req.T, req.Tl = dur(), vxList(dur)
	case 19:
		req.S = vx.String("text", 1)
		vx.Assume(req.S < "\x80")
	case 20:
		req.I = num()
	}
	vxCall(k, req)
}

func vxCall(k int, req *CallRequest) {
	md := metadata.MD{"key": {"v", "w"}}
	res, err := vxSvc.Call(metadata.NewIncomingContext(vxCtx, md), req)
	if vxPlug.fail != nil {
		vx.Assert(res == nil && err != nil && strings.Contains(err.Error(), "broken"), "failure of a function")
		vx.Assert(len(vxPlug.calls) == 1, "called again")
		vx.Reach("failed")
		return
	}
	if err != nil {
		vx.Fail("unexpected failure: " + err.Error())
	}
	want := vxFuncs[k]
	if want == "chain" {
		vx.Assert(len(vxPlug.calls) == 6, "number of calls")
		want = "weight"
	} else {
		vx.Assert(len(vxPlug.calls) == 1, "number of calls")
	}
	vx.Assert(vxPlug.calls[len(vxPlug.calls)-1] == want, "another function is called")
	vx.Assert(len(vxPlug.md) == 1 && vxSame(vxPlug.md["key"], md["key"]), "metadata")
	ok := false
	switch k {
	case 0:
		ok = res.OneS == vxLast(req.S, req.Sl)
	case 1:
		ok = vxSame(res.AllS, append(req.Sl, req.S))
	case 2:
		ok = res.OneB == vxLast(req.B, req.Bl)
	case 3:
		ok = vxSame(res.AllB, append(req.Bl, req.B))
	case 4:
		ok = res.OneI == vxLast(req.I, req.Il)
	case 5:
		ok = vxSame(res.AllI, append(req.Il, req.I))
	case 6:
		ok = res.OneU == vxLast(req.U, req.Ul)
	case 7:
		ok = vxSame(res.AllU, append(req.Ul, req.U))
	case 8:
		ok = res.OneD == vxLast(req.D, req.Dl)
	case 9:
		ok = vxSame(res.AllD, append(req.Dl, req.D))
	case 10:
		ok = vxSameObj(res.OneO, vxLast(req.O, req.Ol))
	case 11:
		ok = vxSameObjs(res.AllO, append(req.Ol, req.O))
	case 12:
		ok = res.OneE == vxLast(req.E, req.El)
	case 13:
		ok = vxSame(res.AllE, append(req.El, req.E))
	case 14:
		ok = res.OneT != nil && res.OneT.AsDuration() == vxLast(req.T, req.Tl).AsDuration()
	case 15:
		w := append(req.Tl, req.T)
		ok = len(res.AllT) == len(w)
		for i := range w {
			ok = ok && res.AllT[i].AsDuration() == w[i].AsDuration()
		}
	case 16:
		ok = res.Weight == req.O.N
	case 17:
		ok = vxSameObj(res.Put1, &Obj{N: 41, S: "t"})
	case 18:
		ok = vxSameObj(res.Put2, &Obj{N: req.O.N, S: req.O.S, Subs: req.Ol}) && vxSameObjs(res.Put2.Subs, req.Ol)
	case 19:
		ok = res.Over1 == req.S
	case 20:
		ok = res.Over2 == req.I
	case 21:
		ok = res.None == "none"
	case 22:
		ok = res.Chain == 42+int64(len(req.Ol)+1)
	}
	vx.Assert(ok, "result of a function")
	vx.Reach(vxFuncs[k])
}
