package zzcompose

import (
	"context"

	"google.golang.org/grpc"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

type vxStore struct {
	zzdep.StoreClient
	get func(in *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error)
}

func (s *vxStore) GetItem(_ context.Context, in *zzdep.GetItemRequest, _ ...grpc.CallOption) (*zzdep.GetItemResponse, error) {
	return s.get(in)
}

func (s *vxStore) Dep_StoreClient(ComposeClientConfig) (zzdep.StoreClient, error) { return s, nil }

var (
	vxDep = &vxStore{}
	vxSvc *Compose
)

// Everything is compiled once; the descriptors are registered by the package's other init functions.
func init() {
	file_zzcompose_compose_proto_init()
	svc, err := NewCompose(ComposeConfig{Client: vxDep})
	if err != nil {
		panic(err)
	}
	vxSvc = svc
	vxDep.get = func(*zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		return &zzdep.GetItemResponse{Item: &zzdep.Item{Owner: &zzdep.Owner{Boss: &zzdep.Owner{}}, Friends: []*zzdep.Owner{{}}}}, nil
	}
	ctx := context.Background()
	vxSvc.GetView(ctx, &GetViewRequest{})
	vxSvc.GetNumbers(ctx, &GetNumbersRequest{})
	vxSvc.GetArgs(ctx, &GetArgsRequest{Inner: &GetArgsRequest_Inner{}})
}

func vxOwner(name string) *zzdep.Owner {
	return &zzdep.Owner{Name: vx.String(name, 1), Age: vx.Uint32(name + " age"), Level: zzdep.Owner_Level(vx.Int32(name + " level"))}
}

func vxSameOwner(a *zzdep.Owner, b *Owner) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	// a value the alias does not have is the zero value
	l := Owner_LOW
	if a.Level == zzdep.Owner_HIGH {
		l = Owner_HIGH
	}
	return b.Name == a.Name && b.Age == a.Age && b.Level == l && vxSameOwner(a.Boss, b.Boss)
}

func vxColor(c zzdep.Color) Color {
	switch c {
	case zzdep.Color_COLOR_RED:
		return Color_RED
	case zzdep.Color_COLOR_BLUE:
		return Color_BLUE
	}
	return Color_NONE
}

func vxView(item *zzdep.Item) *View {
	id, n := vx.String("id", 1), vx.Int64("n")
	total := vx.Int64("total")
	calls := 0
	vxDep.get = func(in *zzdep.GetItemRequest) (*zzdep.GetItemResponse, error) {
		calls++
		vx.Assert(in.Id == id && in.N == n && len(in.Tags) == 1 && in.Tags[0] == id && in.Color == zzdep.Color_COLOR_BLUE && in.Owner == nil, "the request carries exactly what the definition says")
		return &zzdep.GetItemResponse{Item: item, Total: total}, nil
	}
	res, err := vxSvc.GetView(context.Background(), &GetViewRequest{Id: id, N: n, Tags: []string{id}})
	vx.Assert(err == nil && res != nil && res.View != nil, "a request whose parts all succeed fails")
	vx.Assert(calls == 1, "the dependency is called once")
	v := res.View
	vx.Assert(v.Joined == item.GetId()+":"+id && v.Total == total, "field bound to an expression")
	vx.Assert(v.Owned == (item.GetOwner() != nil), "presence of a message field in an expression")
	vx.Reach("done")
	return v
}

// Plain fields.
func VX_C24_Scalars() {
	vx.MustReach("done")
	item := &zzdep.Item{
		Id: vx.String("item", 2), Count: vx.Int64("count"), Small: vx.Int32("small"), Big: vx.Uint64("big"), Flag: vx.Bool("flag"),
		Mid: vx.Uint32("mid"), Raw: vx.Bytes("raw", 1),
	}
	v := vxView(item)
	vx.Assert(v.Id == item.Id && v.Count == item.Count && v.Small == item.Small && v.Big == item.Big && v.Flag == item.Flag && v.Mid == item.Mid, "automatically bound field")
	vx.Assert(string(v.Raw) == string(item.Raw), "automatically bound bytes")
	vx.Assert(v.Owner == nil && v.Kind == nil && len(v.Tags) == 0 && len(v.Friends) == 0 && len(v.Attrs) == 0 && len(v.Peers) == 0, "nothing appears that was not there")
}

// Aliased enums, also with values neither side knows.
func VX_C24_Enums() {
	vx.MustReach("done")
	item := &zzdep.Item{Color: zzdep.Color(vx.Int32("color"))}
	n := vx.Choose("palette", 3)
	for i := 0; i < n; i++ {
		item.Palette = append(item.Palette, zzdep.Color(vx.Int32("p")))
	}
	v := vxView(item)
	vx.Assert(v.Color == vxColor(item.Color) && v.Tint == vxColor(item.Color), "aliased enum")
	vx.Assert(len(v.Palette) == n, "length of a list of enums")
	for i := range v.Palette {
		vx.Assert(v.Palette[i] == vxColor(item.Palette[i]), "element of a list of enums")
	}
}

// Messages, nested and in lists and maps, present or not.
func VX_C24_Messages() {
	vx.MustReach("done")
	item := &zzdep.Item{}
	switch vx.Choose("owner", 3) {
	case 1:
		item.Owner = vxOwner("o")
	case 2:
		item.Owner = vxOwner("o")
		item.Owner.Boss = vxOwner("boss")
	}
	n := vx.Choose("friends", 3)
	for i := 0; i < n; i++ {
		item.Friends = append(item.Friends, vxOwner("f"))
	}
	v := vxView(item)
	vx.Assert(vxSameOwner(item.Owner, v.Owner), "automatically bound message")
	second := item.Owner
	if second == nil {
		// read by an expression, a message that is not set is an empty one
		second = &zzdep.Owner{}
	}
	vx.Assert(vxSameOwner(second, v.Second), "message bound to an expression")
	vx.Assert(len(v.Friends) == n && len(v.Others) == n, "length of a list of messages")
	for i := range item.Friends {
		vx.Assert(vxSameOwner(item.Friends[i], v.Friends[i]) && vxSameOwner(item.Friends[i], v.Others[i]), "element of a list of messages")
	}
}

// Lists and maps.
func VX_C24_Collections() {
	vx.MustReach("done")
	item := &zzdep.Item{}
	n := vx.Choose("tags", 3)
	for i := 0; i < n; i++ {
		item.Tags = append(item.Tags, vx.String("tag", 1))
	}
	switch vx.Choose("maps", 3) {
	case 1:
		item.Attrs = map[string]int64{"a": vx.Int64("a"), "b": vx.Int64("b")}
	case 2:
		item.Peers = map[string]*zzdep.Owner{"x": vxOwner("x"), "y": vxOwner("y")}
	}
	v := vxView(item)
	vx.Assert(len(v.Tags) == n && len(v.Attrs) == len(item.Attrs) && len(v.Peers) == len(item.Peers), "sizes")
	for i := range item.Tags {
		vx.Assert(v.Tags[i] == item.Tags[i], "order of a list")
	}
	for k, x := range item.Attrs {
		vx.Assert(v.Attrs[k] == x, "value of a map")
	}
	for k, x := range item.Peers {
		vx.Assert(vxSameOwner(x, v.Peers[k]), "message in a map")
	}
}

// Exclusive fields: the member that is set, even to a zero value.
func VX_C24_Oneof() {
	vx.MustReach("done")
	item := &zzdep.Item{}
	which := vx.Choose("member", 5)
	switch which {
	case 1:
		item.Kind = &zzdep.Item_Label{Label: vx.String("label", 1)}
	case 2:
		item.Kind = &zzdep.Item_Rank{Rank: vx.Int64("rank")}
	case 3:
		item.Kind = &zzdep.Item_Renter{Renter: vxOwner("renter")}
	case 4:
		item = nil
	}
	v := vxView(item)
	switch which {
	case 0, 4:
		vx.Assert(v.Kind == nil, "no member is set")
	case 1:
		k, ok := v.Kind.(*View_Label)
		vx.Assert(ok && k.Label == item.GetLabel(), "string member")
	case 2:
		k, ok := v.Kind.(*View_Rank)
		vx.Assert(ok && k.Rank == item.GetRank(), "number member")
	case 3:
		k, ok := v.Kind.(*View_Renter)
		vx.Assert(ok && vxSameOwner(item.GetRenter(), k.Renter), "message member")
	}
}

// Numbers keep their value or the request fails.
func VX_C24_Numbers() {
	vx.MustReach("ok", "refused")
	req := &GetNumbersRequest{}
	switch vx.Choose("field", 4) {
	case 0:
		req.I = vx.Int64("i")
	case 1:
		req.U = vx.Uint64("u")
	case 2:
		req.S, req.M = vx.Int32("s"), vx.Uint32("m")
	case 3:
		req.D = vx.Float64("d")
	}
	vx.Assume(req.I != 1<<63-1) // i + 1 overflows
	vx.Delays(0)                // schedules: C25
	res, err := vxSvc.GetNumbers(context.Background(), req)
	fits := req.I >= -1<<31 && req.I < 1<<31 && req.U < 1<<32
	vx.Assert((err == nil) == fits, "a number that does not fit its field is an error, every other is not")
	if err != nil {
		vx.Reach("refused")
		vx.Assert(res == nil, "no response besides an error")
		return
	}
	vx.Reach("ok")
	vx.Assert(int64(res.I32) == req.I && uint64(res.U32) == req.U && res.I64 == int64(req.S) && res.U64 == uint64(req.M) && res.Sum == req.I+1 && res.Same == req.I, "number")
	vx.Assert(res.F == 1.5 && (res.D == req.D || res.D != res.D && req.D != req.D), "floating point number")
}

// Arguments belong to the message they are given to.
func VX_C24_Arguments() {
	vx.MustReach("done")
	req := &GetArgsRequest{Id: vx.String("id", 1), Inner: &GetArgsRequest_Inner{Id: vx.String("inner", 1), N: vx.Int64("n")}}
	vx.Delays(0)
	res, err := vxSvc.GetArgs(context.Background(), req)
	vx.Assert(err == nil, "arguments fail")
	vx.Assert(res.A.Id == req.Inner.Id && res.A.N == req.Inner.N, "inlined arguments")
	vx.Assert(res.B.Id == req.Id && res.B.N == 1, "named arguments")
	vx.Assert(res.C.Id == "local"+req.Id && res.C.N == req.Inner.N, "arguments from definitions and arguments")
	vx.Assert(res.Id == req.Id, "a definition does not change the argument of the same name")
	vx.Reach("done")
}
