package cel

import (
	"io"
	"math"
	"reflect"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/mercari/grpc-federation/grpc/federation/cel/plugin"
	"github.com/mercari/grpc-federation/vx"
)

func init() {
	if err := vxReg.RegisterMessage(new(fieldmaskpb.FieldMask)); err != nil {
		panic(err)
	}
	if err := vxReg.RegisterMessage(new(descriptorpb.SourceCodeInfo_Location)); err != nil {
		panic(err)
	}
}

func vxHost() *CELPluginInstance { return &CELPluginInstance{celRegistry: vxReg} }

// vxScalar is a value of a type that plugin functions can have, with a check
// of what the plugin must see.
func vxScalar(kind int, name string) (*cel.Type, ref.Val, any, func(*plugin.CELPluginValue) bool) {
	switch kind {
	case 0:
		i := vx.Int64(name)
		return cel.IntType, types.Int(i), i, func(v *plugin.CELPluginValue) bool {
			x, ok := v.GetValue().(*plugin.CELPluginValue_Int64)
			return ok && x.Int64 == i
		}
	case 1:
		i := vx.Uint64(name)
		return cel.UintType, types.Uint(i), i, func(v *plugin.CELPluginValue) bool {
			x, ok := v.GetValue().(*plugin.CELPluginValue_Uint64)
			return ok && x.Uint64 == i
		}
	case 2:
		f := vx.Float64(name)
		return cel.DoubleType, types.Double(f), f, func(v *plugin.CELPluginValue) bool {
			x, ok := v.GetValue().(*plugin.CELPluginValue_Double)
			return ok && math.Float64bits(x.Double) == math.Float64bits(f)
		}
	case 3:
		b := vx.Bool(name)
		return cel.BoolType, types.Bool(b), b, func(v *plugin.CELPluginValue) bool {
			x, ok := v.GetValue().(*plugin.CELPluginValue_Bool)
			return ok && x.Bool == b
		}
	case 4:
		s := vx.String(name, 2)
		return cel.StringType, types.String(s), s, func(v *plugin.CELPluginValue) bool {
			x, ok := v.GetValue().(*plugin.CELPluginValue_String_)
			return ok && x.String_ == s
		}
	case 5:
		b := vx.Bytes(name, 2)
		return cel.BytesType, types.Bytes(b), b, func(v *plugin.CELPluginValue) bool {
			x, ok := v.GetValue().(*plugin.CELPluginValue_Bytes)
			return ok && string(x.Bytes) == string(b)
		}
	}
	s := vx.String(name, 1)
	vx.Assume(s < "\x80") // not valid in a message otherwise
	m := &fieldmaskpb.FieldMask{Paths: []string{s}}
	return cel.ObjectType("google.protobuf.FieldMask"), vxReg.NativeToValue(m), m, func(v *plugin.CELPluginValue) bool {
		x, err := v.GetMessage().UnmarshalNew()
		if err != nil {
			return false
		}
		f, ok := x.(*fieldmaskpb.FieldMask)
		return ok && len(f.GetPaths()) == 1 && f.GetPaths()[0] == s
	}
}

// Every argument reaches the plugin exactly, and comes back exactly.
func VX_C16_Host() {
	vx.MustReach("done")
	typ, v, _, is := vxScalar(vx.Choose("type", 7), "v")
	h := vxHost()
	pv, err := h.refToCELPluginValue(typ, v)
	vx.Assert(err == nil, "an argument was refused")
	vx.Assert(is(pv), "the plugin sees another argument")
	back := h.celPluginValueToRef(vxFnAny, typ, pv)
	if f, ok := v.(types.Double); ok && math.IsNaN(float64(f)) {
		b, ok := back.(types.Double)
		vx.Assert(ok && math.IsNaN(float64(b)), "the result is another value")
	} else {
		vx.Assert(v.Equal(back) == types.True, "the result is another value")
	}
	vx.Reach("done")
}

var vxFnAny = &CELFunction{Name: "f", ID: "f"}

// Lists, however they came about: every element, in order.
func VX_C16_HostList() {
	vx.MustReach("done")
	kind := vx.Choose("type", 7)
	n := vx.Choose("len", 3)
	var (
		typ  *cel.Type
		refs []ref.Val
		raw  []any
		is   []func(*plugin.CELPluginValue) bool
	)
	typ = cel.IntType
	for i := 0; i < n; i++ {
		t, v, r, f := vxScalar(kind, "v")
		typ = t
		refs, raw, is = append(refs, v), append(raw, r), append(is, f)
	}
	var l ref.Val
	switch vx.Choose("list", 3) {
	case 0:
		l = types.NewRefValList(vxReg, refs)
	case 1:
		l = vxReg.NativeToValue(raw)
	case 2:
		l = types.NewRefValList(vxReg, refs[:n/2]).(traits.Adder).Add(types.NewRefValList(vxReg, refs[n/2:]))
	}
	h := vxHost()
	pv, err := h.refToCELPluginValue(cel.ListType(typ), l)
	vx.Assert(err == nil, "a list was refused")
	_, isList := pv.GetValue().(*plugin.CELPluginValue_List)
	vx.Assert(isList && len(pv.GetList().GetValues()) == n, "the plugin sees a list of another length")
	for i := range is {
		vx.Assert(is[i](pv.GetList().GetValues()[i]), "the plugin sees another element")
	}
	back, ok := h.celPluginValueToRef(vxFnAny, cel.ListType(typ), pv).(traits.Lister)
	vx.Assert(ok && back.Size() == types.Int(n), "the result is a list of another length")
	if kind != 2 {
		for i := range refs {
			vx.Assert(refs[i].Equal(back.Get(types.Int(i))) == types.True, "the result has another element")
		}
	}
	vx.Reach("done")
}

// Repeated fields of messages are lists as well.
func VX_C16_HostField() {
	vx.MustReach("done")
	h := vxHost()
	n := vx.Choose("len", 3)
	if vx.Choose("field", 2) == 0 {
		var ss []string
		for i := 0; i < n; i++ {
			ss = append(ss, vx.String("s", 2))
		}
		l := vxReg.NativeToValue(&fieldmaskpb.FieldMask{Paths: ss}).(traits.Indexer).Get(types.String("paths"))
		pv, err := h.refToCELPluginValue(cel.ListType(cel.StringType), l)
		vx.Assert(err == nil, "a repeated field was refused")
		vx.Assert(len(pv.GetList().GetValues()) == n, "the plugin sees a list of another length")
		for i, s := range ss {
			vx.Assert(pv.GetList().GetValues()[i].GetString_() == s, "the plugin sees another element")
		}
	} else {
		var is []int32
		for i := 0; i < n; i++ {
			is = append(is, vx.Int32("i"))
		}
		l := vxReg.NativeToValue(&descriptorpb.SourceCodeInfo_Location{Path: is}).(traits.Indexer).Get(types.String("path"))
		pv, err := h.refToCELPluginValue(cel.ListType(cel.IntType), l)
		vx.Assert(err == nil, "a repeated field was refused")
		vx.Assert(len(pv.GetList().GetValues()) == n, "the plugin sees a list of another length")
		for i, x := range is {
			vx.Assert(pv.GetList().GetValues()[i].GetInt64() == int64(x), "the plugin sees another element")
		}
	}
	vx.Reach("done")
}

// A message within an Any is handed over as that message, not wrapped again;
// what is not a value of the declared type is refused without a panic beyond
// the expression.
func VX_C16_HostAny() {
	vx.MustReach("any", "refused")
	h := vxHost()
	if vx.Choose("case", 2) == 0 {
		b := vx.Bytes("b", 2)
		a, err := anypb.New(wrapperspb.Bytes(b))
		vx.Assert(err == nil, "cannot make the message")
		pv, err := h.refToCELPluginValue(cel.ObjectType("google.rpc.Status"), vxAnyVal{a})
		vx.Assert(err == nil, "an Any was refused")
		vx.Assert(pv.GetMessage().GetTypeUrl() == a.GetTypeUrl() && string(pv.GetMessage().GetValue()) == string(a.GetValue()), "another message")
		vx.Reach("any")
		return
	}
	bad := []ref.Val{types.NullValue, types.String("x"), types.NewErr("e")}[vx.Choose("bad", 3)]
	_, err := h.refToCELPluginValue(cel.ObjectType("google.protobuf.FieldMask"), bad)
	vx.Assert(err != nil, "a value that is no message was accepted as one")
	vx.Reach("refused")
}

// vxAnyVal is an Any as a value of the language.
type vxAnyVal struct{ a *anypb.Any }

func (v vxAnyVal) ConvertToNative(reflect.Type) (any, error) { return v.a, nil }
func (v vxAnyVal) ConvertToType(ref.Type) ref.Val            { return v }
func (v vxAnyVal) Equal(ref.Val) ref.Val                     { return types.False }
func (v vxAnyVal) Type() ref.Type                            { return types.AnyType }
func (v vxAnyVal) Value() any                                { return v.a }

// VxInstance makes an instance of a plugin that runs somewhere else.
func VxInstance(cfg CELPluginConfig, reg *types.Registry) *CELPluginInstance {
	return &CELPluginInstance{name: cfg.Name, functions: cfg.Functions, celRegistry: reg}
}

// VxConnect connects it to the plugin.
func VxConnect(inst *CELPluginInstance, stdin *io.PipeWriter, stdout *io.PipeReader, end chan error) {
	gcQueue := make(chan struct{}, 1)
	inst.stdin, inst.stdout, inst.instanceModErrCh = stdin, stdout, end
	inst.closed, inst.gcQueue, inst.gcQueueClosed = false, gcQueue, false
	go func() {
		for range gcQueue {
			inst.startGC()
		}
	}()
}
