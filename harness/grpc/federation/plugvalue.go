package federation

import (
	"errors"
	"math"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	celplugin "github.com/mercari/grpc-federation/grpc/federation/cel/plugin"
	"github.com/mercari/grpc-federation/vx"
)

type vxPV = celplugin.CELPluginValue

type vxEnum int32

func vxPVList(vs []*vxPV) *vxPV {
	return &vxPV{Value: &celplugin.CELPluginValue_List{List: &celplugin.CELPluginListValue{Values: vs}}}
}

func vxPVInt(i int64) *vxPV   { return &vxPV{Value: &celplugin.CELPluginValue_Int64{Int64: i}} }
func vxPVUint(i uint64) *vxPV { return &vxPV{Value: &celplugin.CELPluginValue_Uint64{Uint64: i}} }
func vxPVDouble(f float64) *vxPV {
	return &vxPV{Value: &celplugin.CELPluginValue_Double{Double: f}}
}
func vxPVStr(s string) *vxPV   { return &vxPV{Value: &celplugin.CELPluginValue_String_{String_: s}} }
func vxPVBytes(b []byte) *vxPV { return &vxPV{Value: &celplugin.CELPluginValue_Bytes{Bytes: b}} }
func vxPVBool(b bool) *vxPV    { return &vxPV{Value: &celplugin.CELPluginValue_Bool{Bool: b}} }
func vxPVMsg(m proto.Message) *vxPV {
	a, err := anypb.New(m)
	if err != nil {
		panic(err)
	}
	return &vxPV{Value: &celplugin.CELPluginValue_Message{Message: a}}
}

// vxArg checks the conversion of an argument and of a list of arguments: want
// for every value that the type can hold, an error if one does not fit.
func vxArgs[S, T any](name string, elem func() S, to func(S) *vxPV, want func(S) (T, bool), same func(T, T) bool, conv func(*vxPV) (T, error), convList func(*vxPV) ([]T, error)) {
	if vx.Choose("list", 2) == 0 {
		s := elem()
		got, err := conv(to(s))
		w, ok := want(s)
		if !ok {
			vx.Assert(err != nil, name+": a value that does not fit was accepted")
			vx.Assert(errors.Is(err, ErrOverflowTypeConversion), name+": not the overflow error")
			vx.Reach("overflow")
			return
		}
		vx.Assert(err == nil, name+": failed")
		vx.Assert(same(got, w), name+": another value")
		vx.Reach("value")
		return
	}
	n := vx.Choose("len", 4)
	var in []*vxPV
	var ws []T
	fits := true
	for i := 0; i < n; i++ {
		s := elem()
		w, ok := want(s)
		in, ws = append(in, to(s)), append(ws, w)
		fits = fits && ok
	}
	got, err := convList(vxPVList(in))
	if !fits {
		vx.Assert(err != nil, name+" list: a value that does not fit was accepted")
		vx.Reach("overflow")
		return
	}
	vx.Assert(err == nil, name+" list: failed")
	vx.Assert(len(got) == n, name+" list: wrong length")
	for i := range ws {
		vx.Assert(same(got[i], ws[i]), name+" list: another value")
	}
	vx.Reach("value")
}

func vxEq[T comparable](a, b T) bool { return a == b }

// Arguments on the way into a plugin: the exact value, or an error.
func VX_C16_Arguments() {
	vx.MustReach("value", "overflow")
	i64 := func() int64 { return vx.Int64("v") }
	u64 := func() uint64 { return vx.Uint64("v") }
	f64 := func() float64 { return vx.Float64("v") }
	toI32 := func(v int64) (int32, bool) { return int32(v), int64(int32(v)) == v }
	switch vx.Choose("type", 11) {
	case 0:
		vxArgs("int32", i64, vxPVInt, toI32, vxEq[int32], ToInt32, ToInt32List)
	case 1:
		vxArgs("int64", i64, vxPVInt, func(v int64) (int64, bool) { return v, true }, vxEq[int64], ToInt64, ToInt64List)
	case 2:
		vxArgs("uint32", u64, vxPVUint, func(v uint64) (uint32, bool) { return uint32(v), uint64(uint32(v)) == v }, vxEq[uint32], ToUint32, ToUint32List)
	case 3:
		vxArgs("uint64", u64, vxPVUint, func(v uint64) (uint64, bool) { return v, true }, vxEq[uint64], ToUint64, ToUint64List)
	case 4:
		vxArgs("float", f64, vxPVDouble, func(v float64) (float32, bool) { return float32(v), true },
			func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }, ToFloat32, ToFloat32List)
	case 5:
		vxArgs("double", f64, vxPVDouble, func(v float64) (float64, bool) { return v, true },
			func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }, ToFloat64, ToFloat64List)
	case 6:
		vxArgs("string", func() string { return vx.String("v", 3) }, vxPVStr, func(v string) (string, bool) { return v, true }, vxEq[string], ToString, ToStringList)
	case 7:
		vxArgs("bytes", func() []byte { return vx.Bytes("v", 3) }, vxPVBytes, func(v []byte) ([]byte, bool) { return v, true },
			func(a, b []byte) bool { return string(a) == string(b) }, ToBytes, ToBytesList)
	case 8:
		vxArgs("bool", func() bool { return vx.Bool("v") }, vxPVBool, func(v bool) (bool, bool) { return v, true }, vxEq[bool], ToBool, ToBoolList)
	case 9:
		vxArgs("enum", i64, vxPVInt, func(v int64) (vxEnum, bool) { i, ok := toI32(v); return vxEnum(i), ok }, vxEq[vxEnum], ToEnum[vxEnum], ToEnumList[vxEnum])
	case 10:
		vxArgs("message", func() string { return vx.String("v", 2) },
			func(s string) *vxPV { return vxPVMsg(wrapperspb.Bytes([]byte(s))) },
			func(s string) (*wrapperspb.BytesValue, bool) { return wrapperspb.Bytes([]byte(s)), true },
			func(a, b *wrapperspb.BytesValue) bool { return string(a.GetValue()) == string(b.GetValue()) },
			ToMessage[*wrapperspb.BytesValue], ToMessageList[*wrapperspb.BytesValue])
	}
}

func vxRes[T any](name string, elem func() T, same func(*vxPV, T) bool, conv func(T) (*CELPluginResponse, error), convList func([]T) (*CELPluginResponse, error)) {
	if vx.Choose("list", 2) == 0 {
		v := elem()
		res, err := conv(v)
		vx.Assert(err == nil && res.GetError() == "", name+" result: failed")
		vx.Assert(same(res.GetValue(), v), name+" result: another value")
		return
	}
	n := vx.Choose("len", 4)
	var vs []T
	for i := 0; i < n; i++ {
		vs = append(vs, elem())
	}
	res, err := convList(vs)
	vx.Assert(err == nil && res.GetError() == "", name+" list result: failed")
	_, isList := res.GetValue().GetValue().(*celplugin.CELPluginValue_List)
	vx.Assert(isList, name+" list result: not a list")
	got := res.GetValue().GetList().GetValues()
	vx.Assert(len(got) == n, name+" list result: wrong length")
	for i, v := range vs {
		vx.Assert(same(got[i], v), name+" list result: another value")
	}
}

// Results on the way out of a plugin: the exact value.
func VX_C16_Results() {
	vx.MustReach("done")
	isInt := func(v *vxPV, want int64) bool {
		x, ok := v.GetValue().(*celplugin.CELPluginValue_Int64)
		return ok && x.Int64 == want
	}
	isUint := func(v *vxPV, want uint64) bool {
		x, ok := v.GetValue().(*celplugin.CELPluginValue_Uint64)
		return ok && x.Uint64 == want
	}
	isDouble := func(v *vxPV, want float64) bool {
		x, ok := v.GetValue().(*celplugin.CELPluginValue_Double)
		return ok && math.Float64bits(x.Double) == math.Float64bits(want)
	}
	switch vx.Choose("type", 10) {
	case 0:
		vxRes("int32", func() int32 { return vx.Int32("v") }, func(v *vxPV, w int32) bool { return isInt(v, int64(w)) }, ToInt32CELPluginResponse, ToInt32ListCELPluginResponse)
	case 1:
		vxRes("int64", func() int64 { return vx.Int64("v") }, isInt, ToInt64CELPluginResponse, ToInt64ListCELPluginResponse)
	case 2:
		vxRes("uint32", func() uint32 { return vx.Uint32("v") }, func(v *vxPV, w uint32) bool { return isUint(v, uint64(w)) }, ToUint32CELPluginResponse, ToUint32ListCELPluginResponse)
	case 3:
		vxRes("uint64", func() uint64 { return vx.Uint64("v") }, isUint, ToUint64CELPluginResponse, ToUint64ListCELPluginResponse)
	case 4:
		vxRes("float", func() float32 { return vx.Float32("v") }, func(v *vxPV, w float32) bool { return isDouble(v, float64(w)) }, ToFloat32CELPluginResponse, ToFloat32ListCELPluginResponse)
	case 5:
		vxRes("double", func() float64 { return vx.Float64("v") }, isDouble, ToFloat64CELPluginResponse, ToFloat64ListCELPluginResponse)
	case 6:
		vxRes("string", func() string { return vx.String("v", 3) }, func(v *vxPV, w string) bool {
			x, ok := v.GetValue().(*celplugin.CELPluginValue_String_)
			return ok && x.String_ == w
		}, ToStringCELPluginResponse, ToStringListCELPluginResponse)
	case 7:
		vxRes("bytes", func() []byte { return vx.Bytes("v", 3) }, func(v *vxPV, w []byte) bool {
			x, ok := v.GetValue().(*celplugin.CELPluginValue_Bytes)
			return ok && string(x.Bytes) == string(w)
		}, ToBytesCELPluginResponse, ToBytesListCELPluginResponse)
	case 8:
		vxRes("bool", func() bool { return vx.Bool("v") }, func(v *vxPV, w bool) bool {
			x, ok := v.GetValue().(*celplugin.CELPluginValue_Bool)
			return ok && x.Bool == w
		}, ToBoolCELPluginResponse, ToBoolListCELPluginResponse)
	case 9:
		vxRes("message", func() *wrapperspb.BytesValue { return wrapperspb.Bytes(vx.Bytes("v", 2)) }, func(v *vxPV, w *wrapperspb.BytesValue) bool {
			m, err := v.GetMessage().UnmarshalNew()
			if err != nil {
				return false
			}
			b, ok := m.(*wrapperspb.BytesValue)
			return ok && string(b.GetValue()) == string(w.GetValue())
		}, ToMessageCELPluginResponse[*wrapperspb.BytesValue], ToMessageListCELPluginResponse[*wrapperspb.BytesValue])
	}
	vx.Reach("done")
}

// A failure of a plugin function keeps its text.
func VX_C16_Failure() {
	vx.MustReach("done")
	s := vx.String("message", 3)
	vx.Assume(s != "")
	res := ToErrorCELPluginResponse(errors.New(s))
	vx.Assert(res.GetError() == s, "the failure has another text")
	vx.Assert(res.GetValue() == nil, "a failure with a value")
	_, err := ToMessage[*wrapperspb.BytesValue](&vxPV{Value: &celplugin.CELPluginValue_Message{Message: &anypb.Any{TypeUrl: "x/" + s}}})
	vx.Assert(err != nil, "a message of an unknown type was accepted")
	vx.Reach("done")
}
