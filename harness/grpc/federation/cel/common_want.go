package cel

import (
	"bytes"

	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"

	"github.com/mercari/grpc-federation/vx"
)

func vxWantStr(got ref.Val, want, name string) {
	s, ok := got.(types.String)
	vx.Assert(ok, name+": result is not a string")
	vx.Assert(string(s) == want, name+": wrong result")
}

func vxWantInt(got ref.Val, want int, name string) {
	s, ok := got.(types.Int)
	vx.Assert(ok, name+": result is not an int")
	vx.Assert(int64(s) == int64(want), name+": wrong result")
}

func vxWantBool(got ref.Val, want bool, name string) {
	s, ok := got.(types.Bool)
	vx.Assert(ok, name+": result is not a bool")
	vx.Assert(bool(s) == want, name+": wrong result")
}

func vxWantBytes(got ref.Val, want []byte, name string) {
	s, ok := got.(types.Bytes)
	vx.Assert(ok, name+": result is not bytes")
	vx.Assert(bytes.Equal([]byte(s), want), name+": wrong result")
}

func vxWantStrs(got ref.Val, want []string, name string) {
	l, ok := got.(traits.Lister)
	vx.Assert(ok, name+": result is not a list")
	n, _ := l.Size().(types.Int)
	vx.Assert(int(n) == len(want), name+": wrong number of elements")
	for i, w := range want {
		vxWantStr(l.Get(types.Int(i)), w, name)
	}
}

func vxWantErr(got ref.Val, err error, name string) {
	e, ok := got.(*types.Err)
	vx.Assert(ok, name+": an invalid argument did not give an error")
	vx.Assert(err == nil || e.Error() == err.Error(), name+": the error has another text")
}

func vxWantFloat(got ref.Val, want float64, name string) {
	d, ok := got.(types.Double)
	vx.Assert(ok, name+": result is not a double")
	vx.Assert(float64(d) == want, name+": wrong result")
}
