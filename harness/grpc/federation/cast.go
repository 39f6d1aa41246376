package federation

import (
	"errors"

	"github.com/mercari/grpc-federation/vx"
)

func vxCastOK[T, U comparable](ok bool, want U, got U, err error, name string) {
	if ok {
		vx.Reach("exact")
		vx.Assert(err == nil, name+": representable value was rejected")
		vx.Assert(got == want, name+": representable value was changed")
		return
	}
	vx.Reach("overflow")
	vx.Assert(err != nil, name+": unrepresentable value was accepted")
	vx.Assert(errors.Is(err, ErrOverflowTypeConversion), name+": error is not the overflow error")
}

func VX_C01_Int64ToInt32() {
	vx.MustReach("exact", "overflow")
	v := vx.Int64("v")
	got, err := Int64ToInt32(v)
	vxCastOK[int64](int64(int32(v)) == v, int32(v), got, err, "Int64ToInt32")
}

func VX_C01_Int64ToUint32() {
	vx.MustReach("exact", "overflow")
	v := vx.Int64("v")
	got, err := Int64ToUint32(v)
	vxCastOK[int64](int64(uint32(v)) == v, uint32(v), got, err, "Int64ToUint32")
}

func VX_C01_Int64ToUint64() {
	vx.MustReach("exact", "overflow")
	v := vx.Int64("v")
	got, err := Int64ToUint64(v)
	vxCastOK[int64](v >= 0, uint64(v), got, err, "Int64ToUint64")
}

func VX_C01_Int32ToUint32() {
	vx.MustReach("exact", "overflow")
	v := vx.Int32("v")
	got, err := Int32ToUint32(v)
	vxCastOK[int32](v >= 0, uint32(v), got, err, "Int32ToUint32")
}

func VX_C01_Int32ToUint64() {
	vx.MustReach("exact", "overflow")
	v := vx.Int32("v")
	got, err := Int32ToUint64(v)
	vxCastOK[int32](v >= 0, uint64(v), got, err, "Int32ToUint64")
}

func VX_C01_Uint64ToInt32() {
	vx.MustReach("exact", "overflow")
	v := vx.Uint64("v")
	got, err := Uint64ToInt32(v)
	vxCastOK[uint64](v <= 1<<31-1, int32(v), got, err, "Uint64ToInt32")
}

func VX_C01_Uint64ToInt64() {
	vx.MustReach("exact", "overflow")
	v := vx.Uint64("v")
	got, err := Uint64ToInt64(v)
	vxCastOK[uint64](int64(v) >= 0, int64(v), got, err, "Uint64ToInt64")
}

func VX_C01_Uint64ToUint32() {
	vx.MustReach("exact", "overflow")
	v := vx.Uint64("v")
	got, err := Uint64ToUint32(v)
	vxCastOK[uint64](uint64(uint32(v)) == v, uint32(v), got, err, "Uint64ToUint32")
}

func VX_C01_Uint32ToInt32() {
	vx.MustReach("exact", "overflow")
	v := vx.Uint32("v")
	got, err := Uint32ToInt32(v)
	vxCastOK[uint32](int32(v) >= 0, int32(v), got, err, "Uint32ToInt32")
}
