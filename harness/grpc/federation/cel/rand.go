package cel

import (
	"bytes"
	"context"
	"math"
	"math/rand"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/uuid"

	"github.com/mercari/grpc-federation/vx"
)

var (
	vxRand = vxLoad(new(RandLibrary).CompileOptions())
	vxUUID = vxLoad(append([]cel.EnvOption{}, new(UUIDLibrary).CompileOptions()...))
	vxMath = vxLoad(NewMathLibrary().CompileOptions())
)

var vxSeeds = []int64{0, 1, -1, 10, 1 << 31, math.MinInt64, math.MaxInt64}

func vxSeed(name string) int64 {
	n := 3
	if vx.Thorough() {
		n = len(vxSeeds)
	}
	return vxSeeds[vx.Choose(name, n)]
}

// vxRandPair: a source of the language and one of Go with the same seed, and
// a generator on each.
func vxRandPair() (ref.Val, ref.Val, rand.Source, *rand.Rand) {
	seed := vxSeed("seed")
	src := vxRand.call("grpc.federation.rand.newSource", vxInt(seed))
	gsrc := rand.NewSource(seed)
	return src, vxRand.call("grpc.federation.rand.new", src), gsrc, rand.New(gsrc)
}

func vxWantUint(got ref.Val, want uint64, name string) {
	s, ok := got.(types.Uint)
	vx.Assert(ok, name+": result is not a uint")
	vx.Assert(uint64(s) == want, name+": wrong result")
}

// Every history of calls on a source and the generator that draws from it
// gives the numbers Go's generator gives.
func VX_C14_History() {
	vx.MustReach("done")
	src, r, gsrc, gr := vxRandPair()
	steps := 2
	if vx.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		switch vx.Choose("fn", 14) {
		case 0:
			vxWantInt(vxRand.one(src, "int63"), int(gsrc.Int63()), "Source.int63")
		case 1:
			s := vxSeed("reseed")
			gsrc.Seed(s)
			vxWantBool(vxRand.one(src, "seed", vxInt(s)), true, "Source.seed")
		case 2:
			s := vxSeed("reseed")
			gr.Seed(s)
			vxWantBool(vxRand.one(r, "seed", vxInt(s)), true, "Rand.seed")
		case 3:
			vxWantInt(vxRand.one(r, "int63"), int(gr.Int63()), "Rand.int63")
		case 4:
			vxWantInt(vxRand.one(r, "int"), gr.Int(), "Rand.int")
		case 5:
			vxWantInt(vxRand.one(r, "int31"), int(gr.Int31()), "Rand.int31")
		case 6:
			vxWantUint(vxRand.one(r, "uint32"), uint64(gr.Uint32()), "Rand.uint32")
		case 7:
			vxWantFloat(vxRand.one(r, "float32"), float64(gr.Float32()), "Rand.float32")
		case 8:
			vxWantFloat(vxRand.one(r, "float64"), gr.Float64(), "Rand.float64")
		case 9:
			vxWantFloat(vxRand.one(r, "expFloat64"), gr.ExpFloat64(), "Rand.expFloat64")
		case 10:
			vxWantFloat(vxRand.one(r, "normFloat64"), gr.NormFloat64(), "Rand.normFloat64")
		case 11:
			n := []int{1, 10, 1 << 31, math.MaxInt64}[vx.Choose("n", 4)]
			vxWantInt(vxRand.one(r, "intn", vxInt(int64(n))), gr.Intn(n), "Rand.intn")
		case 12:
			n := []int64{1, 7, 1 << 40, math.MaxInt64}[vx.Choose("n", 4)]
			vxWantInt(vxRand.one(r, "int63n", vxInt(n)), int(gr.Int63n(n)), "Rand.int63n")
		case 13:
			n := []int32{1, 100, 1 << 30, math.MaxInt32}[vx.Choose("n", 4)]
			vxWantInt(vxRand.one(r, "int31n", vxInt(int64(n))), int(gr.Int31n(n)), "Rand.int31n")
		}
	}
	vx.Reach("done")
}

// Bounded numbers: within the bound for every bound, an error otherwise.
func VX_C14_Bounds() {
	vx.MustReach("in", "err")
	_, r, _, gr := vxRandPair()
	fn := vx.Choose("fn", 3)
	name := []string{"intn", "int63n", "int31n"}[fn]
	var n int64
	if vx.Choose("domain", 2) == 0 {
		n = int64(vx.Uint8("n")) + []int64{1, 1<<31 - 256, 1 << 20}[vx.Choose("base", 3)]
		vx.Assume(n < 1<<31)
	} else {
		n = vx.Int64("n")
		vx.Assume(n <= 0 || (fn == 2 && n > math.MaxInt32))
	}
	var got ref.Val
	_, panicked := vx.Try(func() { got = vxRand.one(r, name, vxInt(n)) })
	if n <= 0 || (fn == 2 && n > math.MaxInt32) {
		vx.Assert(panicked || vxIsErr(got), name+": a bound it cannot respect gave a number")
		vx.Reach("err")
		return
	}
	vx.Assert(!panicked && !vxIsErr(got), name+": a positive bound gave an error")
	v, ok := got.(types.Int)
	vx.Assert(ok && v >= 0 && int64(v) < n, name+": result is outside of the bounds")
	var want int64
	switch fn {
	case 0:
		want = int64(gr.Intn(int(n)))
	case 1:
		want = gr.Int63n(n)
	case 2:
		want = int64(gr.Int31n(int32(n)))
	}
	vx.Assert(int64(v) == want, name+": wrong result")
	vx.Reach("in")
}

type vxBytesReader struct{ b []byte }

func (r vxBytesReader) Read(p []byte) (int, error) { return copy(p, r.b), nil }

func vxHex(s string, at int, b byte) bool {
	const digits = "0123456789abcdef"
	return s[at] == digits[b>>4] && s[at+1] == digits[b&15]
}

// vxWantUUIDStr: the RFC 4122 form of the bytes.
func vxWantUUIDStr(got ref.Val, prefix string, b [16]byte, name string) {
	v, ok := got.(types.String)
	vx.Assert(ok && len(v) == len(prefix)+36, name+": wrong length")
	s := string(v)[len(prefix):]
	vx.Assert(string(v)[:len(prefix)] == prefix, name+": wrong prefix")
	vx.Assert(s[8] == '-' && s[13] == '-' && s[18] == '-' && s[23] == '-', name+": dashes are misplaced")
	for i, at := range []int{0, 2, 4, 6, 9, 11, 14, 16, 19, 21, 24, 26, 28, 30, 32, 34} {
		vx.Assert(vxHex(s, at, b[i]), name+": wrong digits")
	}
}

func vxUUIDBytes(name string) [16]byte {
	var b [16]byte
	for i := range b {
		b[i] = vx.Uint8(name)
	}
	return b
}

// The parts of a UUID, for every UUID.
func VX_C14_UUIDParts() {
	vx.MustReach("done")
	b := vxUUIDBytes("b")
	u := &UUID{UUID: uuid.UUID(b)}
	switch vx.Choose("fn", 7) {
	case 0:
		vxWantUUIDStr(vxUUID.one(u, "string"), "", b, "string")
	case 1:
		vxWantUUIDStr(vxUUID.one(u, "urn"), "urn:uuid:", b, "urn")
	case 2:
		vxWantUint(vxUUID.one(u, "version"), uint64(b[6]>>4), "version")
	case 3:
		vxWantUint(vxUUID.one(u, "domain"), uint64(b[9]), "domain")
	case 4:
		vxWantUint(vxUUID.one(u, "id"), uint64(b[0])<<24|uint64(b[1])<<16|uint64(b[2])<<8|uint64(b[3]), "id")
	case 5:
		vxWantInt(vxUUID.one(u, "time"), int(u.UUID.Time()), "time")
	case 6:
		other := b
		other[vx.Choose("at", 16)] ^= vx.Uint8("change")
		vxWantBool(u.Equal(&UUID{UUID: uuid.UUID(other)}), b == other, "equality")
	}
	vx.Assert(u.UUID == uuid.UUID(b), "the UUID was modified")
	vx.Reach("done")
}

// Random UUIDs: version 4, and every other bit from the random source.
func VX_C14_UUIDRandom() {
	vx.MustReach("done")
	b := vxUUIDBytes("random")
	uuid.SetRand(vxBytesReader{b[:]})
	name := []string{"new", "newRandom"}[vx.Choose("fn", 2)]
	got := vxUUID.call("grpc.federation.uuid." + name)
	u, ok := got.(*UUID)
	vx.Assert(ok, name+": result is not a UUID")
	want := b
	want[6] = want[6]&0x0f | 0x40
	want[8] = want[8]&0x3f | 0x80
	vx.Assert(bytes.Equal(u.UUID[:], want[:]), name+": not the random version 4 UUID")
	uuid.SetRand(nil)
	vx.Reach("done")
}

// UUIDs from a generator continue the generator's sequence.
func VX_C14_UUIDFromRand() {
	vx.MustReach("done")
	_, r, _, gr := vxRandPair()
	n := 1 + vx.Choose("before", 2)
	for i := 0; i < n; i++ {
		want, err := uuid.NewRandomFromReader(gr)
		vx.Assert(err == nil, "reader failed")
		u, ok := vxUUID.call("grpc.federation.uuid.newRandomFromRand", r).(*UUID)
		vx.Assert(ok && u.UUID == want, "newRandomFromRand: not the UUID of the generator")
	}
	vxWantInt(vxRand.one(r, "int31"), int(gr.Int31()), "Rand.int31 after newRandomFromRand")
	vx.Reach("done")
}

// math: the documented Go function, for every number.
func VX_C14_Math() {
	vx.MustReach("done")
	same := func(got ref.Val, want float64, name string) {
		d, ok := got.(types.Double)
		vx.Assert(ok, name+": result is not a double")
		vx.Assert(math.Float64bits(float64(d)) == math.Float64bits(want), name+": wrong result")
	}
	switch vx.Choose("fn", 4) {
	case 0:
		x := vx.Float64("x")
		same(vxMath.f("grpc.federation.math.sqrt")(NewContextValue(context.Background()), types.Double(x)), math.Sqrt(x), "sqrt")
	case 1:
		x := vx.Int64("x")
		same(vxMath.f("grpc.federation.math.sqrt")(NewContextValue(context.Background()), types.Int(x)), math.Sqrt(float64(x)), "sqrt of an int")
	case 2:
		x := vx.Float64("x")
		same(vxMath.f("grpc.federation.math.floor")(NewContextValue(context.Background()), types.Double(x)), math.Floor(x), "floor")
	case 3:
		xs := []float64{0, 1, 2, -2, 0.5, 10, -0.0, math.Inf(1), math.NaN(), 1e300}
		x, y := xs[vx.Choose("x", len(xs))], xs[vx.Choose("y", len(xs))]
		same(vxMath.f("grpc.federation.math.pow")(NewContextValue(context.Background()), types.Double(x), types.Double(y)), math.Pow(x, y), "pow")
	}
	vx.Reach("done")
}
