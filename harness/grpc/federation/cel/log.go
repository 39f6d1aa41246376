package cel

import (
	"context"
	"log/slog"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/types/known/structpb"

	"github.com/mercari/grpc-federation/vx"

	"github.com/mercari/grpc-federation/grpc/federation/log"
)

type vxRec struct {
	level slog.Level
	msg   string
	attrs []slog.Attr
}

type vxHandler struct {
	recs  *[]vxRec
	min   slog.Level
	attrs []slog.Attr
}

func (h *vxHandler) Enabled(_ context.Context, l slog.Level) bool { return l >= h.min }
func (h *vxHandler) Handle(_ context.Context, r slog.Record) error {
	rec := vxRec{level: r.Level, msg: r.Message, attrs: append([]slog.Attr(nil), h.attrs...)}
	r.Attrs(func(a slog.Attr) bool {
		rec.attrs = append(rec.attrs, a)
		return true
	})
	*h.recs = append(*h.recs, rec)
	return nil
}
func (h *vxHandler) WithAttrs(as []slog.Attr) slog.Handler {
	return &vxHandler{recs: h.recs, min: h.min, attrs: append(append([]slog.Attr(nil), h.attrs...), as...)}
}
func (h *vxHandler) WithGroup(string) slog.Handler { return h }

func vxLogProg(expr string) cel.Program {
	return vxCompile(expr,
		cel.Lib(NewLogLibrary()),
		cel.Variable(ContextVariableName, cel.ObjectType(ContextTypeName)),
		cel.Variable("m", cel.StringType),
		cel.Variable("s", cel.StringType),
		cel.Variable("i", cel.IntType),
		cel.Variable("u", cel.UintType),
		cel.Variable("b", cel.BoolType),
		cel.Variable("y", cel.BytesType),
		cel.Variable("d", cel.DynType),
	)
}

var vxLogLevels = []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError}

var (
	vxLogMsg  = []cel.Program{}
	vxLogArgs = []cel.Program{}
	vxLogAdd  cel.Program
	vxLogFail []cel.Program
)

func init() {
	for _, fn := range []string{"debug", "info", "warn", "error"} {
		fn = "grpc.federation.log." + fn
		vxLogMsg = append(vxLogMsg, vxLogProg(fn+"(m)"))
		vxLogArgs = append(vxLogArgs, vxLogProg(fn+"(m, d)"))
	}
	vxLogAdd = vxLogProg("grpc.federation.log.add(d) && grpc.federation.log.info(m)")
	vxLogFail = []cel.Program{
		vxLogProg("grpc.federation.log.info(m, {'a': 1 / i})"),
		vxLogProg("grpc.federation.log.info(m + [s][i])"),
		vxLogProg("grpc.federation.log.add({'a': 1 / i})"),
	}
}

// vxWantAny: the plain Go value that corresponds to a value of the language.
func vxSameAny(got, want any) bool {
	switch w := want.(type) {
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !vxSameAny(g[i], w[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for k := range w {
			v, ok := g[k]
			if !ok || !vxSameAny(v, w[k]) {
				return false
			}
		}
		return true
	case []byte:
		g, ok := got.([]byte)
		return ok && string(g) == string(w)
	}
	return got == want
}

// A value of the language with what the log must show for it.
func vxLogVal(name string, depth int) (any, any) {
	n := 7
	if depth > 0 {
		n = 10
	}
	switch vx.Choose(name, n) {
	case 0:
		s := vx.String(name+" s", 2)
		return s, s
	case 1:
		i := vx.Int64(name + " i")
		return i, i
	case 2:
		u := vx.Uint64(name + " u")
		return u, u
	case 3:
		b := vx.Bool(name + " b")
		return b, b
	case 4:
		y := vx.Bytes(name+" y", 2)
		return y, y
	case 5:
		return types.NullValue, structpb.NullValue_NULL_VALUE
	case 6:
		return 1.5, 1.5
	case 7:
		// a list
		var in, out []any
		for k := vx.Choose(name+" len", 3); k > 0; k-- {
			a, b := vxLogVal(name+" elem", depth-1)
			in, out = append(in, a), append(out, b)
		}
		if in == nil {
			return []any{}, []any(nil)
		}
		return in, out
	case 8:
		a, b := vxLogVal(name+" value", depth-1)
		i := vx.Int64(name + " i")
		return map[string]any{"p": a, "q": i}, map[string]any{"p": b, "q": i}
	}
	if vx.Choose(name+" keys", 2) == 1 {
		// keys that are not strings
		s := vx.String(name+" s", 1)
		return map[any]any{int64(-7): s, uint64(12): "u", true: "b"}, map[string]any{"-7": s, "12": "u", "true": "b"}
	}
	return map[string]any{}, map[string]any{}
}

// vxWantAttrs: exactly the wanted attributes after the first from, in any order.
func vxWantAttrs(attrs []slog.Attr, want map[string]any, name string) {
	vx.Assert(len(attrs) == len(want), name+": wrong number of attributes")
	seen := map[string]bool{}
	for _, a := range attrs {
		w, ok := want[a.Key]
		vx.Assert(ok && !seen[a.Key], name+": unknown attribute or attribute logged twice")
		seen[a.Key] = true
		vx.Assert(vxSameAny(a.Value.Any(), w), name+": attribute has another value")
	}
}

func vxLogEval(p cel.Program, ctx context.Context, m string, d any) (ref.Val, error) {
	v, _, err := p.Eval(map[string]any{ContextVariableName: NewContextValue(ctx), "m": m, "d": d, "s": m, "i": int64(0)})
	return v, err
}

// Every log function writes one record at its level with its message and its
// attributes to the logger of the request, and yields true.
func VX_C15_Log() {
	vx.MustReach("logged", "disabled")
	recs := &[]vxRec{}
	min := vxLogLevels[vx.Choose("min", 2)*2]
	ctx := log.WithLogger(context.Background(), slog.New(&vxHandler{recs: recs, min: min}), slog.String("base", "x"))
	fn := vx.Choose("fn", 4)
	m := vx.String("m", 2)
	want := map[string]any{}
	var out ref.Val
	var err error
	if vx.Choose("args", 2) == 0 {
		out, err = vxLogEval(vxLogMsg[fn], ctx, m, nil)
	} else {
		args := map[string]any{}
		depth := 1
		if vx.Thorough() {
			depth = 2
		}
		n := vx.Choose("n", 3)
		if n > 0 {
			a, w := vxLogVal("a", depth)
			args["k0"], want["k0"] = a, w
		}
		if n > 1 {
			i := vx.Int64("second")
			args["k1"], want["k1"] = i, i
		}
		out, err = vxLogEval(vxLogArgs[fn], ctx, m, args)
	}
	vx.Assert(err == nil && out == types.True, "a log function did not yield true")
	if vxLogLevels[fn] < min {
		vx.Assert(len(*recs) == 0, "record below the level of the logger")
		vx.Reach("disabled")
		return
	}
	vx.Assert(len(*recs) == 1, "not exactly one record")
	r := (*recs)[0]
	vx.Assert(r.level == vxLogLevels[fn], "record at another level")
	vx.Assert(r.msg == m, "record with another message")
	vx.Assert(len(r.attrs) > 0 && r.attrs[0].Key == "base" && r.attrs[0].Value.String() == "x", "attributes of the request are lost")
	vxWantAttrs(r.attrs[1:], want, "log")
	vx.Reach("logged")
}

// Attributes added in an expression appear on every later record of the
// request, and only there.
func VX_C15_Add() {
	vx.MustReach("done")
	recs := &[]vxRec{}
	logger := slog.New(&vxHandler{recs: recs, min: slog.LevelDebug})
	ctx := log.WithLogger(context.Background(), logger)
	other := log.WithLogger(context.Background(), logger)
	want := map[string]any{}
	rounds := 1 + vx.Choose("rounds", 2)
	for i := 0; i < rounds; i++ {
		key := []string{"k0", "k1"}[i]
		depth := 0
		if i == 0 {
			depth = 1
		}
		a, w := vxLogVal(key, depth)
		want[key] = w
		out, err := vxLogEval(vxLogAdd, ctx, "m", map[string]any{key: a})
		vx.Assert(err == nil && out == types.True, "add did not yield true")
		vx.Assert(len(*recs) == i+1, "adding attributes wrote a record")
		vxWantAttrs((*recs)[i].attrs, want, "record after add")
	}
	_, err := vxLogEval(vxLogMsg[1], other, "m", nil)
	vx.Assert(err == nil && len((*recs)[rounds].attrs) == 0, "attributes of one request on the record of another")
	vxWantAttrs(log.Attrs(ctx), want, "attributes of the request")
	vx.Reach("done")
}

// An argument that fails makes the call fail, and nothing is logged.
func VX_C15_Failing() {
	vx.MustReach("done")
	recs := &[]vxRec{}
	ctx := log.WithLogger(context.Background(), slog.New(&vxHandler{recs: recs}))
	i := vx.Int64("i")
	p := vx.Choose("prog", len(vxLogFail))
	vx.Assume(i == 0 && p != 1 || p == 1 && i != 0)
	_, _, err := vxLogFail[p].Eval(map[string]any{ContextVariableName: NewContextValue(ctx), "m": "m", "s": "s", "i": i})
	vx.Assert(err != nil, "a failing argument was ignored")
	vx.Assert(len(*recs) == 0 && len(log.Attrs(ctx)) == 0, "logged in spite of a failing argument")
	vx.Reach("done")
}

var vxMeta = vxLoad(NewMetadataLibrary().CompileOptions())

// The incoming metadata: every key with all of its values in order, nothing
// else, and neither direction of change passes through.
func VX_C15_Metadata() {
	vx.MustReach("present", "absent")
	ctx := context.Background()
	var want map[string][]string
	if vx.Choose("md", 2) == 1 {
		want = map[string][]string{}
		md := metadata.MD{}
		for i, n := 0, vx.Choose("keys", 3); i < n; i++ {
			key := []string{"a", "b-bin"}[i]
			vs := []string{}
			for k, c := 0, vx.Choose("values", 3); k < c; k++ {
				vs = append(vs, vx.String("v", 2))
			}
			md[key] = append([]string{}, vs...)
			want[key] = vs
		}
		ctx = metadata.NewIncomingContext(ctx, md)
	}
	got := vxMeta.f("grpc.federation.metadata.incoming")(NewContextValue(ctx))
	m, ok := got.(traits.Mapper)
	vx.Assert(ok, "metadata is not a map")
	vx.Assert(m.Size() == types.Int(len(want)), "wrong number of keys")
	for k, vs := range want {
		v, found := m.Find(types.String(k))
		vx.Assert(found, "key is missing")
		vxWantStrs(v, vs, "metadata values")
	}
	_, found := m.Find(types.String("zz"))
	vx.Assert(!found, "key out of nothing")
	if want == nil {
		vx.Reach("absent")
		return
	}
	again, _ := metadata.FromIncomingContext(ctx)
	for k, vs := range want {
		vx.Assert(len(again[k]) == len(vs), "the metadata was modified")
	}
	vx.Reach("present")
}
