package zzplugin

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/google/cel-go/common/types"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/types/known/durationpb"

	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
	"github.com/mercari/grpc-federation/vx"
)

// The generated plugin runs in a goroutine instead of a WebAssembly machine:
// its standard input and output and the loading of the module are replaced in
// the generated code, everything else is as generated.
var (
	vxStdin  io.Reader
	vxStdout io.Writer
)

type vxModule struct{ cfg grpcfedcel.CELPluginConfig }

func vxNewCELPlugin(_ context.Context, cfg grpcfedcel.CELPluginConfig) (*vxModule, error) {
	vxLoaded = true
	return &vxModule{cfg}, nil
}

func (m *vxModule) CreateInstance(_ context.Context, reg *types.Registry) *grpcfedcel.CELPluginInstance {
	vxInst = grpcfedcel.VxInstance(m.cfg, reg)
	vxConnect()
	return vxInst
}

func vxConnect() {
	stdinR, stdinW := io.Pipe()
	stdoutR, stdoutW := io.Pipe()
	vxStdin, vxStdout = stdinR, stdoutW
	end := make(chan error, 1)
	go func() {
		RegisterToolPlugin(vxPlug)
		end <- nil
	}()
	grpcfedcel.VxConnect(vxInst, stdinW, stdoutR, end)
}

// vxTool is the plugin. It works on its arguments in a way that shows which
// they were.
type vxTool struct {
	calls []string
	md    metadata.MD
	fail  error
}

func (t *vxTool) called(ctx context.Context, name string) error {
	t.calls = append(t.calls, name)
	t.md, _ = metadata.FromIncomingContext(ctx)
	return t.fail
}

func vxLast[T any](x T, l []T) T {
	if len(l) > 0 {
		return l[len(l)-1]
	}
	return x
}

func (t *vxTool) Plug_OneString(ctx context.Context, x string, l []string) (string, error) {
	return vxLast(x, l), t.called(ctx, "oneString")
}
func (t *vxTool) Plug_AllString(ctx context.Context, l []string, x string) ([]string, error) {
	return append(l, x), t.called(ctx, "allString")
}
func (t *vxTool) Plug_OneBool(ctx context.Context, x bool, l []bool) (bool, error) {
	return vxLast(x, l), t.called(ctx, "oneBool")
}
func (t *vxTool) Plug_AllBool(ctx context.Context, l []bool, x bool) ([]bool, error) {
	return append(l, x), t.called(ctx, "allBool")
}
func (t *vxTool) Plug_OneInt(ctx context.Context, x int64, l []int64) (int64, error) {
	return vxLast(x, l), t.called(ctx, "oneInt")
}
func (t *vxTool) Plug_AllInt(ctx context.Context, l []int64, x int64) ([]int64, error) {
	return append(l, x), t.called(ctx, "allInt")
}
func (t *vxTool) Plug_OneUint(ctx context.Context, x uint64, l []uint64) (uint64, error) {
	return vxLast(x, l), t.called(ctx, "oneUint")
}
func (t *vxTool) Plug_AllUint(ctx context.Context, l []uint64, x uint64) ([]uint64, error) {
	return append(l, x), t.called(ctx, "allUint")
}
func (t *vxTool) Plug_OneDouble(ctx context.Context, x float64, l []float64) (float64, error) {
	return vxLast(x, l), t.called(ctx, "oneDouble")
}
func (t *vxTool) Plug_AllDouble(ctx context.Context, l []float64, x float64) ([]float64, error) {
	return append(l, x), t.called(ctx, "allDouble")
}
func (t *vxTool) Plug_OneObj(ctx context.Context, x *Obj, l []*Obj) (*Obj, error) {
	return vxLast(x, l), t.called(ctx, "oneObj")
}
func (t *vxTool) Plug_AllObj(ctx context.Context, l []*Obj, x *Obj) ([]*Obj, error) {
	return append(l, x), t.called(ctx, "allObj")
}
func (t *vxTool) Plug_OneKind(ctx context.Context, x Kind, l []Kind) (Kind, error) {
	return vxLast(x, l), t.called(ctx, "oneKind")
}
func (t *vxTool) Plug_AllKind(ctx context.Context, l []Kind, x Kind) ([]Kind, error) {
	return append(l, x), t.called(ctx, "allKind")
}
func (t *vxTool) Plug_OneDuration(ctx context.Context, x *durationpb.Duration, l []*durationpb.Duration) (*durationpb.Duration, error) {
	return vxLast(x, l), t.called(ctx, "oneDuration")
}
func (t *vxTool) Plug_AllDuration(ctx context.Context, l []*durationpb.Duration, x *durationpb.Duration) ([]*durationpb.Duration, error) {
	return append(l, x), t.called(ctx, "allDuration")
}
func (t *vxTool) Plug_Over(ctx context.Context, x string) (string, error) {
	return x, t.called(ctx, "over")
}
func (t *vxTool) Plug_Over2(ctx context.Context, x int64) (int64, error) {
	return x, t.called(ctx, "over2")
}
func (t *vxTool) Plug_None(ctx context.Context) (string, error) {
	return "none", t.called(ctx, "none")
}
func (t *vxTool) Plug_Obj_Weight(ctx context.Context, x *Obj) (int64, error) {
	return x.N + int64(len(x.Subs)), t.called(ctx, "weight")
}
func (t *vxTool) Plug_Obj_Put(ctx context.Context, x *Obj, n int64, s string) (*Obj, error) {
	return &Obj{N: n, S: s, Subs: x.Subs}, t.called(ctx, "put")
}
func (t *vxTool) Plug_Obj_Put2(ctx context.Context, x *Obj, subs []*Obj) (*Obj, error) {
	return &Obj{N: x.N, S: x.S, Subs: subs}, t.called(ctx, "put2")
}

var (
	vxLoaded bool // the plugin is loaded the way that is replaced here
	vxPlug   = &vxTool{}
	vxInst   *grpcfedcel.CELPluginInstance
	vxSvc    *Tools
	vxErr    error
	vxCtx    = context.Background()
)

// Every expression is compiled once, before the requests explored.
func init() {
	file_zzplugin_plug_proto_init()
	file_zzplugin_tools_proto_init()
	vxSvc, vxErr = NewTools(ToolsConfig{CELPlugin: &ToolsCELPluginConfig{}})
	if vxErr != nil {
		return
	}
	for k := range int64(len(vxFuncs)) {
		for range 2 {
			vxSvc.Call(vxCtx, &CallRequest{K: k, O: &Obj{}, Ol: []*Obj{{}}, T: durationpb.New(time.Second)})
		}
	}
	CleanupTools(vxCtx, vxSvc)
}

var vxFuncs = []string{"oneString", "allString", "oneBool", "allBool", "oneInt", "allInt", "oneUint", "allUint", "oneDouble", "allDouble", "oneObj", "allObj", "oneKind", "allKind", "oneDuration", "allDuration", "weight", "put", "put2", "over", "over2", "none", "chain"}

func vxReady() {
	vx.Assume(vxLoaded)
	if vxErr != nil {
		vx.Fail("the service does not start: " + vxErr.Error())
	}
	vxPlug.calls, vxPlug.md, vxPlug.fail = nil, nil, nil
	vxConnect()
}

var vxBroken = errors.New("broken")
