package cel

import (
	"bufio"
	"context"
	"errors"
	"io"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/encoding/protojson"

	"github.com/mercari/grpc-federation/grpc/federation/cel/plugin"
	"github.com/mercari/grpc-federation/vx"
)

// vxPlugin is the other side of the protocol: a plugin that works like the
// generated ones. It counts what it is asked.
type vxPlugin struct {
	calls   []string
	gcs     int
	exited  bool
	version string
	dieAt   int // dies when it has read this many lines (-1: never)
	dieErr  error
	handle  func(*plugin.CELPluginRequest) *plugin.CELPluginResponse
	ahead   bool // takes requests before it has answered the ones before
}

func vxInstance(p *vxPlugin, fns ...*CELFunction) *CELPluginInstance {
	stdinR, stdinW := io.Pipe()
	stdoutR, stdoutW := io.Pipe()
	end := make(chan error, 1)
	go func() { end <- p.run(stdinR, stdoutW) }()
	return vxNewInstance(fns, stdinW, stdoutR, end)
}

func (p *vxPlugin) run(in io.Reader, out io.Writer) error {
	r := bufio.NewReader(in)
	next := func() (string, error) { return r.ReadString('\n') }
	if p.ahead {
		lines := make(chan string, 4)
		go func() {
			for {
				line, err := r.ReadString('\n')
				if err != nil {
					close(lines)
					return
				}
				lines <- line
			}
		}()
		next = func() (string, error) {
			line, ok := <-lines
			time.Sleep(time.Millisecond)
			if !ok {
				return "", io.EOF
			}
			return line, nil
		}
	}
	for n := 0; ; n++ {
		line, err := next()
		if err != nil {
			return err
		}
		if n == p.dieAt {
			return p.dieErr
		}
		switch line {
		case "exit\n":
			p.exited = true
			return nil
		case "gc\n":
			p.gcs++
		case "version\n":
			_, _ = out.Write([]byte(p.version + "\n"))
		default:
			var req plugin.CELPluginRequest
			if err := protojson.Unmarshal([]byte(line), &req); err != nil {
				vx.Fail("the plugin received a broken request")
			}
			p.calls = append(p.calls, req.GetMethod())
			b, err := protojson.Marshal(p.handle(&req))
			if err != nil {
				vx.Fail("cannot encode the response")
			}
			_, _ = out.Write(append(b, '\n'))
		}
	}
}

func vxEcho(req *plugin.CELPluginRequest) *plugin.CELPluginResponse {
	return &plugin.CELPluginResponse{Value: req.GetArgs()[0]}
}

var (
	vxFnInt = &CELFunction{Name: "p.int", ID: "p_int", Args: []*cel.Type{cel.IntType}, Return: cel.IntType}
	vxFnStr = &CELFunction{Name: "p.str", ID: "p_str", Args: []*cel.Type{cel.StringType}, Return: cel.StringType}
)

func vxDelays(n int) {
	if vx.Thorough() {
		n++
	}
	if n > 0 && vx.Choose("starve", 2) == 1 {
		vx.Starve(n)
	} else {
		vx.Delays(n)
	}
}

// Concurrent calls and collections: every call gets its own result.
func VX_C17_Concurrent() {
	vx.MustReach("done")
	vxDelays(2)
	p := &vxPlugin{dieAt: -1, handle: vxEcho}
	inst := vxInstance(p, vxFnInt, vxFnStr)
	var wg sync.WaitGroup
	out := make([]ref.Val, 2)
	for i := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i == 0 {
				out[i] = inst.Call(context.Background(), vxFnInt, nil, types.Int(41))
				inst.GC()
			} else {
				out[i] = inst.Call(context.Background(), vxFnStr, nil, types.String("x"))
			}
		}()
	}
	wg.Wait()
	vxWantInt(out[0], 41, "first call")
	vxWantStr(out[1], "x", "second call")
	sort.Strings(p.calls)
	vx.Assert(strings.Join(p.calls, ",") == "p_int,p_str", "not exactly one request per call")
	vx.Reach("done")
}

// Also if the plugin takes the requests faster than it answers them.
func VX_C17_ReadAhead() {
	vx.MustReach("done")
	vx.Starve(2)
	p := &vxPlugin{dieAt: -1, handle: vxEcho, ahead: true}
	inst := vxInstance(p, vxFnInt)
	var wg sync.WaitGroup
	out := make([]ref.Val, 2)
	for i := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			out[i] = inst.Call(context.Background(), vxFnInt, nil, types.Int(41+i))
		}()
	}
	wg.Wait()
	vxWantInt(out[0], 41, "first call")
	vxWantInt(out[1], 42, "second call")
	vx.Assert(len(p.calls) == 2, "not exactly one request per call")
	vx.Reach("done")
}

// Closing, collecting and calling in any order and any number: nothing panics
// or hangs, calls before the end succeed, calls after the end fail.
func VX_C17_Lifecycle() {
	vx.MustReach("open", "closed")
	vxDelays(1)
	p := &vxPlugin{dieAt: -1, handle: vxEcho}
	inst := vxInstance(p, vxFnInt)
	closed := false
	steps := 3
	if vx.Thorough() {
		steps = 5
	}
	for i := 0; i < steps; i++ {
		switch vx.Choose("op", 3) {
		case 0:
			v := inst.Call(context.Background(), vxFnInt, nil, types.Int(7))
			if closed {
				vx.Assert(vxIsErr(v), "a call of a closed plugin gave a result")
				vx.Reach("closed")
			} else {
				vxWantInt(v, 7, "call")
				vx.Reach("open")
			}
		case 1:
			inst.GC()
		case 2:
			err := inst.Close(context.Background())
			vx.Assert(err == nil, "closing failed")
			closed = true
		}
	}
	vx.Quiesce()
	vx.Assert(p.exited == closed, "the plugin was told to exit exactly if it was closed")
}

// Closing while calls and collections are under way: no panic, no hang.
func VX_C17_CloseRace() {
	vx.MustReach("done")
	vxDelays(2)
	p := &vxPlugin{dieAt: -1, handle: vxEcho}
	inst := vxInstance(p, vxFnInt)
	var wg sync.WaitGroup
	wg.Add(2)
	var out ref.Val
	go func() {
		defer wg.Done()
		out = inst.Call(context.Background(), vxFnInt, nil, types.Int(7))
		inst.GC()
	}()
	go func() {
		defer wg.Done()
		_ = inst.Close(context.Background())
	}()
	wg.Wait()
	if !vxIsErr(out) {
		vxWantInt(out, 7, "call")
	}
	vx.Reach("done")
}

// A plugin that dies at any point: the calls fail, now and later, and do not
// hang; neither does closing.
func VX_C17_Death() {
	vx.MustReach("dead", "alive")
	vxDelays(2)
	p := &vxPlugin{dieAt: vx.Choose("die", 3), handle: vxEcho}
	if vx.Choose("err", 2) == 1 {
		p.dieErr = errors.New("exit status 2")
	}
	inst := vxInstance(p, vxFnInt)
	for i := 0; i < 3; i++ {
		v := inst.Call(context.Background(), vxFnInt, nil, types.Int(7))
		if i >= p.dieAt {
			vx.Assert(vxIsErr(v), "a call of a dead plugin gave a result")
			vx.Reach("dead")
		} else {
			vxWantInt(v, 7, "call before the end")
			vx.Reach("alive")
		}
	}
	inst.GC()
	_ = inst.Close(context.Background())
}

// A plugin is accepted exactly if it speaks this protocol version and has all
// functions.
func VX_C17_Validate() {
	vx.MustReach("ok", "refused")
	vxDelays(0)
	ver := vx.Choose("version", 3)
	has := vx.Choose("functions", 4)
	want := 1 + vx.Choose("want", 2)
	var fns []string
	if has&1 != 0 {
		fns = append(fns, `"p_int"`)
	}
	if has&2 != 0 {
		fns = append(fns, `"p_str"`)
	}
	fns = append(fns, `"other"`)
	p := &vxPlugin{dieAt: -1, version: `{"protocolVersion":` + strconv.Itoa(ver) + `,"grpcFederationVersion":"v","functions":[` + strings.Join(fns, ",") + `]}`}
	broken := vx.Choose("broken", 2) == 1
	if broken {
		p.version = p.version[1:]
	}
	inst := vxInstance(p, []*CELFunction{vxFnInt, vxFnStr}[:want]...)
	err := inst.ValidatePlugin(context.Background())
	ok := !broken && ver == PluginProtocolVersion && has&1 != 0 && (want == 1 || has&2 != 0)
	if ok {
		vx.Assert(err == nil, "a suitable plugin was refused")
		vx.Reach("ok")
		return
	}
	vx.Assert(err != nil, "an unsuitable plugin was accepted")
	vx.Reach("refused")
}

// What the plugin sees: its function, the request's metadata and every argument.
func VX_C17_Request() {
	vx.MustReach("done")
	vxDelays(0)
	s := vx.String("s", 1)
	mdv := vx.String("md", 1)
	vx.Assume(s < "\x80" && mdv < "\x80")
	n := vx.Choose("values", 3)
	var got *plugin.CELPluginRequest
	p := &vxPlugin{dieAt: -1, handle: func(req *plugin.CELPluginRequest) *plugin.CELPluginResponse {
		got = req
		return &plugin.CELPluginResponse{Value: req.GetArgs()[1]}
	}}
	fn := &CELFunction{Name: "p.two", ID: "p_two", Args: []*cel.Type{cel.IntType, cel.StringType}, Return: cel.StringType}
	inst := vxInstance(p, fn)
	md := metadata.MD{}
	var vals []string
	for i := 0; i < n; i++ {
		vals = append(vals, mdv+strconv.Itoa(i))
	}
	if n > 0 {
		md["k"] = vals
	}
	v := inst.Call(context.Background(), fn, md, types.Int(-3), types.String(s))
	vxWantStr(v, s, "result")
	vx.Assert(got.GetMethod() == "p_two", "another function was called")
	vx.Assert(len(got.GetArgs()) == 2 && got.GetArgs()[0].GetInt64() == -3 && got.GetArgs()[1].GetString_() == s, "the plugin saw other arguments")
	if n == 0 {
		vx.Assert(len(got.GetMetadata()) == 0, "metadata out of nothing")
	} else {
		vx.Assert(len(got.GetMetadata()) == 1 && got.GetMetadata()[0].GetKey() == "k", "the plugin saw other metadata")
		vx.Assert(strings.Join(got.GetMetadata()[0].GetValues(), "|") == strings.Join(vals, "|"), "the plugin saw other metadata values")
	}
	vx.Reach("done")
}

// A failure of the plugin function is the failure of the call, with its text.
func VX_C17_Failure() {
	vx.MustReach("done")
	vxDelays(0)
	s := vx.String("s", 2)
	vx.Assume(s != "" && s[0] < 0x80 && s[len(s)-1] < 0x80)
	p := &vxPlugin{dieAt: -1, handle: func(req *plugin.CELPluginRequest) *plugin.CELPluginResponse {
		return &plugin.CELPluginResponse{Error: s}
	}}
	inst := vxInstance(p, vxFnInt)
	v := inst.Call(context.Background(), vxFnInt, nil, types.Int(1))
	e, ok := v.(*types.Err)
	vx.Assert(ok, "the failure of a plugin was ignored")
	vx.Assert(e.Error() == s, "the failure has another text")
	p.handle = vxEcho
	vxWantInt(inst.Call(context.Background(), vxFnInt, nil, types.Int(5)), 5, "call after a failed call")
	vx.Reach("done")
}

// vxNewInstance is the instance that CreateInstance makes, with the ends of
// the pipes and of the module's life in the hands of the harness.
func vxNewInstance(fns []*CELFunction, stdin *io.PipeWriter, stdout *io.PipeReader, end chan error) *CELPluginInstance {
	gcQueue := make(chan struct{}, 1)
	inst := &CELPluginInstance{
		name:             "p",
		functions:        fns,
		celRegistry:      vxReg,
		stdin:            stdin,
		stdout:           stdout,
		instanceModErrCh: end,
		gcQueue:          gcQueue,
	}
	go func() {
		for range gcQueue {
			inst.startGC()
		}
	}()
	return inst
}
