prop = "C17"
needs = "two calls whose requests overlap"
breaks = "the plugin is released for the next caller once the request is sent, so callers take each other's responses"
F = "grpc/federation/cel/plugin.go"
edits = [(F, '''func (i *CELPluginInstance) Call(ctx context.Context, fn *CELFunction, md metadata.MD, args ...ref.Val) ref.Val {
	i.mu.Lock()
	defer i.mu.Unlock()

	if err := i.sendRequest(fn, md, args...); err != nil {
		return types.WrapErr(err)
''', '''func (i *CELPluginInstance) Call(ctx context.Context, fn *CELFunction, md metadata.MD, args ...ref.Val) ref.Val {
	i.mu.Lock()
	err := i.sendRequest(fn, md, args...)
	i.mu.Unlock()
	if err != nil {
		return types.WrapErr(err)
''')]
pkg = "grpc/federation/cel"
test = '''
package cel

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/encoding/protojson"

	"github.com/mercari/grpc-federation/grpc/federation/cel/plugin"
)

// The plugin answers what it has received after a pause, in the order in which it was received.
func TestSeededDemo(t *testing.T) {
	inR, inW := io.Pipe()
	outR, outW := io.Pipe()
	lines := make(chan string, 16)
	go func() {
		r := bufio.NewReader(inR)
		for {
			line, err := r.ReadString('\\n')
			if err != nil {
				close(lines)
				return
			}
			lines <- line
		}
	}()
	go func() {
		for line := range lines {
			time.Sleep(300 * time.Millisecond)
			batch := []string{line}
			for more := true; more; {
				select {
				case l, ok := <-lines:
					if !ok {
						more = false
						break
					}
					batch = append(batch, l)
				default:
					more = false
				}
			}
			var out string
			for _, l := range batch {
				var req plugin.CELPluginRequest
				if err := protojson.Unmarshal([]byte(l), &req); err != nil {
					panic(err)
				}
				b, err := protojson.Marshal(&plugin.CELPluginResponse{Value: req.GetArgs()[0]})
				if err != nil {
					panic(err)
				}
				out += string(b) + "\\n"
			}
			_, _ = io.WriteString(outW, out)
		}
	}()
	i := &CELPluginInstance{name: "p", stdin: inW, stdout: outR, instanceModErrCh: make(chan error, 1), gcQueue: make(chan struct{}, 1)}
	fn := &CELFunction{Name: "f", ID: "f_int_int", Args: []*cel.Type{cel.IntType}, Return: cel.IntType}
	results := make(chan error, 2)
	for n := 1; n <= 2; n++ {
		n := n
		go func() {
			var v ref.Val = i.Call(context.Background(), fn, metadata.MD{}, types.Int(n))
			if v != types.Int(n) {
				results <- fmt.Errorf("call %d returned %v", n, v)
				return
			}
			results <- nil
		}()
	}
	for n := 0; n < 2; n++ {
		select {
		case err := <-results:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(10 * time.Second):
			t.Fatal("a call never returned")
		}
	}
}
'''
