prop = 'C07'
needs = "the caller continues between the callee's goroutine reporting success and storing its result"
breaks = 'the call succeeds with a nil result'
edits = [('grpc/federation/lib.go', '\t\tret = res\n\t\terrch <- err\n', '\t\terrch <- err\n\t\tret = res\n')]
pkg = 'grpc/federation'
race = True
test = r'''
package federation

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		got, err := WithTimeout(context.Background(), "m", time.Minute, func(context.Context) (*int, error) { return &i, nil })
		if err != nil || got == nil {
			t.Fatal(got, err)
		}
	}
}
'''
