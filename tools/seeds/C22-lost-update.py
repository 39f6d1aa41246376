prop = 'C22'
needs = 'two branches adding attributes to the same request at the same time'
breaks = 'attributes of one branch are lost'
edits = [('grpc/federation/log/context.go', '\tref := value.(*loggerRef)\n\n\tref.mu.Lock()\n\tdefer ref.mu.Unlock()\n\tref.attrs = append(ref.attrs, attrs...)\n', '\tref := value.(*loggerRef)\n\n\tmerged := append(Attrs(ctx), attrs...)\n\tref.mu.Lock()\n\tdefer ref.mu.Unlock()\n\tref.attrs = merged\n')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"context"
	"log/slog"
	"sync"
	"testing"
	"github.com/mercari/grpc-federation/grpc/federation/log"
)

func TestSeededDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		ctx := WithLogger(context.Background(), slog.Default())
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				log.AddAttrs(ctx, []slog.Attr{slog.Int("j", j)})
			}()
		}
		close(start)
		wg.Wait()
		if n := len(LogAttrs(ctx)); n != 8 {
			t.Fatal(n)
		}
	}
}
'''
