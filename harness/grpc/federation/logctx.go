package federation

import (
	"context"
	"log/slog"
	"sync"

	grpccodes "google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"

	grpcfedlog "github.com/mercari/grpc-federation/grpc/federation/log"
)

func vxAttr(i int) slog.Attr { return slog.Int(string(rune('a'+i)), i) }

func vxSameAttrs(got, want []slog.Attr) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !got[i].Equal(want[i]) {
			return false
		}
	}
	return true
}

// Every history of adding attributes, replacing the logger, taking the
// attributes for an error, logging that error and starting a child context:
// each context keeps exactly its attributes, in order.
func VX_C22_History() {
	vx.MustReach("logged")
	type cx struct {
		ctx  context.Context
		want []slog.Attr
	}
	logger, recs := vxLogger()
	base := make([]slog.Attr, 0, 4)
	n0 := vx.Choose("base", 3)
	for i := 0; i < n0; i++ {
		base = append(base, vxAttr(i))
	}
	next := n0
	a := &cx{ctx: WithLogger(context.Background(), logger, base...), want: append([]slog.Attr(nil), base...)}
	b := &cx{ctx: WithLogger(context.Background(), logger, base...), want: append([]slog.Attr(nil), base...)}
	var errs []error
	var errWant [][]slog.Attr
	steps := 4
	if vx.Thorough() {
		steps = 6
	}
	for i := 0; i < steps; i++ {
		switch vx.Choose("op", 5) {
		case 0:
			grpcfedlog.AddAttrs(a.ctx, []slog.Attr{vxAttr(next)})
			a.want = append(a.want, vxAttr(next))
			next++
		case 1:
			grpcfedlog.AddAttrs(b.ctx, []slog.Attr{vxAttr(next), vxAttr(next + 1)})
			b.want = append(b.want, vxAttr(next), vxAttr(next+1))
			next += 2
		case 2:
			errs = append(errs, NewErrorWithLogAttrs(grpcstatus.Error(grpccodes.NotFound, "vx"), slog.LevelWarn, LogAttrs(a.ctx)))
			errWant = append(errWant, append([]slog.Attr(nil), a.want...))
		case 3:
			if len(errs) > 0 {
				vx.Reach("logged")
				k := len(errs) - 1
				*recs = nil
				OutputErrorLog(WithLogger(context.Background(), logger), errs[k])
				vx.Assert(len(*recs) == 1, "error not logged once")
				got := (*recs)[0].attrs
				vx.Assert(vxSameAttrs(got[:len(got)-1], errWant[k]), "error logged with attributes other than those it was made with")
			}
		case 4:
			child := &cx{ctx: WithLogger(a.ctx, logger, LogAttrs(a.ctx)...), want: append([]slog.Attr(nil), a.want...)}
			grpcfedlog.AddAttrs(child.ctx, []slog.Attr{vxAttr(next)})
			child.want = append(child.want, vxAttr(next))
			next++
			vx.Assert(vxSameAttrs(LogAttrs(child.ctx), child.want), "child context has wrong attributes")
		}
		vx.Assert(vxSameAttrs(LogAttrs(a.ctx), a.want), "attributes of a context were lost, changed or mixed up")
		vx.Assert(vxSameAttrs(LogAttrs(b.ctx), b.want), "attributes of another context were lost, changed or mixed up")
	}
	*recs = nil
	Logger(a.ctx).Info("vx")
	vx.Assert(len(*recs) == 1 && vxSameAttrs((*recs)[0].attrs, a.want), "log entry does not carry exactly the attributes of its context")
}

// Concurrent branches that add attributes: none is lost.
func VX_C22_Concurrent() {
	vx.MustReach("done")
	logger, recs := vxLogger()
	ctx := WithLogger(context.Background(), logger, vxAttr(0))
	k := 2
	if vx.Thorough() {
		k = 3
	}
	var wg sync.WaitGroup
	for i := 1; i <= k; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			grpcfedlog.AddAttrs(ctx, []slog.Attr{vxAttr(i)})
			Logger(ctx).Info("vx")
		}()
	}
	wg.Wait()
	got := LogAttrs(ctx)
	vx.Assert(len(got) == k+1 && got[0].Equal(vxAttr(0)), "an attribute was lost")
	for i := 1; i <= k; i++ {
		found := 0
		for _, a := range got {
			if a.Equal(vxAttr(i)) {
				found++
			}
		}
		vx.Assert(found == 1, "attribute of a branch was lost or doubled")
	}
	vx.Assert(len(*recs) == k, "a log entry was lost")
	vx.Reach("done")
}

// Replacing the logger affects its context and children, not siblings.
func VX_C22_SetLogger() {
	vx.MustReach("done")
	l1, r1 := vxLogger()
	l2, r2 := vxLogger()
	ctx := WithLogger(context.Background(), l1, vxAttr(0))
	child := context.WithValue(ctx, vxKey{}, 1)
	sibling := WithLogger(context.Background(), l1)
	inChild := vx.Choose("inChild", 2) == 1
	if inChild {
		SetLogger(child, l2)
	} else {
		SetLogger(ctx, l2)
	}
	grpcfedlog.AddAttrs(child, []slog.Attr{vxAttr(1)})
	Logger(ctx).Info("x")
	Logger(child).Info("x")
	vx.Assert(len(*r2) == 2 && len(*r1) == 0, "replaced logger still used")
	vx.Assert(vxKeys((*r2)[0].attrs) == "a,b" && vxKeys((*r2)[1].attrs) == "a,b", "attributes not carried to the new logger")
	Logger(sibling).Info("x")
	vx.Assert(len(*r1) == 1 && len((*r1)[0].attrs) == 0, "another context was affected")
	// without a logger nothing fails
	bg := context.Background()
	SetLogger(bg, l2)
	grpcfedlog.AddAttrs(bg, []slog.Attr{vxAttr(1)})
	vx.Assert(LogAttrs(bg) == nil && Logger(bg) != nil, "context without a logger")
	vx.Reach("done")
}

type vxKey struct{}
