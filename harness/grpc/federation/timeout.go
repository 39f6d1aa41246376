package federation

import (
	"context"
	"errors"
	"time"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	grpccodes "google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"
)

func vxIsTimeout(err error) bool {
	st, ok := grpcstatus.FromError(err)
	if !ok || st.Code() != grpccodes.DeadlineExceeded {
		return false
	}
	for _, d := range st.Details() {
		if info, ok := d.(*errdetails.ErrorInfo); ok && info.GetMetadata()["method"] == "/org.Svc/Get" && info.GetMetadata()["timeout"] == "1s" {
			return true
		}
	}
	return false
}

// A call of any duration and outcome under a time limit of one second.
func VX_C07_Limit() {
	if !vx.Thorough() {
		vx.Preempt(1)
	}
	vx.Race()
	vx.MustReach("inTime", "late")
	x := vx.Int64("x")
	outcome := vx.Choose("outcome", 3) // value, error, panic
	obeys := vx.Bool("obeys")          // the call ends when its context does
	took := []time.Duration{0, time.Millisecond, 999 * time.Millisecond, 1001 * time.Millisecond, time.Hour}[vx.Choose("took", 5)]
	start := vx.Now()
	finished := false
	ret, err := WithTimeout(context.Background(), "/org.Svc/Get", time.Second, func(ctx context.Context) (*int64, error) {
		dl, ok := ctx.Deadline()
		vx.Assert(ok, "call has no deadline")
		_ = dl
		if obeys {
			select {
			case <-time.After(took):
			case <-ctx.Done():
				return nil, ctx.Err()
			}
		} else {
			time.Sleep(took)
		}
		finished = true
		switch outcome {
		case 1:
			return nil, errVX
		case 2:
			panic("vx: boom")
		}
		return &x, nil
	})
	elapsed := time.Duration(vx.Now() - start)
	if took < time.Second {
		vx.Reach("inTime")
		vx.Assert(finished, "returned before the call finished")
		switch outcome {
		case 0:
			vx.Assert(err == nil && ret != nil && *ret == x, "result of a call in time was lost")
		case 1:
			vx.Assert(errors.Is(err, errVX), "failure of a call in time was lost")
		case 2:
			var re *RecoveredError
			vx.Assert(errors.As(err, &re) && re.Message == "vx: boom", "panic of a call did not become an error")
		}
		return
	}
	vx.Reach("late")
	vx.Assert(ret == nil && err != nil, "late call did not fail")
	if obeys {
		// the call itself may be first to notice
		vx.Assert(vxIsTimeout(err) || errors.Is(err, context.DeadlineExceeded), "late call failed with something other than the time limit")
	} else {
		vx.Assert(vxIsTimeout(err), "late call did not report the time limit with its method")
	}
	vx.Assert(elapsed < 1001*time.Millisecond, "late call held its caller past the time limit")
	left := vx.Quiesce()
	if vx.Symbolic() {
		vx.Assert(left == 0, "a goroutine of the call never ends")
	}
}

// Any relative timing of completion, deadline and cancellation by the caller:
// the result is always one of the outcomes that really happened.
func VX_C07_Races() {
	if !vx.Thorough() {
		vx.Preempt(1)
	}
	vx.Race()
	vx.MustReach("result", "expired")
	x := vx.Int64("x")
	fails := vx.Choose("fails", 2) == 1
	cancelled := vx.Choose("cancelled", 2) == 1
	vx.TimersAnytime(!cancelled)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if cancelled {
		go cancel()
	}
	ret, err := WithTimeout(ctx, "/org.Svc/Get", time.Second, func(ctx context.Context) (*int64, error) {
		if fails {
			return nil, errVX
		}
		return &x, nil
	})
	switch {
	case err == nil:
		vx.Reach("result")
		vx.Assert(!fails && ret != nil && *ret == x, "success without the result of the call")
	case errors.Is(err, errVX):
		vx.Assert(fails && ret == nil, "failure that did not happen")
	default:
		vx.Reach("expired")
		vx.Assert(ret == nil && vxIsTimeout(err), "neither the call's outcome nor its expiry")
	}
	if vx.Symbolic() {
		vx.Assert(vx.Quiesce() == 0, "a goroutine of the call never ends")
	}
}

// When the caller gives up, so does the call, long before its time limit.
func VX_C07_CallerGivesUp() {
	if !vx.Thorough() {
		vx.Preempt(1)
	}
	vx.MustReach("done")
	at := []time.Duration{0, time.Millisecond, 500 * time.Millisecond}[vx.Choose("at", 3)]
	ctx, cancel := context.WithCancel(context.Background())
	go func() {
		time.Sleep(at)
		cancel()
	}()
	start := vx.Now()
	told := false
	ret, err := WithTimeout(ctx, "/org.Svc/Get", time.Hour, func(ctx context.Context) (*int64, error) {
		<-ctx.Done()
		told = true
		return nil, ctx.Err()
	})
	elapsed := time.Duration(vx.Now() - start)
	vx.Assert(ret == nil && err != nil, "abandoned call succeeded")
	vx.Assert(elapsed < at+50*time.Millisecond, "abandoned call held its caller")
	vx.Quiesce()
	vx.Assert(told, "abandoned call was not told")
	vx.Reach("done")
}
