package federation

import (
	"context"
	"errors"
	"time"

	"github.com/cenkalti/backoff/v4"
	celtypes "github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	grpccodes "google.golang.org/grpc/codes"
	grpcstatus "google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/vx"

	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
)

// Every history of attempts: each succeeds or fails with its own status, and
// the condition then allows another attempt, refuses it or fails.
func VX_C08_History() {
	vx.MustReach("success", "refused", "condFailed", "exhausted")
	max := uint64(vx.Choose("max", 4))
	total := int(max) + 1
	x := vx.Int64("x")
	interval := 10 * time.Millisecond
	attempts, conds := 0, 0
	lastMsg := ""
	var lastErr error
	var lastCode grpccodes.Code
	stop := ""
	prog := &vxProgram{fn: func(_ context.Context, in any) (ref.Val, error) {
		conds++
		vx.Assert(conds == attempts, "condition not evaluated once per failed attempt")
		e, ok := in.(map[string]any)["error"].(*grpcfedcel.Error)
		vx.Assert(ok, "condition does not see the error")
		vx.Assert(e.GetCode() == int32(lastCode), "condition sees the error of another attempt")
		vx.Assert(e.GetMessage() == lastMsg, "condition sees another message")
		switch vx.Choose("cond", 3) {
		case 0:
			return celtypes.True, nil
		case 1:
			stop = "refused"
			return celtypes.False, nil
		}
		stop = "condFailed"
		return nil, errVXIf
	}}
	ctx := vxCtx(prog)
	b := BackOffWithContext(BackOffWithMaxRetries(NewConstantBackOff(interval), max), ctx)
	var at []int64
	got, err := WithRetry(ctx, &RetryParam[int64]{
		Value: vxNewValue(ctx), If: "cond", CacheIndex: 1, BackOff: b,
		Body: func() (*int64, error) {
			vx.Assert(stop == "", "attempted again although it must not")
			attempts++
			at = append(at, vx.Now())
			if vx.Choose("fails", 2) == 0 {
				stop = "success"
				return &x, nil
			}
			k := vx.Choose("code", 3)
			lastCode = []grpccodes.Code{grpccodes.Unavailable, grpccodes.NotFound, grpccodes.Unavailable}[k]
			lastMsg = []string{"vx", "vx", "other"}[k]
			lastErr = grpcstatus.Error(lastCode, lastMsg)
			return nil, lastErr
		},
	})
	if stop == "" {
		stop = "exhausted"
		vx.Assert(attempts == total, "gave up before the allowed attempts were used")
	}
	vx.Reach(stop)
	vx.Assert(attempts <= total, "more attempts than allowed")
	for i := 1; i < len(at); i++ {
		vx.Assert(at[i]-at[i-1] >= int64(interval), "attempted again too soon")
		if vx.Symbolic() {
			vx.Assert(at[i]-at[i-1] < int64(2*interval), "attempted again too late")
		}
	}
	switch stop {
	case "success":
		vx.Assert(err == nil && got != nil && *got == x, "result of the successful attempt was lost")
		vx.Assert(conds == attempts-1, "condition evaluated for a successful attempt")
	case "condFailed":
		vx.Assert(got == nil && errors.Is(err, errVXIf), "failure of the condition was lost")
	default:
		vx.Assert(got == nil && err != nil, "failing call succeeded")
		vx.Assert(grpcstatus.Code(err) == lastCode && errors.Is(err, lastErr), "error is not that of the last attempt")
	}
}

// When the caller gives up, waiting ends at once and no further attempt is made.
func VX_C08_CallerGivesUp() {
	vx.MustReach("done")
	base := vxCtx(vxConst(celtypes.True))
	ctx, cancel := context.WithCancel(base)
	at := []time.Duration{0, time.Millisecond, 59 * time.Second, 61 * time.Second}[vx.Choose("at", 4)]
	if !vx.Symbolic() {
		at /= 1000
	}
	interval := time.Minute
	if !vx.Symbolic() {
		interval /= 1000
	}
	go func() {
		time.Sleep(at)
		cancel()
	}()
	start := vx.Now()
	attempts := 0
	_, err := WithRetry(ctx, &RetryParam[int64]{
		Value: vxNewValue(ctx), If: "true", CacheIndex: 1,
		BackOff: BackOffWithContext(BackOffWithMaxRetries(NewConstantBackOff(interval), 5), ctx),
		Body: func() (*int64, error) {
			vx.Assert(attempts == 0 || ctx.Err() == nil, "attempted after the caller gave up")
			attempts++
			return nil, grpcstatus.Error(grpccodes.Unavailable, "vx")
		},
	})
	elapsed := time.Duration(vx.Now() - start)
	vx.Assert(err != nil, "abandoned call succeeded")
	vx.Assert(attempts == 1+int(at/interval), "wrong number of attempts")
	if vx.Symbolic() {
		vx.Assert(elapsed <= at+time.Millisecond, "waited on although the caller gave up")
	}
	vx.Reach("done")
}

// Exponential waiting: bounds of every wait follow from the configuration.
func VX_C08_Exponential() {
	vx.MustReach("done")
	init := time.Duration(vx.Choose("init", 3)+1) * 10 * time.Millisecond
	mult := []float64{1, 2, 3}[vx.Choose("mult", 3)]
	maxI := []time.Duration{15 * time.Millisecond, 40 * time.Millisecond, time.Hour}[vx.Choose("max", 3)]
	rnd, n := 0.0, 4
	if vx.Choose("rnd", 2) == 1 {
		vx.Assume(init == 10*time.Millisecond && maxI == 40*time.Millisecond)
		rnd, n = 0.5, 1
		if vx.Thorough() {
			n = 2
		}
	}
	b := NewExponentialBackOff(&ExponentialBackOffConfig{
		InitialInterval: init, RandomizationFactor: rnd, Multiplier: mult, MaxInterval: maxI, MaxElapsedTime: time.Hour,
	})
	b.Reset()
	cur := float64(init)
	for i := 0; i < n; i++ {
		d := b.NextBackOff()
		lo, hi := cur*(1-rnd), cur*(1+rnd)
		vx.Assert(d >= time.Duration(lo)-1 && d <= time.Duration(hi)+1, "wait outside the configured bounds")
		if cur >= float64(maxI)/mult {
			cur = float64(maxI)
		} else {
			cur *= mult
		}
	}
	vx.Reach("done")
}

// The total time is limited.
func VX_C08_MaxElapsed() {
	vx.MustReach("done")
	ctx := vxCtx(vxConst(celtypes.True))
	limit := []time.Duration{time.Millisecond, 25 * time.Millisecond, 95 * time.Millisecond}[vx.Choose("limit", 3)]
	b := NewExponentialBackOff(&ExponentialBackOffConfig{
		InitialInterval: 10 * time.Millisecond, Multiplier: 1, MaxInterval: 10 * time.Millisecond, MaxElapsedTime: limit,
	})
	start := vx.Now()
	attempts := 0
	_, err := WithRetry(ctx, &RetryParam[int64]{
		Value: vxNewValue(ctx), If: "true", CacheIndex: 1, BackOff: BackOffWithContext(b, ctx),
		Body: func() (*int64, error) {
			attempts++
			return nil, grpcstatus.Error(grpccodes.Unavailable, "vx")
		},
	})
	vx.Assert(err != nil && grpcstatus.Code(err) == grpccodes.Unavailable, "error of the last attempt was lost")
	if vx.Symbolic() {
		vx.Assert(attempts == 1+int(limit/(10*time.Millisecond)), "wrong number of attempts for the total time")
		vx.Assert(time.Duration(vx.Now()-start) <= limit, "retried past the total time")
	}
	vx.Reach("done")
}

type vxClock struct{ t time.Time }

func (c *vxClock) Now() time.Time { return c.t }

// Without a total time, attempts never stop for lack of it.
func VX_C08_NoTotalTime() {
	vx.MustReach("limited", "unlimited")
	limit := []time.Duration{0, time.Second, 15 * time.Minute, 16 * time.Minute, 100 * time.Hour}[vx.Choose("limit", 5)]
	b := NewExponentialBackOff(&ExponentialBackOffConfig{
		InitialInterval: time.Second, Multiplier: 1, MaxInterval: time.Second, MaxElapsedTime: limit,
	})
	c := &vxClock{t: time.Unix(1000, 0)}
	b.BackOff.(*backoff.ExponentialBackOff).Clock = c
	b.Reset()
	base := []int{0, 14 * 60, 16 * 60, 99*3600 + 3500}[vx.Choose("base", 4)]
	c.t = c.t.Add(time.Duration(base+int(vx.Uint8("seconds"))) * time.Second)
	elapsed := c.t.Sub(time.Unix(1000, 0))
	d := b.NextBackOff()
	if limit == 0 || elapsed+time.Second <= limit {
		vx.Reach("unlimited")
		vx.Assert(d == time.Second, "no further attempt although the total time is not used up")
	} else {
		vx.Reach("limited")
		vx.Assert(d == backoff.Stop, "another attempt although the total time is used up")
	}
}
