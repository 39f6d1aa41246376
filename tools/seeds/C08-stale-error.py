prop = 'C08'
needs = 'two attempts that fail with the same code but different messages'
breaks = 'the retry condition sees the error of an earlier attempt'
edits = [('grpc/federation/lib.go', '\tvar res *T\n\tif err := backoff', '\tvar (\n\t\tres  *T\n\t\tcode grpccodes.Code\n\t)\n\tif err := backoff'), ('grpc/federation/lib.go', '\t\t\tSetGRPCError(ctx, param.Value, err)\n', '\t\t\tif c := grpcstatus.Code(err); c != code {\n\t\t\t\tSetGRPCError(ctx, param.Value, err)\n\t\t\t\tcode = c\n\t\t\t}\n')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"context"
	"testing"
	"time"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type seedValue struct{ *LocalValue; got []int64 }

func newSeedValue(ctx context.Context) *seedValue {
	return &seedValue{LocalValue: NewLocalValue(ctx, NewDefaultEnvOptions(NewCELTypeHelper("org.example", CELTypeHelperFieldMap{"org.example.Arg": {}})), "org.example.Arg", map[string]any{})}
}

func TestSeededDemo(t *testing.T) {
	ctx := WithCELCacheMap(context.Background(), NewCELCacheMap())
	v := newSeedValue(ctx)
	n := 0
	_, err := WithRetry(ctx, &RetryParam[int]{
		Value: v, If: "error.message == 'busy'", CacheIndex: 1,
		BackOff: NewConstantBackOff(time.Millisecond),
		Body: func() (*int, error) {
			n++
			if n < 3 {
				return nil, status.Error(codes.Unavailable, "busy")
			}
			if n > 20 {
				return &n, nil
			}
			return nil, status.Error(codes.Unavailable, "gone")
		},
	})
	if n != 3 || status.Convert(err).Message() != "gone" {
		t.Fatal(n, err)
	}
}
'''
