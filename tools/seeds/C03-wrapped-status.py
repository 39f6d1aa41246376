prop = 'C03'
needs = 'a validation whose error wraps a status error'
breaks = 'the status code of the validation is lost: the failure becomes an internal error'
edits = [('grpc/federation/cel.go', '\t\t\t\t\tif _, ok := grpcstatus.FromError(err); ok {\n\t\t\t\t\t\treturn nil, err', '\t\t\t\t\tif _, ok := err.(interface{ GRPCStatus() *grpcstatus.Status }); ok {\n\t\t\t\t\t\treturn nil, err')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"context"
	"fmt"
	"testing"
	"github.com/google/cel-go/cel"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type seedValue struct{ *LocalValue; got []int64 }

func newSeedValue(ctx context.Context) *seedValue {
	return &seedValue{LocalValue: NewLocalValue(ctx, NewDefaultEnvOptions(NewCELTypeHelper("org.example", CELTypeHelperFieldMap{"org.example.Arg": {}})), "org.example.Arg", map[string]any{})}
}

func TestSeededDemo(t *testing.T) {
	ctx := WithCELCacheMap(context.Background(), NewCELCacheMap())
	err := EvalDef(ctx, newSeedValue(ctx), Def[bool, *seedValue]{
		Name: "a", Type: cel.BoolType,
		Setter: func(*seedValue, bool) error { return nil },
		Validation: func(context.Context, *seedValue) error {
			return fmt.Errorf("invalid: %w", status.Error(codes.FailedPrecondition, "no"))
		},
	})
	if status.Code(err) != codes.FailedPrecondition {
		t.Fatal(err)
	}
}
'''
