prop = 'C06'
needs = 'a comparison with null in the initial value of a reduce'
breaks = 'the comparison is not rewritten: an absent message does not equal null there'
edits = [('grpc/federation/cel.go', '\tv.visit(comp.GetIterRange())\n\tv.visit(comp.GetAccuInit())\n', '\tv.visit(comp.GetIterRange())\n')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"context"
	"reflect"
	"testing"
	"github.com/google/cel-go/cel"
	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
)

type seedValue struct{ *LocalValue; got []int64 }

func newSeedValue(ctx context.Context) *seedValue {
	return &seedValue{LocalValue: NewLocalValue(ctx, NewDefaultEnvOptions(NewCELTypeHelper("org.example", CELTypeHelperFieldMap{"org.example.Arg": {}})), "org.example.Arg", map[string]any{})}
}


func TestSeededDemo(t *testing.T) {
	for _, m := range []*grpcfedcel.Error{nil, {Code: 1}} {
		ctx := WithCELCacheMap(context.Background(), NewCELCacheMap())
		v := newSeedValue(ctx)
		v.setEnvOptValue("m", cel.ObjectType("grpc.federation.private.Error"))
		v.setEvalValue("m", m)
		got, err := EvalCEL(ctx, &EvalCELRequest{Value: v, Expr: "[true].reduce(acc, cur, acc && cur, m == null)", OutType: reflect.TypeOf(false), CacheIndex: 1})
		if err != nil || got != (m == nil) {
			t.Fatal(m, got, err)
		}
	}
}
'''
