prop = 'C18'
needs = 'a bad request with an entry whose description cannot be evaluated before another entry'
breaks = 'the entries after the failing one are left out'
edits = [('grpc/federation/validation.go', '\t\t\t\t"failed evaluating BadRequest field violation description",\n\t\t\t\tslog.Int("index", idx),\n\t\t\t\tslog.String("error", err.Error()),\n\t\t\t)\n\t\t\tcontinue\n', '\t\t\t\t"failed evaluating BadRequest field violation description",\n\t\t\t\tslog.Int("index", idx),\n\t\t\t\tslog.String("error", err.Error()),\n\t\t\t)\n\t\t\tbreak\n')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"context"
	"testing"
)

type seedValue struct{ *LocalValue; got []int64 }

func newSeedValue(ctx context.Context) *seedValue {
	return &seedValue{LocalValue: NewLocalValue(ctx, NewDefaultEnvOptions(NewCELTypeHelper("org.example", CELTypeHelperFieldMap{"org.example.Arg": {}})), "org.example.Arg", map[string]any{})}
}

func TestSeededDemo(t *testing.T) {
	ctx := WithCELCacheMap(context.Background(), NewCELCacheMap())
	r := BadRequest(ctx, newSeedValue(ctx), []*BadRequestFieldViolation{
		{Field: "'a'", FieldCacheIndex: 1, Desc: "[''][1]", DescCacheIndex: 2},
		{Field: "'b'", FieldCacheIndex: 3, Desc: "'d'", DescCacheIndex: 4},
	})
	if len(r.GetFieldViolations()) != 1 || r.GetFieldViolations()[0].GetField() != "b" {
		t.Fatal(r)
	}
}
'''
