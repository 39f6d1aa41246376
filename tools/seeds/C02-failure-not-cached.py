prop = 'C02'
needs = 'a definition that fails and is needed again after it failed'
breaks = 'the failed definition is evaluated a second time'
edits = [('grpc/federation/cel.go', '\t\tv.sgCache.mu.Lock()\n\t\tv.sgCache.resultMap[name] = &singleflightCacheResult{\n\t\t\tresult: ret,\n\t\t\terr:    err,\n\t\t}\n\t\tv.sgCache.mu.Unlock()\n\t\treturn ret, err\n', '\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tv.sgCache.mu.Lock()\n\t\tv.sgCache.resultMap[name] = &singleflightCacheResult{result: ret}\n\t\tv.sgCache.mu.Unlock()\n\t\treturn ret, nil\n')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"context"
	"errors"
	"testing"
	"github.com/google/cel-go/cel"
)

type seedValue struct{ *LocalValue; got []int64 }

func newSeedValue(ctx context.Context) *seedValue {
	return &seedValue{LocalValue: NewLocalValue(ctx, NewDefaultEnvOptions(NewCELTypeHelper("org.example", CELTypeHelperFieldMap{"org.example.Arg": {}})), "org.example.Arg", map[string]any{})}
}

func TestSeededDemo(t *testing.T) {
	ctx := WithCELCacheMap(context.Background(), NewCELCacheMap())
	v := newSeedValue(ctx)
	n := 0
	def := Def[int64, *seedValue]{
		Name: "a", Type: cel.IntType,
		Setter:  func(*seedValue, int64) error { return nil },
		Message: func(context.Context, *seedValue) (any, error) { n++; return nil, errors.New("failed") },
	}
	for i := 0; i < 2; i++ {
		if err := EvalDef(ctx, v, def); err == nil || err.Error() != "failed" {
			t.Fatal(err)
		}
	}
	if n != 1 {
		t.Fatalf("evaluated %d times", n)
	}
}
'''
