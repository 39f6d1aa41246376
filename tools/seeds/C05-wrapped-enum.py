prop = 'C05'
needs = 'an expression whose number does not fit the 32-bit type it is requested as'
breaks = 'the number is wrapped instead of refused'
edits = [('grpc/federation/cel.go', '\tif req.OutType != nil {\n\t\treturn out.ConvertToNative(req.OutType)\n\t}\n\treturn out.Value(), nil', '\tif req.OutType == nil {\n\t\treturn out.Value(), nil\n\t}\n\tif v, ok := out.(celtypes.Int); ok && req.OutType.Kind() == reflect.Int32 {\n\t\t// enum values and int32 are the most frequent results.\n\t\treturn reflect.ValueOf(v).Convert(req.OutType).Interface(), nil\n\t}\n\treturn out.ConvertToNative(req.OutType)')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"context"
	"reflect"
	"testing"
)

type seedValue struct{ *LocalValue; got []int64 }

func newSeedValue(ctx context.Context) *seedValue {
	return &seedValue{LocalValue: NewLocalValue(ctx, NewDefaultEnvOptions(NewCELTypeHelper("org.example", CELTypeHelperFieldMap{"org.example.Arg": {}})), "org.example.Arg", map[string]any{})}
}

func TestSeededDemo(t *testing.T) {
	for i, expr := range []string{"2147483647", "2147483648"} {
		ctx := WithCELCacheMap(context.Background(), NewCELCacheMap())
		got, err := EvalCEL(ctx, &EvalCELRequest{Value: newSeedValue(ctx), Expr: expr, OutType: reflect.TypeOf(int32(0)), CacheIndex: 1})
		if i == 0 && (err != nil || got != int32(2147483647)) {
			t.Fatal(got, err)
		}
		if i == 1 && err == nil {
			t.Fatal("2147483648 became ", got)
		}
	}
}
'''
