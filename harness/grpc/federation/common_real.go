package federation

import (
	"reflect"

	"github.com/google/cel-go/cel"
	"google.golang.org/genproto/googleapis/rpc/errdetails"
)

type vxArg struct {
	M *errdetails.ErrorInfo
	L []*errdetails.ErrorInfo
	N int64
	S string
}

var vxErrorInfoType = cel.ObjectType("google.rpc.ErrorInfo")

var vxHelper = NewCELTypeHelper("org.example", CELTypeHelperFieldMap{
	"org.example.Arg": {
		"m": NewCELFieldType(vxErrorInfoType, "M"),
		"l": NewCELFieldType(cel.ListType(vxErrorInfoType), "L"),
		"n": NewCELFieldType(cel.IntType, "N"),
		"s": NewCELFieldType(cel.StringType, "S"),
	},
})

var vxEnvOpts = NewDefaultEnvOptions(vxHelper)

// vxRealEval compiles and evaluates expr with the real expression engine.
func vxRealEval[T any](arg *vxArg, expr string) (T, error) {
	var zero T
	ctx := vxCtx()
	v := NewLocalValue(ctx, vxEnvOpts, "org.example.Arg", arg)
	v.setEnvOptValue("m", vxErrorInfoType)
	v.setEvalValue("m", arg.M)
	v.setEnvOptValue("l", cel.ListType(vxErrorInfoType))
	v.setEvalValue("l", arg.L)
	v.setEnvOptValue("n", cel.IntType)
	v.setEvalValue("n", arg.N)
	v.setEnvOptValue("s", cel.StringType)
	v.setEvalValue("s", arg.S)
	ret, err := EvalCEL(ctx, &EvalCELRequest{Value: v, Expr: expr, OutType: reflect.TypeOf(zero), CacheIndex: 1})
	if err != nil {
		return zero, err
	}
	return ret.(T), nil
}
