package cel

import (
	"context"
	"fmt"

	"github.com/google/cel-go/cel"
	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
)

// vxLib maps function names of a library to their implementations, taken from
// the declarations the library itself registers with a CEL environment.
type vxLib map[string]func(args ...ref.Val) ref.Val

func vxLoad(opts []cel.EnvOption) vxLib {
	env, err := cel.NewCustomEnv(opts...)
	if err != nil {
		panic(err)
	}
	lib := vxLib{}
	for _, fn := range env.Functions() {
		bs, err := fn.Bindings()
		if err != nil {
			panic(err)
		}
		for _, b := range bs {
			b := b
			if b.Operator != fn.Name() {
				continue // the entry under the function's name dispatches on the argument types
			}
			switch {
			case b.Unary != nil:
				lib[b.Operator] = func(args ...ref.Val) ref.Val { return b.Unary(args[0]) }
			case b.Binary != nil:
				lib[b.Operator] = func(args ...ref.Val) ref.Val { return b.Binary(args[0], args[1]) }
			default:
				lib[b.Operator] = func(args ...ref.Val) ref.Val { return b.Function(args...) }
			}
		}
	}
	return lib
}

func (l vxLib) f(id string) func(args ...ref.Val) ref.Val {
	f := l[id]
	if f == nil {
		panic(fmt.Sprintf("no function %s", id))
	}
	return f
}

// call invokes a package function with the context argument first.
func (l vxLib) call(id string, args ...ref.Val) ref.Val {
	ctx := NewContextValue(context.Background())
	return l.f(id)(append([]ref.Val{ctx}, args...)...)
}

// method invokes a member function: receiver, context, arguments.
func (l vxLib) method(id string, self ref.Val, args ...ref.Val) ref.Val {
	ctx := NewContextValue(context.Background())
	return l.f(id)(append([]ref.Val{self, ctx}, args...)...)
}

func vxStr(s string) ref.Val { return types.String(s) }
func vxInt(i int64) ref.Val  { return types.Int(i) }

func vxIsErr(v ref.Val) bool { return types.IsError(v) }

// vxCompile compiles expr with the given library and variables.
func vxCompile(expr string, opts ...cel.EnvOption) cel.Program {
	env, err := cel.NewEnv(opts...)
	if err != nil {
		panic(err)
	}
	ast, iss := env.Compile(expr)
	if iss.Err() != nil {
		panic(iss.Err())
	}
	prg, err := env.Program(ast)
	if err != nil {
		panic(err)
	}
	return prg
}

// one invokes a member function; its declaration dispatches on the types.
func (l vxLib) one(self ref.Val, name string, args ...ref.Val) ref.Val {
	return l.method(name, self, args...)
}
