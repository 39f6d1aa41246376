package generator

import (
	"time"

	"google.golang.org/genproto/googleapis/rpc/code"

	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/vx"
)

// vxIso compares what was sent with what was received, up to the identity of
// the objects: the same object sent at two places is the same object received.
type vxIso struct {
	to, from map[any]any
	work     []func()
	where    string
}

func newVxIso() *vxIso {
	return &vxIso{to: map[any]any{}, from: map[any]any{}}
}

func (s *vxIso) run(f func()) {
	f()
	for len(s.work) > 0 {
		w := s.work[0]
		s.work = s.work[1:]
		w()
	}
}

func (s *vxIso) ok(cond bool, what string) {
	vx.Assert(cond, "received something else: "+what)
}

// pair: true if the two have to be compared now.
func vxPair[T any](s *vxIso, w, g *T, what string, cmp func()) {
	if w == nil || g == nil {
		s.ok(w == nil && g == nil, what+" missing or invented")
		return
	}
	if o, ok := s.to[w]; ok {
		s.ok(o == any(g), what+" received as another")
		return
	}
	if _, ok := s.from[g]; ok {
		s.ok(false, "two of "+what+" received as one")
	}
	s.to[w], s.from[g] = g, w
	s.work = append(s.work, cmp)
}

func vxAll[T any](s *vxIso, w, g []T, what string, cmp func(a, b T)) {
	s.ok(len(w) == len(g), "number of "+what)
	for i := range w {
		cmp(w[i], g[i])
	}
}

// files are told apart by their names: the resolver itself copies them.
func (s *vxIso) file(w, g *resolver.File) {
	if w == nil || g == nil {
		s.ok(w == nil && g == nil, "file")
		return
	}
	if o, ok := s.to[w]; ok {
		s.ok(o == any(g), "file received as another")
		return
	}
	s.to[w] = g
	s.work = append(s.work, func() {
		s.ok(w.Name == g.Name, "file name")
		s.ok((w.Package == nil) == (g.Package == nil), "package")
		if w.Package != nil {
			s.ok(w.Package.Name == g.Package.Name, "package name")
			vxAll(s, w.Package.Files, g.Package.Files, "files of a package", func(a, b *resolver.File) { s.ok(a.Name == b.Name, "file of a package") })
		}
		s.ok((w.GoPackage == nil) == (g.GoPackage == nil), "go package")
		if w.GoPackage != nil {
			s.ok(*w.GoPackage == *g.GoPackage, "go package")
		}
		vxAll(s, w.ImportFiles, g.ImportFiles, "imports", s.file)
		vxAll(s, w.Services, g.Services, "services", s.service)
		vxAll(s, w.Messages, g.Messages, "messages", s.message)
		vxAll(s, w.Enums, g.Enums, "enums", s.enum)
		vxAll(s, w.CELPlugins, g.CELPlugins, "plugins", s.plugin)
	})
}

func (s *vxIso) plugin(w, g *resolver.CELPlugin) {
	vxPair(s, w, g, "plugin", func() {
		s.ok(w.Name == g.Name && w.Desc == g.Desc, "plugin")
		vxAll(s, w.Functions, g.Functions, "functions", func(a, b *resolver.CELFunction) {
			s.ok(a.Name == b.Name && a.ID == b.ID, "function")
			vxAll(s, a.Args, b.Args, "function arguments", s.typ)
			s.typ(a.Return, b.Return)
			s.message(a.Receiver, b.Receiver)
		})
	})
}

func (s *vxIso) service(w, g *resolver.Service) {
	vxPair(s, w, g, "service", func() {
		s.ok(w.Name == g.Name, "service name")
		s.file(w.File, g.File)
		vxAll(s, w.Methods, g.Methods, "methods", s.method)
		vxAll(s, w.Messages, g.Messages, "messages of a service", s.message)
		vxAll(s, w.MessageArgs, g.MessageArgs, "arguments of a service", s.message)
		vxAll(s, w.CELPlugins, g.CELPlugins, "plugins of a service", s.plugin)
		s.ok((w.Rule == nil) == (g.Rule == nil), "service rule")
		if w.Rule == nil {
			return
		}
		a, b := w.Rule, g.Rule
		s.ok((a.Env == nil) == (b.Env == nil), "env")
		if a.Env != nil {
			vxAll(s, a.Env.Vars, b.Env.Vars, "env variables", func(a, b *resolver.EnvVar) {
				s.ok(a.Name == b.Name, "env variable name")
				s.typ(a.Type, b.Type)
				s.ok((a.Option == nil) == (b.Option == nil), "env option")
				if a.Option != nil {
					s.ok(*a.Option == *b.Option, "env option")
				}
			})
		}
		vxAll(s, a.Vars, b.Vars, "service variables", func(a, b *resolver.ServiceVariable) {
			s.ok(a.Name == b.Name, "service variable name")
			s.cel(a.If, b.If)
			x, y := a.Expr, b.Expr
			s.ok((x == nil) == (y == nil), "service variable")
			if x == nil {
				return
			}
			s.typ(x.Type, y.Type)
			s.cel(x.By, y.By)
			s.mapExpr(x.Map, y.Map)
			s.msgExpr(x.Message, y.Message)
			s.enumExpr(x.Enum, y.Enum)
			s.ok((x.Validation == nil) == (y.Validation == nil), "validation of a service variable")
			if x.Validation != nil {
				s.cel(x.Validation.If, y.Validation.If)
				s.cel(x.Validation.Message, y.Validation.Message)
			}
		})
	})
}

func (s *vxIso) method(w, g *resolver.Method) {
	vxPair(s, w, g, "method", func() {
		s.ok(w.Name == g.Name, "method name")
		s.service(w.Service, g.Service)
		s.message(w.Request, g.Request)
		s.message(w.Response, g.Response)
		s.ok((w.Rule == nil) == (g.Rule == nil), "method rule")
		if w.Rule != nil {
			s.dur(w.Rule.Timeout, g.Rule.Timeout)
			s.message(w.Rule.Response, g.Rule.Response)
		}
	})
}

func (s *vxIso) dur(w, g *time.Duration) {
	s.ok((w == nil) == (g == nil), "time limit")
	if w != nil {
		s.ok(*w == *g, "time limit")
	}
}

func (s *vxIso) message(w, g *resolver.Message) {
	vxPair(s, w, g, "message", func() {
		s.ok(w.Name == g.Name && w.IsMapEntry == g.IsMapEntry, "message")
		s.file(w.File, g.File)
		s.message(w.ParentMessage, g.ParentMessage)
		vxAll(s, w.NestedMessages, g.NestedMessages, "nested messages", s.message)
		vxAll(s, w.Enums, g.Enums, "nested enums", s.enum)
		vxAll(s, w.Fields, g.Fields, "fields", s.field)
		vxAll(s, w.Oneofs, g.Oneofs, "oneofs", s.oneof)
		s.ok((w.Rule == nil) == (g.Rule == nil), "message rule")
		if w.Rule != nil {
			s.message(w.Rule.MessageArgument, g.Rule.MessageArgument)
			s.ok(w.Rule.CustomResolver == g.Rule.CustomResolver, "custom resolver of a message")
			vxAll(s, w.Rule.Aliases, g.Rule.Aliases, "aliases of a message", s.message)
			s.set(w.Rule.DefSet, g.Rule.DefSet)
		}
	})
}

func (s *vxIso) oneof(w, g *resolver.Oneof) {
	vxPair(s, w, g, "oneof", func() {
		s.ok(w.Name == g.Name, "oneof name")
		s.message(w.Message, g.Message)
		vxAll(s, w.Fields, g.Fields, "fields of a oneof", s.field)
	})
}

func (s *vxIso) field(w, g *resolver.Field) {
	vxPair(s, w, g, "field", func() {
		s.ok(w.Name == g.Name, "field name")
		s.typ(w.Type, g.Type)
		s.oneof(w.Oneof, g.Oneof)
		s.message(w.Message, g.Message)
		s.ok((w.Rule == nil) == (g.Rule == nil), "field rule")
		if w.Rule == nil {
			return
		}
		a, b := w.Rule, g.Rule
		s.value(a.Value, b.Value)
		s.ok(a.CustomResolver == b.CustomResolver && a.MessageCustomResolver == b.MessageCustomResolver, "custom resolver of a field")
		vxAll(s, a.Aliases, b.Aliases, "aliases of a field", s.field)
		s.ok((a.AutoBindField == nil) == (b.AutoBindField == nil), "automatically bound field")
		if a.AutoBindField != nil {
			s.def(a.AutoBindField.VariableDefinition, b.AutoBindField.VariableDefinition)
			s.field(a.AutoBindField.Field, b.AutoBindField.Field)
		}
		s.ok((a.Oneof == nil) == (b.Oneof == nil), "rule of a oneof")
		if a.Oneof != nil {
			s.ok(a.Oneof.Default == b.Oneof.Default, "default of a oneof")
			s.cel(a.Oneof.If, b.Oneof.If)
			s.cel(a.Oneof.By, b.Oneof.By)
			s.set(a.Oneof.DefSet, b.Oneof.DefSet)
		}
	})
}

func (s *vxIso) enum(w, g *resolver.Enum) {
	vxPair(s, w, g, "enum", func() {
		s.ok(w.Name == g.Name, "enum name")
		s.file(w.File, g.File)
		s.message(w.Message, g.Message)
		vxAll(s, w.Values, g.Values, "enum values", s.enumValue)
		s.ok((w.Rule == nil) == (g.Rule == nil), "enum rule")
		if w.Rule != nil {
			vxAll(s, w.Rule.Aliases, g.Rule.Aliases, "aliases of an enum", s.enum)
		}
	})
}

func (s *vxIso) enumValue(w, g *resolver.EnumValue) {
	vxPair(s, w, g, "enum value", func() {
		s.ok(w.Value == g.Value, "enum value")
		s.enum(w.Enum, g.Enum)
		s.ok((w.Rule == nil) == (g.Rule == nil), "rule of an enum value")
		if w.Rule == nil {
			return
		}
		s.ok(w.Rule.Default == g.Rule.Default, "default enum value")
		vxAll(s, w.Rule.Aliases, g.Rule.Aliases, "aliases of an enum value", func(a, b *resolver.EnumValueAlias) {
			s.enum(a.EnumAlias, b.EnumAlias)
			vxAll(s, a.Aliases, b.Aliases, "values of an alias", s.enumValue)
		})
		vxAll(s, w.Rule.Attrs, g.Rule.Attrs, "attributes of an enum value", func(a, b *resolver.EnumValueAttribute) {
			s.ok(*a == *b, "attribute of an enum value")
		})
	})
}

// a set without definitions and none at all are the same.
func (s *vxIso) set(w, g *resolver.VariableDefinitionSet) {
	vxAll(s, w.Definitions(), g.Definitions(), "definitions", s.def)
	vxAll(s, w.DefinitionGroups(), g.DefinitionGroups(), "groups", s.group)
	wg, gg := w.DependencyGraph(), g.DependencyGraph()
	s.ok((wg == nil) == (gg == nil), "dependency graph")
	if wg != nil {
		vxAll(s, wg.Roots, gg.Roots, "roots", s.node)
	}
}

func (s *vxIso) node(w, g *resolver.MessageDependencyGraphNode) {
	vxPair(s, w, g, "node", func() {
		s.message(w.BaseMessage, g.BaseMessage)
		s.def(w.VariableDefinition, g.VariableDefinition)
		vxAll(s, w.Children, g.Children, "dependents", s.node)
		s.ok(len(w.Parent) == len(g.Parent), "dependencies")
		s.ok(len(g.ChildrenMap) == len(w.Children) && len(g.ParentMap) == len(w.Parent), "maps of a node")
		for _, p := range w.Parent {
			found := false
			for _, q := range g.Parent {
				_, in := g.ParentMap[q]
				found = found || in && s.to[p] == any(q)
			}
			s.ok(found, "dependency")
		}
		for _, c := range g.Children {
			_, in := g.ChildrenMap[c]
			s.ok(in, "map of dependents")
		}
	})
}

func (s *vxIso) group(w, g resolver.VariableDefinitionGroup) {
	if w == nil || g == nil {
		s.ok(w == nil && g == nil, "group")
		return
	}
	switch w := w.(type) {
	case *resolver.SequentialVariableDefinitionGroup:
		g, ok := g.(*resolver.SequentialVariableDefinitionGroup)
		s.ok(ok, "kind of a group")
		s.group(w.Start, g.Start)
		s.def(w.End, g.End)
	case *resolver.ConcurrentVariableDefinitionGroup:
		g, ok := g.(*resolver.ConcurrentVariableDefinitionGroup)
		s.ok(ok, "kind of a group")
		vxAll(s, w.Starts, g.Starts, "members of a group", s.group)
		s.def(w.End, g.End)
	}
}

func (s *vxIso) def(w, g *resolver.VariableDefinition) {
	vxPair(s, w, g, "definition", func() {
		s.ok(w.Idx == g.Idx, "index of a definition")
		s.ok(w.Name == g.Name, "name of a definition")
		s.ok(w.AutoBind == g.AutoBind && w.Used == g.Used, "flags of a definition")
		s.cel(w.If, g.If)
		s.ok((w.Expr == nil) == (g.Expr == nil), "expression of a definition")
		if w.Expr == nil {
			return
		}
		a, b := w.Expr, g.Expr
		s.typ(a.Type, b.Type)
		s.cel(a.By, b.By)
		s.mapExpr(a.Map, b.Map)
		s.msgExpr(a.Message, b.Message)
		s.enumExpr(a.Enum, b.Enum)
		s.ok((a.Validation == nil) == (b.Validation == nil), "validation")
		if a.Validation != nil {
			s.ok(a.Validation.Name == b.Validation.Name, "name of a validation")
			s.grpcError(a.Validation.Error, b.Validation.Error)
		}
		s.ok((a.Call == nil) == (b.Call == nil), "call")
		if a.Call != nil {
			s.call(a.Call, b.Call)
		}
	})
}

func (s *vxIso) call(a, b *resolver.CallExpr) {
	s.method(a.Method, b.Method)
	s.dur(a.Timeout, b.Timeout)
	s.ok((a.Request == nil) == (b.Request == nil), "request")
	if a.Request != nil {
		s.args(a.Request.Args, b.Request.Args)
		s.message(a.Request.Type, b.Request.Type)
	}
	s.ok((a.Retry == nil) == (b.Retry == nil), "retry")
	if a.Retry != nil {
		x, y := a.Retry, b.Retry
		s.cel(x.If, y.If)
		s.ok((x.Constant == nil) == (y.Constant == nil) && (x.Exponential == nil) == (y.Exponential == nil), "kind of retry")
		if x.Constant != nil {
			s.ok(*x.Constant == *y.Constant, "constant retry")
		}
		if x.Exponential != nil {
			s.ok(*x.Exponential == *y.Exponential, "exponential retry")
		}
	}
	vxAll(s, a.Errors, b.Errors, "errors of a call", s.grpcError)
}

func (s *vxIso) args(w, g []*resolver.Argument) {
	vxAll(s, w, g, "arguments", func(a, b *resolver.Argument) {
		s.ok(a.Name == b.Name, "argument name")
		s.typ(a.Type, b.Type)
		s.value(a.Value, b.Value)
		s.cel(a.If, b.If)
	})
}

func (s *vxIso) value(w, g *resolver.Value) {
	s.ok((w == nil) == (g == nil), "value")
	if w != nil {
		s.ok(w.Inline == g.Inline, "inline")
		s.cel(w.CEL, g.CEL)
	}
}

func (s *vxIso) mapExpr(w, g *resolver.MapExpr) {
	s.ok((w == nil) == (g == nil), "list definition")
	if w == nil {
		return
	}
	s.ok((w.Iterator == nil) == (g.Iterator == nil), "iterator")
	if w.Iterator != nil {
		s.ok(w.Iterator.Name == g.Iterator.Name, "name of an iterator")
		s.def(w.Iterator.Source, g.Iterator.Source)
	}
	s.ok((w.Expr == nil) == (g.Expr == nil), "element")
	if w.Expr != nil {
		s.typ(w.Expr.Type, g.Expr.Type)
		s.cel(w.Expr.By, g.Expr.By)
		s.msgExpr(w.Expr.Message, g.Expr.Message)
		s.enumExpr(w.Expr.Enum, g.Expr.Enum)
	}
}

func (s *vxIso) msgExpr(w, g *resolver.MessageExpr) {
	s.ok((w == nil) == (g == nil), "message definition")
	if w != nil {
		s.message(w.Message, g.Message)
		s.args(w.Args, g.Args)
	}
}

func (s *vxIso) enumExpr(w, g *resolver.EnumExpr) {
	s.ok((w == nil) == (g == nil), "enum definition")
	if w != nil {
		s.enum(w.Enum, g.Enum)
		s.cel(w.By, g.By)
	}
}

func (s *vxIso) code(w, g *code.Code) {
	s.ok((w == nil) == (g == nil), "code")
	if w != nil {
		s.ok(*w == *g, "code")
	}
}

func (s *vxIso) grpcError(w, g *resolver.GRPCError) {
	s.ok((w == nil) == (g == nil), "error")
	if w == nil {
		return
	}
	s.set(w.DefSet, g.DefSet)
	s.cel(w.If, g.If)
	s.code(w.Code, g.Code)
	s.cel(w.Message, g.Message)
	s.ok(w.Ignore == g.Ignore, "ignore")
	s.cel(w.IgnoreAndResponse, g.IgnoreAndResponse)
	vxAll(s, w.Details, g.Details, "details", func(a, b *resolver.GRPCErrorDetail) {
		s.cel(a.If, b.If)
		s.set(a.DefSet, b.DefSet)
		vxAll(s, a.By, b.By, "details by", s.cel)
		s.set(a.Messages, b.Messages)
		vxAll(s, a.PreconditionFailures, b.PreconditionFailures, "precondition failures", func(a, b *resolver.PreconditionFailure) {
			vxAll(s, a.Violations, b.Violations, "violations", func(a, b *resolver.PreconditionFailureViolation) {
				s.cel(a.Type, b.Type)
				s.cel(a.Subject, b.Subject)
				s.cel(a.Description, b.Description)
			})
		})
		vxAll(s, a.BadRequests, b.BadRequests, "bad requests", func(a, b *resolver.BadRequest) {
			vxAll(s, a.FieldViolations, b.FieldViolations, "field violations", func(a, b *resolver.BadRequestFieldViolation) {
				s.cel(a.Field, b.Field)
				s.cel(a.Description, b.Description)
			})
		})
		vxAll(s, a.LocalizedMessages, b.LocalizedMessages, "localized messages", func(a, b *resolver.LocalizedMessage) {
			s.ok(a.Locale == b.Locale, "locale")
			s.cel(a.Message, b.Message)
		})
	})
}

func (s *vxIso) cel(w, g *resolver.CELValue) {
	s.ok((w == nil) == (g == nil), "expression missing or invented")
	if w != nil {
		s.ok(w.Expr == g.Expr, "expression")
		s.typ(w.Out, g.Out)
	}
}

func (s *vxIso) typ(w, g *resolver.Type) {
	s.ok((w == nil) == (g == nil), "type missing or invented")
	if w == nil {
		return
	}
	s.ok(w.Kind == g.Kind, "kind of a type")
	s.ok(w.Repeated == g.Repeated && w.IsNull == g.IsNull, "flags of a type")
	s.message(w.Message, g.Message)
	s.enum(w.Enum, g.Enum)
	s.ok((w.OneofField == nil) == (g.OneofField == nil), "oneof field of a type")
	if w.OneofField != nil {
		s.field(w.OneofField.Field, g.OneofField.Field)
	}
}
