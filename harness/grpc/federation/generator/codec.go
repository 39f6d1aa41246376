package generator

import (
	"bytes"
	"time"

	"google.golang.org/genproto/googleapis/rpc/code"
	"google.golang.org/protobuf/proto"

	"github.com/mercari/grpc-federation/grpc/federation/generator/plugin"
	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/types"
	"github.com/mercari/grpc-federation/vx"
)

// vxSend sends the files to a plugin and compares what it receives.
func vxSend(files ...*resolver.File) {
	req := CreateCodeGeneratorRequest(&CodeGeneratorRequestConfig{GRPCFederationFiles: files})
	got := vxReceive(req)
	s := newVxIso()
	s.run(func() { vxAll(s, files, got.GRPCFederationFiles, "files", s.file) })
	vx.Reach("received")
}

func vxReceive(req *plugin.CodeGeneratorRequest) *CodeGeneratorRequest {
	var got *CodeGeneratorRequest
	var err error
	if vx.Symbolic() {
		got, err = newDecoder(req.GetReference()).toCodeGeneratorRequest(req)
	} else {
		// through the wire
		var b []byte
		if b, err = proto.Marshal(req); err == nil {
			got, err = ToCodeGeneratorRequest(bytes.NewBuffer(b))
		}
	}
	vx.Assert(err == nil, "the plugin cannot read the request")
	return got
}

type vxWorld struct {
	file, other *resolver.File
	a, b        *resolver.Message
	enum        *resolver.Enum
	svc         *resolver.Service
	mtd         *resolver.Method
}

// vxNewWorld is a file that imports another, each with a message, the first
// also with an enum and a service with a method.
func vxNewWorld() *vxWorld {
	w := &vxWorld{}
	w.other = &resolver.File{Name: "o.proto", Package: &resolver.Package{Name: "o"}, GoPackage: &resolver.GoPackage{Name: "o", ImportPath: "x/o", AliasName: "oo"}}
	w.file = &resolver.File{Name: "f.proto", Package: &resolver.Package{Name: "p"}, GoPackage: &resolver.GoPackage{Name: "p", ImportPath: "x/p"}, ImportFiles: []*resolver.File{w.other}}
	w.file.Package.Files = resolver.Files{w.file}
	w.other.Package.Files = resolver.Files{w.other}
	w.a = &resolver.Message{Name: "A", File: w.file, Rule: &resolver.MessageRule{DefSet: &resolver.VariableDefinitionSet{}}}
	w.b = &resolver.Message{Name: "A", File: w.other, Rule: &resolver.MessageRule{DefSet: &resolver.VariableDefinitionSet{}}}
	w.file.Messages = []*resolver.Message{w.a}
	w.other.Messages = []*resolver.Message{w.b}
	w.enum = &resolver.Enum{Name: "E", File: w.file}
	w.enum.Values = []*resolver.EnumValue{{Value: "V", Enum: w.enum}}
	w.file.Enums = []*resolver.Enum{w.enum}
	w.svc = &resolver.Service{Name: "S", File: w.file}
	w.mtd = &resolver.Method{Name: "M", Service: w.svc, Request: w.a, Response: w.b}
	w.svc.Methods = []*resolver.Method{w.mtd}
	w.file.Services = []*resolver.Service{w.svc}
	return w
}

func vxField(m *resolver.Message, name string, t *resolver.Type) *resolver.Field {
	f := &resolver.Field{Name: name, Type: t, Message: m}
	m.Fields = append(m.Fields, f)
	return f
}

func vxExpr(name string) *resolver.CELValue {
	return &resolver.CELValue{Expr: vxText(name, 1), Out: &resolver.Type{Kind: types.String}}
}

// maybe an expression.
func vxOpt(name string) *resolver.CELValue {
	if !vx.Bool("has " + name) {
		return nil
	}
	return vxExpr(name)
}

func vxDef(name, expr string) *resolver.VariableDefinition {
	return &resolver.VariableDefinition{Name: name, Expr: &resolver.VariableExpr{By: &resolver.CELValue{Expr: expr}}}
}

// vxSetOf is the set of the definitions with the graph and the groups for the
// dependencies.
func vxSetOf(base *resolver.Message, needs [][]bool, defs ...*resolver.VariableDefinition) *resolver.VariableDefinitionSet {
	set := &resolver.VariableDefinitionSet{Defs: defs, Graph: &resolver.MessageDependencyGraph{}}
	var nodes []*resolver.MessageDependencyGraphNode
	used := make([]bool, len(defs))
	for i, d := range defs {
		n := &resolver.MessageDependencyGraphNode{BaseMessage: base, VariableDefinition: d}
		root := true
		for j := 0; j < i; j++ {
			if needs != nil && needs[i][j] {
				n.Parent = append(n.Parent, nodes[j])
				nodes[j].Children = append(nodes[j].Children, n)
				used[j], root = true, false
			}
		}
		if root {
			set.Graph.Roots = append(set.Graph.Roots, n)
		}
		nodes = append(nodes, n)
	}
	var group func(i int) resolver.VariableDefinitionGroup
	group = func(i int) resolver.VariableDefinitionGroup {
		var starts []resolver.VariableDefinitionGroup
		for j := 0; j < i; j++ {
			if needs != nil && needs[i][j] {
				starts = append(starts, group(j))
			}
		}
		if len(starts) > 1 {
			return &resolver.ConcurrentVariableDefinitionGroup{Starts: starts, End: defs[i]}
		}
		g := &resolver.SequentialVariableDefinitionGroup{End: defs[i]}
		if len(starts) == 1 {
			g.Start = starts[0]
		}
		return g
	}
	for i := range defs {
		if !used[i] {
			set.Groups = append(set.Groups, group(i))
		}
	}
	return set
}

// Definitions of different messages, errors and oneofs may have equal names.
func VX_C19_Names() {
	vx.MustReach("received")
	w := vxNewWorld()
	name := func(n string) string { return vxName(n) }
	w.a.Rule.DefSet = vxSetOf(w.a, nil, vxDef(name("a"), "1"))
	second := vxDef(name("b"), "2")
	switch vx.Choose("where", 5) {
	case 0:
		w.b.Rule.DefSet = vxSetOf(w.b, nil, second)
	case 1:
		w.a.Rule.DefSet = vxSetOf(w.a, nil, w.a.Rule.DefSet.Defs[0],
			&resolver.VariableDefinition{Name: "v", Expr: &resolver.VariableExpr{Validation: &resolver.ValidationExpr{Error: &resolver.GRPCError{DefSet: vxSetOf(w.a, nil, second)}}}})
	case 2:
		w.a.Rule.DefSet = vxSetOf(w.a, nil, w.a.Rule.DefSet.Defs[0],
			&resolver.VariableDefinition{Name: "v", Expr: &resolver.VariableExpr{Call: &resolver.CallExpr{Method: w.mtd, Errors: []*resolver.GRPCError{{Details: resolver.GRPCErrorDetails{{Messages: vxSetOf(w.a, nil, second), DefSet: vxSetOf(w.a, nil, vxDef(name("c"), "3"))}}}}}}})
	case 3:
		f := vxField(w.b, "x", &resolver.Type{Kind: types.Int64})
		f.Rule = &resolver.FieldRule{Oneof: &resolver.FieldOneofRule{DefSet: vxSetOf(w.a, nil, second)}}
	case 4:
		// a message of the same package, with a definition of its own
		m := &resolver.Message{Name: "AA", File: w.file, Rule: &resolver.MessageRule{}}
		m.Rule.DefSet = vxSetOf(m, nil, second)
		w.file.Messages = append(w.file.Messages, m)
	}
	vxSend(w.file)
}

// Every graph of dependencies, twice.
func VX_C19_Graphs() {
	vx.MustReach("received")
	w := vxNewWorld()
	n := 3
	if vx.Thorough() {
		n = 4
	}
	needs := make([][]bool, n)
	var defs, again []*resolver.VariableDefinition
	for i := range needs {
		needs[i] = make([]bool, n)
		for j := 0; j < i; j++ {
			needs[i][j] = vx.Bool("needs")
		}
		d := vxDef([]string{"d", "b", "c", "a"}[i], "x")
		d.Idx = i
		defs = append(defs, d)
		again = append(again, vxDef(d.Name, "y"))
	}
	w.a.Rule.DefSet = vxSetOf(w.a, needs, defs...)
	w.b.Rule.DefSet = vxSetOf(w.b, needs, again...)
	vxSend(w.file)
}

// Arguments of different messages may have equal names and other types.
func VX_C19_Arguments() {
	vx.MustReach("received")
	w := vxNewWorld()
	kinds := []types.Kind{types.String, types.Int64}
	for i, m := range []*resolver.Message{w.a, w.b} {
		arg := &resolver.Message{Name: m.Name + "Argument", File: &resolver.File{Name: m.File.Name, Package: &resolver.Package{Name: m.File.Package.Name + ".private"}, GoPackage: m.File.GoPackage}}
		for k := vx.Choose("fields", 3); k > 0; k-- {
			arg.Fields = append(arg.Fields, &resolver.Field{Name: vxName("field"), Type: &resolver.Type{Kind: kinds[i]}})
		}
		m.Rule.MessageArgument = arg
	}
	w.svc.MessageArgs = []*resolver.Message{w.a.Rule.MessageArgument}
	w.svc.Messages = []*resolver.Message{w.a}
	vxSend(w.file)
}

var vxKinds = []types.Kind{types.Unknown, types.Double, types.Float, types.Int64, types.Uint64, types.Int32, types.Fixed64, types.Fixed32, types.Bool, types.String, types.Group, types.Message, types.Bytes, types.Uint32, types.Enum, types.Sfixed32, types.Sfixed64, types.Sint32, types.Sint64}

func VX_C19_Types() {
	vx.MustReach("received")
	w := vxNewWorld()
	t := &resolver.Type{Kind: vxKinds[vx.Choose("kind", len(vxKinds))], Repeated: vx.Bool("repeated"), IsNull: vx.Bool("null")}
	switch t.Kind {
	case types.Message:
		t.Message = []*resolver.Message{w.a, w.b}[vx.Choose("message", 2)]
	case types.Enum:
		t.Enum = w.enum
	}
	at := vx.Choose("at", 5)
	f := vxField(w.b, "x", t)
	if vx.Bool("oneof") {
		f.Oneof = &resolver.Oneof{Name: "o", Message: w.b, Fields: []*resolver.Field{f}}
		w.b.Oneofs = []*resolver.Oneof{f.Oneof}
		t.OneofField = &resolver.OneofField{Field: f}
	}
	switch at {
	case 1:
		w.a.Rule.DefSet = vxSetOf(w.a, nil, &resolver.VariableDefinition{Name: "d", Expr: &resolver.VariableExpr{Type: t, By: &resolver.CELValue{Expr: "1", Out: t.Clone()}}})
	case 2:
		w.a.Rule.DefSet = vxSetOf(w.a, nil, &resolver.VariableDefinition{Name: "d", Expr: &resolver.VariableExpr{Message: &resolver.MessageExpr{Message: w.b, Args: []*resolver.Argument{{Name: "k", Type: t, Value: &resolver.Value{CEL: &resolver.CELValue{Out: t}}}}}}})
	case 3:
		w.svc.Rule = &resolver.ServiceRule{Env: &resolver.Env{Vars: []*resolver.EnvVar{{Name: "E", Type: t}}}}
	case 4:
		p := &resolver.CELPlugin{Name: "g", Functions: []*resolver.CELFunction{{Name: "f", ID: "i", Receiver: w.a, Args: []*resolver.Type{{Kind: types.Message, Message: w.a}, t}, Return: t}}}
		w.file.CELPlugins = []*resolver.CELPlugin{p}
		w.svc.CELPlugins = []*resolver.CELPlugin{p}
	}
	vxSend(w.file)
}

func vxArgs(w *vxWorld, name string) []*resolver.Argument {
	var args []*resolver.Argument
	for k := vx.Choose(name, 3); k > 0; k-- {
		a := &resolver.Argument{Name: vxName("arg"), Type: &resolver.Type{Kind: types.Int32}, Value: &resolver.Value{Inline: vx.Bool("inline"), CEL: vxExpr("value")}}
		if k == 1 {
			a.If = vxOpt("if")
		}
		args = append(args, a)
	}
	return args
}

// Every kind of definition.
func VX_C19_Definitions() {
	vx.MustReach("received")
	w := vxNewWorld()
	src := vxDef("s", "[1]")
	d := &resolver.VariableDefinition{Name: "d", Idx: vx.Int("idx"), AutoBind: vx.Bool("autobind"), Used: vx.Bool("used"), If: vxOpt("if"), Expr: &resolver.VariableExpr{Type: &resolver.Type{Kind: types.Bool}}}
	e := d.Expr
	iter := &resolver.Iterator{Name: vxText("iter", 1), Source: src}
	switch vx.Choose("kind", 9) {
	case 0:
		e.By = vxExpr("by")
	case 1:
		e.Message = &resolver.MessageExpr{Message: w.b, Args: vxArgs(w, "args")}
	case 2:
		e.Enum = &resolver.EnumExpr{Enum: w.enum, By: vxExpr("by")}
	case 3:
		e.Map = &resolver.MapExpr{Iterator: iter, Expr: &resolver.MapIteratorExpr{Type: &resolver.Type{Kind: types.Int32}, By: vxExpr("by")}}
	case 4:
		e.Map = &resolver.MapExpr{Iterator: iter, Expr: &resolver.MapIteratorExpr{Message: &resolver.MessageExpr{Message: w.b, Args: vxArgs(w, "args")}}}
	case 5:
		e.Map = &resolver.MapExpr{Iterator: iter, Expr: &resolver.MapIteratorExpr{Enum: &resolver.EnumExpr{Enum: w.enum, By: vxExpr("by")}}}
	case 6:
		e.Validation = &resolver.ValidationExpr{Name: vxText("validation", 1), Error: &resolver.GRPCError{If: vxOpt("error if")}}
	case 7:
		e.Call = vxCall(w)
	case 8:
		d.Expr = nil
	}
	w.a.Rule.DefSet = vxSetOf(w.a, [][]bool{{}, {true}}, src, d)
	vxSend(w.file)
}

func vxCall(w *vxWorld) *resolver.CallExpr {
	vxDurs = append([]time.Duration(nil), vxSpans...)
	c := &resolver.CallExpr{Method: w.mtd}
	if vx.Bool("request") {
		c.Request = &resolver.Request{Args: vxArgs(w, "args"), Type: w.a}
	}
	if vx.Bool("timeout") {
		t := vxDur()
		c.Timeout = &t
	}
	if vx.Bool("retry") {
		c.Retry = &resolver.RetryPolicy{If: vxExpr("retry if")}
		switch vx.Choose("policy", 3) {
		case 0:
			c.Retry.Constant = &resolver.RetryPolicyConstant{Interval: vxDur(), MaxRetries: vx.Uint64("max")}
		case 1:
			c.Retry.Exponential = &resolver.RetryPolicyExponential{
				InitialInterval: vxDur(), MaxInterval: vxDur(), MaxElapsedTime: vxDur(),
				RandomizationFactor: 0.25, Multiplier: 1.75, MaxRetries: vx.Uint64("max"),
			}
		}
	}
	return c
}

// Every part of an error.
func VX_C19_Errors() {
	vx.MustReach("received")
	w := vxNewWorld()
	e := &resolver.GRPCError{Ignore: vx.Bool("ignore"), IgnoreAndResponse: vxOpt("response")}
	d := &resolver.GRPCErrorDetail{}
	switch vx.Choose("part", 8) {
	case 0:
		e.If, e.Message = vxOpt("if"), vxOpt("message")
		if vx.Bool("code") {
			c := code.Code(vx.Int32("code"))
			e.Code = &c
		}
	case 1:
		e.DefSet = vxSetOf(w.a, [][]bool{{}, {vx.Bool("needs")}}, vxDef("x", "1"), vxDef("y", "2"))
	case 2:
		d.If, d.By = vxOpt("detail if"), []*resolver.CELValue{vxExpr("by"), vxExpr("by")}
	case 3:
		d.DefSet = vxSetOf(w.a, nil, vxDef("x", "1"))
	case 4:
		d.Messages = vxSetOf(w.a, nil, &resolver.VariableDefinition{Name: "m", Expr: &resolver.VariableExpr{Message: &resolver.MessageExpr{Message: w.b}}})
	case 5:
		v := &resolver.PreconditionFailureViolation{Type: vxOpt("type"), Subject: vxOpt("subject"), Description: vxOpt("description")}
		d.PreconditionFailures = []*resolver.PreconditionFailure{{Violations: []*resolver.PreconditionFailureViolation{v, {Type: vxExpr("type")}}}, {}}
	case 6:
		v := &resolver.BadRequestFieldViolation{Field: vxOpt("field"), Description: vxOpt("description")}
		d.BadRequests = []*resolver.BadRequest{{}, {FieldViolations: []*resolver.BadRequestFieldViolation{{Field: vxExpr("field")}, v}}}
	case 7:
		d.LocalizedMessages = []*resolver.LocalizedMessage{{Locale: vxText("locale", 2), Message: vxOpt("message")}, {Locale: "x"}}
	}
	e.Details = resolver.GRPCErrorDetails{d, {If: vxExpr("second")}}
	x := &resolver.VariableExpr{}
	if vx.Bool("call") {
		x.Call = &resolver.CallExpr{Method: w.mtd, Errors: []*resolver.GRPCError{{If: vxExpr("first")}, e}}
	} else {
		x.Validation = &resolver.ValidationExpr{Error: e}
	}
	w.a.Rule.DefSet = vxSetOf(w.a, nil, &resolver.VariableDefinition{Name: "d", Expr: x})
	vxSend(w.file)
}

// Services, methods, environment and variables.
func VX_C19_Services() {
	vx.MustReach("received")
	w := vxNewWorld()
	switch vx.Choose("part", 4) {
	case 0:
		if vx.Bool("method rule") {
			w.mtd.Rule = &resolver.MethodRule{}
			if vx.Bool("timeout") {
				t := vxDur()
				w.mtd.Rule.Timeout = &t
			}
			if vx.Bool("response") {
				w.mtd.Rule.Response = w.b
			}
		}
		second := &resolver.Service{Name: "S2", File: w.file}
		second.Methods = []*resolver.Method{{Name: "M", Service: second, Request: w.b, Response: w.a}}
		w.file.Services = append(w.file.Services, second)
	case 1:
		w.svc.Rule = &resolver.ServiceRule{}
		if vx.Bool("env") {
			w.svc.Rule.Env = &resolver.Env{}
			for k := vx.Choose("vars", 3); k > 0; k-- {
				v := &resolver.EnvVar{Name: vxText("var", 1), Type: &resolver.Type{Kind: types.Uint32}}
				if vx.Bool("option") {
					v.Option = &resolver.EnvVarOption{Alternate: vxText("alternate", 1), Default: vxText("default", 1), Required: vx.Bool("required"), Ignored: vx.Bool("ignored")}
				}
				w.svc.Rule.Env.Vars = append(w.svc.Rule.Env.Vars, v)
			}
		}
	case 2:
		x := &resolver.ServiceVariableExpr{Type: &resolver.Type{Kind: types.Bool}}
		switch vx.Choose("kind", 5) {
		case 0:
			x.By = vxExpr("by")
		case 1:
			x.Map = &resolver.MapExpr{Iterator: &resolver.Iterator{Name: vxText("iter", 1)}, Expr: &resolver.MapIteratorExpr{By: vxExpr("by")}}
			if vx.Bool("source") {
				x.Map.Iterator.Source = vxDef("list", "[1]")
			}
		case 2:
			x.Message = &resolver.MessageExpr{Message: w.b, Args: vxArgs(w, "args")}
		case 3:
			x.Enum = &resolver.EnumExpr{Enum: w.enum, By: vxExpr("by")}
		case 4:
			x.Validation = &resolver.ServiceVariableValidationExpr{If: vxOpt("v if"), Message: vxOpt("message")}
		}
		w.svc.Rule = &resolver.ServiceRule{Vars: []*resolver.ServiceVariable{{Name: vxText("name", 1), If: vxOpt("if"), Expr: x}, {Name: "second"}}}
	case 3:
		p := &resolver.CELPlugin{Name: vxName("plugin"), Desc: vxText("desc", 1), Functions: []*resolver.CELFunction{{Name: vxText("function", 1), ID: "i"}, {Name: "g", ID: "j", Return: &resolver.Type{Kind: types.Bool}}}}
		q := &resolver.CELPlugin{Name: vxName("plugin")}
		w.file.CELPlugins, w.other.CELPlugins = []*resolver.CELPlugin{p}, []*resolver.CELPlugin{q}
		w.svc.CELPlugins = []*resolver.CELPlugin{q, p}
	}
	vxSend(w.file)
}

// Enums and their aliases, also in files that are not imported.
func VX_C19_Enums() {
	vx.MustReach("received")
	w := vxNewWorld()
	far := &resolver.File{Name: "far.proto", Package: &resolver.Package{Name: "far"}, GoPackage: &resolver.GoPackage{Name: "far"}}
	alias := &resolver.Enum{Name: "E", File: far}
	if vx.Bool("nested") {
		m := &resolver.Message{Name: "N", File: far, Enums: []*resolver.Enum{alias}}
		alias.Message = m
		far.Messages = []*resolver.Message{m}
	} else {
		far.Enums = []*resolver.Enum{alias}
	}
	alias.Values = []*resolver.EnumValue{{Value: "V", Enum: alias}, {Value: "W", Enum: alias}}
	if vx.Bool("imported") {
		w.file.ImportFiles = append(w.file.ImportFiles, far)
	}
	if vx.Bool("rule") {
		w.enum.Rule = &resolver.EnumRule{Aliases: []*resolver.Enum{alias}}
	}
	v := w.enum.Values[0]
	if vx.Bool("value rule") {
		v.Rule = &resolver.EnumValueRule{Default: vx.Bool("default")}
		for k := vx.Choose("aliases", 3); k > 0; k-- {
			v.Rule.Aliases = append(v.Rule.Aliases, &resolver.EnumValueAlias{EnumAlias: alias, Aliases: alias.Values[2-k:]})
		}
		for k := vx.Choose("attributes", 3); k > 0; k-- {
			v.Rule.Attrs = append(v.Rule.Attrs, &resolver.EnumValueAttribute{Name: vxText("attr", 1), Value: vxText("value", 1)})
		}
	}
	vxSend(w.file)
}

// Everything that can have the same name as another has: in two packages, in two
// files of a package, in two messages, services or plugins.
func VX_C19_SameNames() {
	vx.MustReach("received")
	files := []*resolver.File{
		{Name: "f.proto", Package: &resolver.Package{Name: "p"}, GoPackage: &resolver.GoPackage{Name: "p", ImportPath: "x/p"}},
		{Name: "f.proto", Package: &resolver.Package{Name: "q"}, GoPackage: &resolver.GoPackage{Name: "p", ImportPath: "x/q"}},
		{Name: "g.proto", Package: &resolver.Package{Name: "p"}, GoPackage: &resolver.GoPackage{Name: "p", ImportPath: "x/p"}},
	}
	files[0].Package.Files = resolver.Files{files[0], files[2]}
	files[2].Package = files[0].Package
	files[1].Package.Files = resolver.Files{files[1]}
	mark := 0
	kind := func() *resolver.Type { mark++; return &resolver.Type{Kind: vxKinds[1+mark%9]} }
	var fill func(f *resolver.File, m *resolver.Message, depth int)
	enum := func(f *resolver.File, m *resolver.Message) *resolver.Enum {
		e := &resolver.Enum{Name: "E", File: f, Message: m}
		for _, n := range []string{"V", "W"} {
			e.Values = append(e.Values, &resolver.EnumValue{Value: n, Enum: e, Rule: &resolver.EnumValueRule{Attrs: []*resolver.EnumValueAttribute{{Name: n, Value: string(rune('a' + mark%26))}}}})
		}
		mark++
		return e
	}
	fill = func(f *resolver.File, m *resolver.Message, depth int) {
		vxField(m, "x", kind())
		o := vxField(m, "y", kind())
		o.Oneof = &resolver.Oneof{Name: "o", Message: m, Fields: []*resolver.Field{o}}
		o.Type.OneofField = &resolver.OneofField{Field: o}
		m.Oneofs = []*resolver.Oneof{o.Oneof}
		m.Enums = []*resolver.Enum{enum(f, m)}
		m.Rule = &resolver.MessageRule{DefSet: vxSetOf(m, nil, vxDef("d", string(rune('a'+mark%26))))}
		if depth > 0 {
			n := &resolver.Message{Name: "N", File: f, ParentMessage: m}
			fill(f, n, depth-1)
			m.NestedMessages = []*resolver.Message{n}
		}
	}
	for i, f := range files {
		names := []string{"N", "M"}
		services := []string{"S", "T"}
		if i == 2 {
			names, services = []string{"O"}, []string{"U"}
		}
		for _, n := range names {
			m := &resolver.Message{Name: n, File: f}
			fill(f, m, 2)
			f.Messages = append(f.Messages, m)
		}
		if i < 2 {
			f.Enums = []*resolver.Enum{enum(f, nil)}
		}
		p := &resolver.CELPlugin{Name: "g", Functions: []*resolver.CELFunction{{Name: "f", ID: "i", Args: []*resolver.Type{kind()}, Return: kind()}, {Name: "f", ID: "j", Args: []*resolver.Type{kind()}, Return: kind()}}}
		f.CELPlugins = []*resolver.CELPlugin{p}
		for _, n := range services {
			svc := &resolver.Service{Name: n, File: f, CELPlugins: f.CELPlugins, Rule: &resolver.ServiceRule{Env: &resolver.Env{Vars: []*resolver.EnvVar{{Name: "E", Type: kind()}}}}}
			svc.Methods = []*resolver.Method{{Name: "m", Service: svc, Request: f.Messages[0], Response: f.Messages[len(f.Messages)-1]}}
			f.Services = append(f.Services, svc)
		}
	}
	files[vx.Choose("importer", 3)].ImportFiles = []*resolver.File{files[vx.Choose("imported", 3)]}
	vxSend(files...)
}

// Messages with nested ones, oneofs and the rules of their fields.
func VX_C19_Messages() {
	vx.MustReach("received")
	w := vxNewWorld()
	n := &resolver.Message{Name: "A", File: w.file, ParentMessage: w.a, IsMapEntry: vx.Bool("map entry")}
	w.a.NestedMessages = []*resolver.Message{n}
	x := vxField(w.a, "x", &resolver.Type{Kind: types.Message, Message: n})
	y := vxField(n, "x", &resolver.Type{Kind: types.Int64})
	z := vxField(w.b, "x", &resolver.Type{Kind: types.Int64})
	if vx.Bool("oneof") {
		z.Oneof = &resolver.Oneof{Name: "o", Message: w.b, Fields: []*resolver.Field{z}}
		w.b.Oneofs = []*resolver.Oneof{z.Oneof}
		z.Type.OneofField = &resolver.OneofField{Field: z}
	}
	if vx.Bool("nested oneof") {
		// of the same name as a oneof of a nested message of another message
		c := &resolver.Message{Name: "C", File: w.file}
		k := &resolver.Message{Name: "A", File: w.file, ParentMessage: c}
		c.NestedMessages = []*resolver.Message{k}
		w.file.Messages = append(w.file.Messages, c)
		for _, m := range []*resolver.Message{n, k} {
			f := vxField(m, "u", &resolver.Type{Kind: types.String})
			f.Oneof = &resolver.Oneof{Name: "o", Message: m, Fields: []*resolver.Field{f}}
			m.Oneofs = []*resolver.Oneof{f.Oneof}
			f.Type.OneofField = &resolver.OneofField{Field: f}
		}
	}
	d := vxDef("d", "1")
	switch vx.Choose("rule", 5) {
	case 0:
	case 1:
		n.Rule = &resolver.MessageRule{CustomResolver: vx.Bool("custom"), Aliases: []*resolver.Message{w.b, w.a}[vx.Choose("aliases", 3):]}
	case 2:
		x.Rule = &resolver.FieldRule{CustomResolver: vx.Bool("custom"), MessageCustomResolver: vx.Bool("message custom")}
		if vx.Bool("value") {
			x.Rule.Value = &resolver.Value{Inline: vx.Bool("inline"), CEL: vxExpr("value")}
		}
		x.Rule.Aliases = []*resolver.Field{y, z}[vx.Choose("aliases", 3):]
	case 3:
		w.a.Rule.DefSet = vxSetOf(w.a, nil, d)
		x.Rule = &resolver.FieldRule{AutoBindField: &resolver.AutoBindField{VariableDefinition: d, Field: z}}
	case 4:
		y.Rule = &resolver.FieldRule{Oneof: &resolver.FieldOneofRule{If: vxOpt("if"), By: vxOpt("by"), Default: vx.Bool("default")}}
		if vx.Bool("definitions") {
			y.Rule.Oneof.DefSet = vxSetOf(w.a, nil, d)
		}
	}
	vxSend(w.file, w.other)
}

// The rest of the request.
func VX_C19_Request() {
	vx.MustReach("done")
	name, content := vxText("name", 2), vxText("content", 2)
	cfg := &CodeGeneratorRequestConfig{
		Type:      []ActionType{KeepAction, CreateAction, DeleteAction, UpdateAction}[vx.Choose("type", 4)],
		ProtoPath: vxText("path", 2), OutDir: vxText("out", 2),
		Files: []*plugin.ProtoCodeGeneratorResponse_File{{Name: &name, Content: &content}},
	}
	req := CreateCodeGeneratorRequest(cfg)
	got := vxReceive(req)
	vx.Assert(got.ProtoPath == cfg.ProtoPath && got.OutDir == cfg.OutDir, "another directory")
	vx.Assert(len(got.Files) == 1 && got.Files[0].GetName() == name && got.Files[0].GetContent() == content, "other generated files")
	want := map[ActionType]plugin.ActionType{KeepAction: plugin.ActionType_KEEP_ACTION, CreateAction: plugin.ActionType_CREATE_ACTION, DeleteAction: plugin.ActionType_DELETE_ACTION, UpdateAction: plugin.ActionType_UPDATE_ACTION}
	vx.Assert(req.GetType() == want[cfg.Type], "another action")
	vx.Reach("done")
}

// vxDurs are the time spans to use, in turn.
var vxDurs []time.Duration

func vxDur() time.Duration {
	if len(vxDurs) == 0 {
		vxDurs = append([]time.Duration(nil), vxSpans...)
	}
	d := vxDurs[0]
	vxDurs = vxDurs[1:]
	return d
}

var vxSpans = []time.Duration{3 * time.Second, 250 * time.Millisecond, 1, 90 * time.Minute}

// Time spans, around zero, around a number of seconds and at either end.
func VX_C19_Durations() {
	vx.MustReach("received")
	w := vxNewWorld()
	d := time.Duration(vx.Int16("span")) + []time.Duration{0, 2 * time.Second, 1<<63 - 1 - 40000, -1<<63 + 40000}[vx.Choose("around", 4)]
	vxDurs = append([]time.Duration(nil), vxSpans...)
	c := &resolver.CallExpr{Method: w.mtd, Retry: &resolver.RetryPolicy{If: vxExpr("retry if")}}
	switch vx.Choose("part", 5) {
	case 0:
		c.Timeout = &d
	case 1:
		c.Retry.Constant = &resolver.RetryPolicyConstant{Interval: d}
	case 2:
		c.Retry.Exponential = &resolver.RetryPolicyExponential{InitialInterval: d, MaxInterval: vxDur(), MaxElapsedTime: vxDur()}
	case 3:
		c.Retry.Exponential = &resolver.RetryPolicyExponential{InitialInterval: vxDur(), MaxInterval: d, MaxElapsedTime: vxDur()}
	case 4:
		c.Retry.Exponential = &resolver.RetryPolicyExponential{InitialInterval: vxDur(), MaxInterval: vxDur(), MaxElapsedTime: d}
	}
	w.a.Rule.DefSet = vxSetOf(w.a, nil, &resolver.VariableDefinition{Name: "d", Expr: &resolver.VariableExpr{Call: c}})
	vxSend(w.file)
}

// vxName is a name, which is never empty.
func vxName(name string) string { return vxASCII(vx.StringN(name, 1)) }

func vxText(name string, max int) string { return vxASCII(vx.String(name, max)) }

// vxASCII drops what text on the wire cannot hold.
func vxASCII(s string) string {
	for i := 0; i < len(s); i++ {
		vx.Assume(s[i] < 0x80)
	}
	return s
}
