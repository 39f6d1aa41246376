prop = "C19"
needs = "two messages nested in different messages of one package that have the same name and a oneof of the same name"
breaks = "the plugin sees the oneofs of two nested messages of equal name as one oneof"
F = "grpc/federation/generator/encode.go"
edits = [(F, '	return fmt.Sprintf("%s.%s", oneof.Message.FQDN(), oneof.Name)\n', '	return fmt.Sprintf("%s.%s.%s", oneof.Message.PackageName(), oneof.Message.Name, oneof.Name)\n')]
pkg = "grpc/federation/generator"
test = '''
package generator_test

import (
	"bytes"
	"testing"

	"google.golang.org/protobuf/proto"

	"github.com/mercari/grpc-federation/grpc/federation/generator"
	"github.com/mercari/grpc-federation/resolver"
	"github.com/mercari/grpc-federation/types"
)

func TestSeededDemo(t *testing.T) {
	file := &resolver.File{Name: "f.proto", Package: &resolver.Package{Name: "p"}, GoPackage: &resolver.GoPackage{Name: "p", ImportPath: "x/p"}}
	for _, name := range []string{"A", "B"} {
		parent := &resolver.Message{Name: name, File: file}
		nested := &resolver.Message{Name: "N", File: file, ParentMessage: parent}
		parent.NestedMessages = []*resolver.Message{nested}
		f := &resolver.Field{Name: "f" + name, Message: nested, Type: &resolver.Type{Kind: types.String}}
		f.Oneof = &resolver.Oneof{Name: "o", Message: nested, Fields: []*resolver.Field{f}}
		nested.Fields = []*resolver.Field{f}
		nested.Oneofs = []*resolver.Oneof{f.Oneof}
		file.Messages = append(file.Messages, parent)
	}
	b, err := proto.Marshal(generator.CreateCodeGeneratorRequest(&generator.CodeGeneratorRequestConfig{GRPCFederationFiles: []*resolver.File{file}}))
	if err != nil {
		t.Fatal(err)
	}
	req, err := generator.ToCodeGeneratorRequest(bytes.NewBuffer(b))
	if err != nil {
		t.Fatal(err)
	}
	for i, m := range req.GRPCFederationFiles[0].Messages {
		nested := m.NestedMessages[0]
		if got, want := nested.Oneofs[0].Fields[0].Name, file.Messages[i].NestedMessages[0].Fields[0].Name; got != want || nested.Oneofs[0].Message != nested {
			t.Fatal(m.Name, got, want)
		}
	}
}
'''
