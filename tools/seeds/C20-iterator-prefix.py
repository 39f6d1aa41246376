prop = "C20"
needs = "a list definition that refers to another definition whose name is the iterator's name and a suffix starting with an underscore"
breaks = "a list definition is planned alongside a definition that its element expression needs"
F = "resolver/graph.go"
edits = [(F, "			if ref == iterName {\n", '			if ref == iterName || iterName != "" && strings.HasPrefix(ref, iterName+"_") {\n')]
pkg = "resolver"
test = '''
package resolver_test

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/mercari/grpc-federation/internal/testutil"
	"github.com/mercari/grpc-federation/resolver"
)

const seededProto = `syntax = "proto3";
package org.federation;
import "grpc/federation/federation.proto";
option go_package = "example/federation;federation";
service FederationService {
  option (grpc.federation.service) = {};
  rpc Get(GetRequest) returns (GetResponse) {};
}
message GetRequest { repeated string ids = 2; }
message GetResponse {
  option (grpc.federation.message) = {
    def { name: "ids" by: "$.ids" }
    def { name: "id_prefix" by: "'x'" }
    def { name: "y" map { iterator { name: "id" src: "ids" } by: "id_prefix + id" } }
  };
  repeated string a = 1 [(grpc.federation.field).by = "y"];
}
`

func TestSeededDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "x.proto")
	if err := os.WriteFile(f, []byte(seededProto), 0o600); err != nil {
		t.Fatal(err)
	}
	res, err := resolver.New(testutil.Compile(t, f)).Resolve()
	if err != nil {
		t.Fatal(err)
	}
	for _, file := range res.Files {
		for _, m := range file.Messages {
			if m.Name != "GetResponse" {
				continue
			}
			for _, g := range m.Rule.DefSet.DefinitionGroups() {
				defs := g.VariableDefinitions()
				var names []string
				for _, d := range defs {
					names = append(names, d.Name)
				}
				if s := strings.Join(names, " "); strings.Contains(s, "y") && !strings.Contains(s, "id_prefix") {
					t.Fatal(s)
				}
			}
		}
	}
}
'''
