prop = "C21"
needs = "two definitions that nothing depends on whose names differ in the case of their letters only, and an unlucky order of visiting a map"
breaks = "the plan, and so the generated code, of the same definitions differs from run to run"
F = "resolver/graph.go"
edits = [(F, "		return uniqueChildren[i].FQDN() < uniqueChildren[j].FQDN()\n", "		return strings.ToLower(uniqueChildren[i].FQDN()) < strings.ToLower(uniqueChildren[j].FQDN())\n")]
pkg = "resolver"
test = '''
package resolver_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/mercari/grpc-federation/internal/testutil"
	"github.com/mercari/grpc-federation/resolver"
)

const seededProto = `syntax = "proto3";
package org.federation;
import "grpc/federation/federation.proto";
option go_package = "example/federation;federation";
service FederationService {
  option (grpc.federation.service) = {};
  rpc Get(GetRequest) returns (GetResponse) {};
}
message GetRequest { string id = 1; }
message GetResponse {
  option (grpc.federation.message) = {
    def { name: "userid" by: "$.id" }
    def { name: "userId" by: "$.id + 'a'" }
    def { name: "userID" by: "$.id + 'b'" }
  };
  string a = 1 [(grpc.federation.field).by = "userid + userId + userID"];
}
`

func TestSeededDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "x.proto")
	if err := os.WriteFile(f, []byte(seededProto), 0o600); err != nil {
		t.Fatal(err)
	}
	first := ""
	for range 60 {
		res, err := resolver.New(testutil.Compile(t, f)).Resolve()
		if err != nil {
			t.Fatal(err)
		}
		got := ""
		for _, file := range res.Files {
			for _, m := range file.Messages {
				if m.Rule != nil {
					got += resolver.DependencyGraphTreeFormat(m.Rule.DefSet.DefinitionGroups())
				}
			}
		}
		if first == "" {
			first = got
		}
		if got != first {
			t.Fatalf("%s\\n%s", first, got)
		}
	}
}
'''
