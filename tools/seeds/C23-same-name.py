prop = "C23"
needs = "a message that needs a message of the same name in another package"
breaks = "messages that do not need each other are refused as a cycle because one has the name of the other"
F = "resolver/graph.go"
D = "	if _, exists := visited[target]; exists {\n		var messages []string\n		for _, node := range path {\n			messages = append(messages, node.Message.Name)\n"
edits = [
 (F, "func validateAllMessageGraphNodeCyclicDependency(target *AllMessageDependencyGraphNode, visited map[*AllMessageDependencyGraphNode]struct{}, path", "func validateAllMessageGraphNodeCyclicDependency(target *AllMessageDependencyGraphNode, visited map[string]struct{}, path"),
 (F, "validateAllMessageGraphNodeCyclicDependency(node, make(map[*AllMessageDependencyGraphNode]struct{}), ", "validateAllMessageGraphNodeCyclicDependency(node, make(map[string]struct{}), "),
 (F, D, D.replace("visited[target]", "visited[target.Message.Name]")),
 (F, "	visited[target] = struct{}{}\n	for _, child := range target.Children {\n		if err := validateAllMessageGraphNodeCyclicDependency(child, visited, path); err != nil {\n			return err\n		}\n	}\n	delete(visited, target)\n",
     "	visited[target.Message.Name] = struct{}{}\n	for _, child := range target.Children {\n		if err := validateAllMessageGraphNodeCyclicDependency(child, visited, path); err != nil {\n			return err\n		}\n	}\n	delete(visited, target.Message.Name)\n"),
]
pkg = "resolver"
test = '''
package resolver_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/mercari/grpc-federation/internal/testutil"
	"github.com/mercari/grpc-federation/resolver"
)

const seededProto = `syntax = "proto3";
package org.federation;
import "grpc/federation/federation.proto";
option go_package = "example/federation;federation";
service FederationService {
  option (grpc.federation.service) = {};
  rpc Get(GetRequest) returns (GetResponse) {};
}
message GetRequest { string id = 1; }
message GetResponse {
  option (grpc.federation.message) = {
    def { name: "i" message { name: "Outer" } }
  };
  Outer a = 1 [(grpc.federation.field).by = "i"];
}
message Outer {
  option (grpc.federation.message) = {
    def { name: "i" message { name: "Other.Outer" } }
  };
  Other.Outer a = 1 [(grpc.federation.field).by = "i"];
}
message Other {
  message Outer {
    option (grpc.federation.message) = {};
    string a = 1 [(grpc.federation.field).by = "'x'"];
  }
}
`

func TestSeededDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "x.proto")
	if err := os.WriteFile(f, []byte(seededProto), 0o600); err != nil {
		t.Fatal(err)
	}
	if _, err := resolver.New(testutil.Compile(t, f)).Resolve(); err != nil {
		t.Fatal(err)
	}
}
'''
