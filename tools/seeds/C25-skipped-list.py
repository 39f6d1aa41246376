prop = "C25"
needs = "a list definition whose condition is false and an expression that uses its variable"
breaks = "the variable is undeclared instead of empty and the request fails"
F = "grpc/federation/cel.go"
edits = [(F, '''		if !c.(bool) {
			cond = false
		}
	}

	if cond {
		ret, runErr := evalMap(
''', '''		if !c.(bool) {
			return nil
		}
	}

	if cond {
		ret, runErr := evalMap(
''')]
pkg = "zzflow"
protos = ["zzdep/dep.proto", "zzflow/flow.proto"]
test = '''
package zzflow

import (
	"context"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	svc, err := NewFlow(FlowConfig{})
	if err != nil {
		t.Fatal(err)
	}
	for _, b := range []bool{true, false} {
		res, err := svc.GetSteps(context.Background(), &GetStepsRequest{B: b})
		if err != nil {
			t.Fatal(err)
		}
		if want := map[bool]int{true: 2}[b]; len(res.GetL()) != want {
			t.Fatalf("%v", res)
		}
	}
}
'''
