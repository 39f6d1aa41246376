prop = "C26"
needs = "a number outside the 32-bit range given to from"
breaks = "from cuts the number to 32 bits, so that it becomes a value of the enum"
F = "grpc/federation/cel.go"
edits = [(F, '''				cel.UnaryBinding(func(self ref.Val) ref.Val {
					return self
				}),
''', '''				cel.UnaryBinding(func(self ref.Val) ref.Val {
					return celtypes.Int(int32(self.(celtypes.Int))) //nolint:gosec
				}),
''')]
pkg = "zzflow"
protos = ["zzdep/dep.proto", "zzflow/flow.proto"]
test = '''
package zzflow

import (
	"context"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	svc, err := NewFlow(FlowConfig{})
	if err != nil {
		t.Fatal(err)
	}
	res, err := svc.GetLabel(context.Background(), &GetLabelRequest{N: 3})
	if err != nil || res.GetAt() != "dark" || res.GetNm() != "SHADE_DARK" {
		t.Fatalf("%v %v", res, err)
	}
	if res, err := svc.GetLabel(context.Background(), &GetLabelRequest{N: 1<<32 + 3}); err == nil {
		t.Fatalf("4294967299 has the attribute %q", res.GetAt())
	}
}
'''
