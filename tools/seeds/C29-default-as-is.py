prop = "C29"
needs = "the default of an environment variable with a quote in it"
breaks = "the default ends at the quote"
F = "generator/code_generator.go"
edits = [(F, '''		opts = append(opts, fmt.Sprintf("default:%q", v.EnvVar.Option.Default))
''', '''		opts = append(opts, `default:"`+v.EnvVar.Option.Default+`"`)
''')]
pkg = "zzconfig"
protos = ["zzdep/dep.proto", "zzconfig/config.proto"]
test = '''
package zzconfig

import (
	"context"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	t.Setenv("MUST", "m")
	svc, err := NewConfig(ConfigConfig{})
	if err != nil {
		t.Fatal(err)
	}
	res, err := svc.GetConfig(context.Background(), &GetConfigRequest{})
	if err != nil {
		t.Fatal(err)
	}
	if want := "d`\\""; res.GetText() != want {
		t.Fatalf("%q instead of %q", res.GetText(), want)
	}
}
'''
