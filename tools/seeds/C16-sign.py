prop = "C16"
needs = "a list of unsigned 32-bit results with an element of at least 2^31"
breaks = "elements of at least 2^31 of a list of unsigned 32-bit numbers are sign-extended on the way out of a plugin"
F = "grpc/federation/cel_plugin.go"
edits = [(F, "		u64 = append(u64, uint64(vv))\n", "		u64 = append(u64, uint64(int32(vv))) //nolint:gosec\n")]
pkg = "grpc/federation"
test = '''
package federation

import "testing"

func TestSeededDemo(t *testing.T) {
	in := []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	res, err := ToUint32ListCELPluginResponse(in)
	if err != nil {
		t.Fatal(err)
	}
	for i, v := range res.GetValue().GetList().GetValues() {
		if v.GetUint64() != uint64(in[i]) {
			t.Fatal(in[i], v.GetUint64())
		}
	}
}
'''
