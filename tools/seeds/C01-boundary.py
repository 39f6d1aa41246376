prop = 'C01'
needs = 'the value 2^32 exactly'
breaks = '2^32 becomes uint32 0 instead of an overflow error'
edits = [('grpc/federation/cast.go', '\tif v < 0 || (1<<32) <= v {', '\tif v < 0 || (1<<32) < v {')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for _, v := range []int64{1<<32 - 1, 0} {
		if got, err := Int64ToUint32(v); err != nil || int64(got) != v {
			t.Fatal(v, got, err)
		}
	}
	for _, v := range []int64{1 << 32, 1<<32 + 1, -1} {
		if got, err := Int64ToUint32(v); err == nil {
			t.Fatalf("%d became %d", v, got)
		}
	}
}
'''
