prop = 'C08'
needs = 'an exponential policy without a total time (zero) that is retried for more than 15 minutes'
breaks = "attempts stop after the library's default of 15 minutes"
edits = [('grpc/federation/lib.go', '\teb.MaxElapsedTime = cfg.MaxElapsedTime\n', '\tif cfg.MaxElapsedTime > 0 {\n\t\teb.MaxElapsedTime = cfg.MaxElapsedTime\n\t}\n')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"testing"
	"time"
	"github.com/cenkalti/backoff/v4"
)

type seedClock struct{ t time.Time }

func (c *seedClock) Now() time.Time { return c.t }

func TestSeededDemo(t *testing.T) {
	b := NewExponentialBackOff(&ExponentialBackOffConfig{InitialInterval: time.Second, Multiplier: 1, MaxInterval: time.Second})
	c := &seedClock{t: time.Now()}
	b.BackOff.(*backoff.ExponentialBackOff).Clock = c
	b.Reset()
	for i := 0; i < 3; i++ {
		if d := b.NextBackOff(); d != time.Second {
			t.Fatal(i, d)
		}
		c.t = c.t.Add(10 * time.Minute)
	}
}
'''
