prop = 'C09'
needs = 'an error with log attributes that was wrapped by another error on the way'
breaks = 'the configured level and attributes are not logged'
edits = [('grpc/federation/error.go', '\tvar errWithAttrs *ErrorWithLogAttrs\n\tif errors.As(err, &errWithAttrs) {\n', '\tif errWithAttrs, ok := err.(*ErrorWithLogAttrs); ok {\n')]
pkg = 'grpc/federation'
race = False
test = r'''
package federation

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"log/slog"
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	var b bytes.Buffer
	ctx := WithLogger(context.Background(), slog.New(slog.NewJSONHandler(&b, nil)))
	OutputErrorLog(ctx, fmt.Errorf("wrap: %w", NewErrorWithLogAttrs(errors.New("x"), slog.LevelWarn, []slog.Attr{slog.String("k", "v")})))
	if s := b.String(); !strings.Contains(s, "WARN") || !strings.Contains(s, `"k":"v"`) {
		t.Fatal(s)
	}
}
'''
