package federation

import (
	"context"
	"log/slog"
	"strings"
)

// vxLog records what is logged.
type vxLog struct {
	recs  *[]vxRecord
	attrs []slog.Attr
}

type vxRecord struct {
	level slog.Level
	msg   string
	attrs []slog.Attr
}

func (h *vxLog) Enabled(context.Context, slog.Level) bool { return true }
func (h *vxLog) Handle(_ context.Context, r slog.Record) error {
	rec := vxRecord{level: r.Level, msg: r.Message, attrs: append([]slog.Attr(nil), h.attrs...)}
	r.Attrs(func(a slog.Attr) bool {
		rec.attrs = append(rec.attrs, a)
		return true
	})
	*h.recs = append(*h.recs, rec)
	return nil
}
func (h *vxLog) WithAttrs(as []slog.Attr) slog.Handler {
	return &vxLog{recs: h.recs, attrs: append(append([]slog.Attr(nil), h.attrs...), as...)}
}
func (h *vxLog) WithGroup(string) slog.Handler { return h }

func vxLogger() (*slog.Logger, *[]vxRecord) {
	recs := &[]vxRecord{}
	return slog.New(&vxLog{recs: recs}), recs
}

func vxKeys(as []slog.Attr) string {
	var ks []string
	for _, a := range as {
		ks = append(ks, a.Key)
	}
	return strings.Join(ks, ",")
}
