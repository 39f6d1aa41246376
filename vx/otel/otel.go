// Package otel stands in for go.opentelemetry.io/otel, whose dependencies are
// not available offline, in generated code: it traces nothing.
package otel

import (
	"context"

	"go.opentelemetry.io/otel/trace"
)

type tracer struct{ trace.Tracer }

func (tracer) Start(ctx context.Context, _ string, _ ...trace.SpanStartOption) (context.Context, trace.Span) {
	return ctx, trace.SpanFromContext(ctx)
}

func Tracer(string, ...trace.TracerOption) trace.Tracer { return tracer{} }
