prop = "C27"
needs = "a failed call that carries two precondition failures, the first of which decides"
breaks = "conditions of error blocks only see the last detail of that kind"
F = "grpc/federation/cel.go"
edits = [(F, '''			grpcErr.PreconditionFailures = append(grpcErr.PreconditionFailures, m)
''', '''			grpcErr.PreconditionFailures = []*errdetails.PreconditionFailure{m}
''')]
pkg = "zzerrors"
protos = ["zzdep/dep.proto", "zzerrors/errors.proto"]
test = '''
package zzerrors

import (
	"context"
	"testing"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/zzdep"
)

type demoDep struct{ zzdep.StoreClient }

func (d demoDep) Dep_StoreClient(ErrorsClientConfig) (zzdep.StoreClient, error) { return d, nil }

func (demoDep) GetItem(context.Context, *zzdep.GetItemRequest, ...grpc.CallOption) (*zzdep.GetItemResponse, error) {
	failure := func(subject string) *errdetails.PreconditionFailure {
		return &errdetails.PreconditionFailure{Violations: []*errdetails.PreconditionFailure_Violation{{Subject: subject}}}
	}
	st, err := status.New(codes.Internal, "failed").WithDetails(failure("first"), failure("second"))
	if err != nil {
		panic(err)
	}
	return nil, st.Err()
}

func TestSeededDemo(t *testing.T) {
	svc, err := NewErrors(ErrorsConfig{Client: demoDep{}})
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"second", "first"} {
		_, err := svc.GetInspected(context.Background(), &GetInspectedRequest{S: s})
		if status.Code(err) != codes.FailedPrecondition || status.Convert(err).Message() != "precondition" {
			t.Fatalf("%s: %v", s, err)
		}
	}
}
'''
