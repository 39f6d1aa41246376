prop = "C28"
needs = "a dependency whose call fails with a plain cancellation error, next to another call that goes on"
breaks = "the failure of the call is lost and the request goes on without its value"
F = "grpc/federation/error.go"
edits = [(F, '''		_, err := fn()
		return err
''', '''		if _, err := fn(); err != nil && !errors.Is(err, context.Canceled) {
			return err
		}
		return nil
''')]
pkg = "zzasync"
protos = ["zzdep/dep.proto", "zzasync/async.proto"]
test = '''
package zzasync

import (
	"context"
	"testing"

	"google.golang.org/grpc"

	"github.com/mercari/grpc-federation/zzdep"
)

type demoDep struct {
	zzdep.StoreClient
	err error
}

func (d *demoDep) Dep_StoreClient(AsyncClientConfig) (zzdep.StoreClient, error) { return d, nil }

func (d *demoDep) GetItem(context.Context, *zzdep.GetItemRequest, ...grpc.CallOption) (*zzdep.GetItemResponse, error) {
	return &zzdep.GetItemResponse{Total: 1}, nil
}

func (d *demoDep) GetOwner(_ context.Context, in *zzdep.GetOwnerRequest, _ ...grpc.CallOption) (*zzdep.GetOwnerResponse, error) {
	if d.err != nil {
		return nil, d.err
	}
	return &zzdep.GetOwnerResponse{Owner: &zzdep.Owner{Name: in.GetName()}}, nil
}

func TestSeededDemo(t *testing.T) {
	dep := &demoDep{}
	svc, err := NewAsync(AsyncConfig{Client: dep})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := svc.GetTwo(context.Background(), &GetTwoRequest{Id: "a"}); err != nil {
		t.Fatal(err)
	}
	dep.err = context.Canceled
	// the failure itself, not that of an expression that misses the value
	if _, err := svc.GetTwo(context.Background(), &GetTwoRequest{Id: "a"}); err == nil || err.Error() != "rpc error: code = Unknown desc = context canceled" && err.Error() != "context canceled" {
		t.Fatalf("failure of the request: %v", err)
	}
}
'''
