prop = "C28"
needs = "a variable that is used nowhere but in an argument of the messages of a map, and that comes late"
breaks = "the map does not wait for that variable, so its messages are built without it"
F = "resolver/def.go"
edits = [(F, '''	case e.Message != nil:
		names = append(names, e.Message.ReferenceNames()...)
	case e.Enum != nil:
		names''', '''	case e.Message != nil:
		// what the messages of a map are made of is the element of its source, which the map waits for.
		if len(e.Message.Args) > 1 {
			names = append(names, e.Message.ReferenceNames()...)
		}
	case e.Enum != nil:
		names''')]
pkg = "zzrefs"
protos = ["zzdep/dep.proto", "zzrefs/refs.proto"]
test = '''
package zzrefs

import (
	"context"
	"testing"
	"time"

	"google.golang.org/grpc"

	"github.com/mercari/grpc-federation/zzdep"
)

type demoDep struct{ zzdep.StoreClient }

func (d *demoDep) Dep_StoreClient(RefsClientConfig) (zzdep.StoreClient, error) { return d, nil }

func (d *demoDep) GetItem(_ context.Context, in *zzdep.GetItemRequest, _ ...grpc.CallOption) (*zzdep.GetItemResponse, error) {
	return &zzdep.GetItemResponse{Item: &zzdep.Item{Id: in.GetId()}}, nil
}

func (d *demoDep) GetOwner(_ context.Context, in *zzdep.GetOwnerRequest, _ ...grpc.CallOption) (*zzdep.GetOwnerResponse, error) {
	if in.GetName() == "r_marg" {
		time.Sleep(300 * time.Millisecond)
	}
	return &zzdep.GetOwnerResponse{Owner: &zzdep.Owner{Name: in.GetName()}}, nil
}

func TestSeededDemo(t *testing.T) {
	svc, err := NewRefs(RefsConfig{Client: &demoDep{}})
	if err != nil {
		t.Fatal(err)
	}
	res, err := svc.GetRest(context.Background(), &GetRestRequest{Id: "a"})
	if err != nil {
		t.Fatal(err)
	}
	if len(res.GetMarg()) != 1 || res.GetMarg()[0].GetS() != "r_srcr_marg" {
		t.Fatalf("response: %v", res)
	}
}
'''
