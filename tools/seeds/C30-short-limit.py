prop = "C30"
needs = "a method with a time limit that is no whole number of seconds, and a dependency that is late"
breaks = "the limit is raised to the next second, so a late response is still returned"
F = "generator/code_generator.go"
edits = [(F, '''	"text/template"
''', '''	"text/template"
	"time"
'''), (F, '''	return fmt.Sprintf("%[1]d/* %[1]s */", *m.Rule.Timeout)
''', '''	timeout := *m.Rule.Timeout
	if rest := timeout % time.Second; rest > 0 {
		timeout += time.Second - rest
	}
	return fmt.Sprintf("%[1]d/* %[1]s */", timeout)
''')]
pkg = "zzresolve"
protos = ["zzdep/dep.proto", "zzresolve/resolve.proto"]
test = '''
package zzresolve

import (
	"context"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/mercari/grpc-federation/zzdep"
)

type demo struct {
	zzdep.StoreClient
}

func (d *demo) Dep_StoreClient(ResolveClientConfig) (zzdep.StoreClient, error) { return d, nil }

func (d *demo) GetItem(ctx context.Context, in *zzdep.GetItemRequest, _ ...grpc.CallOption) (*zzdep.GetItemResponse, error) {
	time.Sleep(time.Duration(in.GetN()) * time.Millisecond)
	return &zzdep.GetItemResponse{Total: 1, Item: &zzdep.Item{}}, nil
}

func (d *demo) Resolve_Resolve_Leaf(context.Context, *Resolve_Resolve_LeafArgument) (*Leaf, error) {
	return &Leaf{}, nil
}

func (d *demo) Resolve_Resolve_User(_ context.Context, in *Resolve_Resolve_UserArgument) (*User, error) {
	return &User{Id: in.Key}, nil
}

func (d *demo) Resolve_Resolve_User_Name(context.Context, *Resolve_Resolve_User_NameArgument) (string, error) {
	return "name", nil
}

func (d *demo) Resolve_Resolve_GetResponse_Tag(context.Context, *Resolve_Resolve_GetResponse_TagArgument) (string, error) {
	return "tag", nil
}

func (d *demo) Resolve_Resolve_GetResponse_Extra(context.Context, *Resolve_Resolve_GetResponse_ExtraArgument) ([]*Leaf, error) {
	return nil, nil
}

func TestSeededDemo(t *testing.T) {
	d := &demo{}
	svc, err := NewResolve(ResolveConfig{Client: d, Resolver: d})
	if err != nil {
		t.Fatal(err)
	}
	if res, err := svc.Both(context.Background(), &BothRequest{}); err != nil || res.GetTotal() != 1 {
		t.Fatalf("%v %v", res, err)
	}
	// the limit is 50ms
	if res, err := svc.Both(context.Background(), &BothRequest{N: 400}); status.Code(err) != codes.DeadlineExceeded {
		t.Fatalf("%v %v", res, err)
	}
}
'''
