package zzcast

import (
	"context"

	"google.golang.org/grpc"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

type vxVault struct {
	zzdep.VaultClient
	get func(in *zzdep.GetRichRequest) (*zzdep.Rich, error)
}

func (s *vxVault) GetRich(_ context.Context, in *zzdep.GetRichRequest, _ ...grpc.CallOption) (*zzdep.Rich, error) {
	return s.get(in)
}

func (s *vxVault) Dep_VaultClient(CastClientConfig) (zzdep.VaultClient, error) { return s, nil }

var (
	vxDep = &vxVault{}
	vxSvc *Cast
)

// Everything is compiled once; the descriptors are registered by the package's other init functions.
func init() {
	file_zzcast_cast_proto_init()
	svc, err := NewCast(CastConfig{Client: vxDep})
	if err != nil {
		panic(err)
	}
	vxSvc = svc
	vxDep.get = func(*zzdep.GetRichRequest) (*zzdep.Rich, error) {
		return &zzdep.Rich{Person: &zzdep.Person{}}, nil
	}
	ctx := context.Background()
	vxSvc.GetAuto(ctx, &GetAutoRequest{})
	for i := int64(0); i < 8; i++ {
		vxSvc.Pick(ctx, &PickRequest{Which: i})
	}
	vxSvc.Send(ctx, &SendRequest{Best: &Human{}, Direct: true, Code: 1})
	vxSvc.Send(ctx, &SendRequest{Code: 1})
}

// vxGrade is what the aliases of Grade say.
func vxGrade(g zzdep.Grade) Grade {
	switch g {
	case 1, 2:
		return 5
	case -3:
		return 4
	}
	return 0
}

// vxLevel is what the aliases of Level say.
func vxLevel(l Level) zzdep.Grade {
	switch l {
	case 5:
		return 1
	case -4:
		return -3
	}
	return 0
}

func vxPerson(name string, depth int) *zzdep.Person {
	p := &zzdep.Person{Name: vx.String(name, 1)}
	n := 4
	if depth > 0 {
		n = 5
	}
	if depth == 0 {
		p.Grade = zzdep.Grade(vx.Int32(name + " grade"))
	}
	switch vx.Choose(name+" contact", n) {
	case 1:
		p.Contact = &zzdep.Person_Mail{Mail: vx.String(name+" mail", 1)}
	case 2:
		p.Contact = &zzdep.Person_Phone{Phone: vx.Int64(name + " phone")}
	case 3:
		p.Contact = &zzdep.Person_Rank{Rank: zzdep.Grade(vx.Int32(name + " rank"))}
	case 4:
		p.Contact = &zzdep.Person_Via{Via: vxPerson(name+" via", depth-1)}
	}
	return p
}

func vxSamePerson(a *zzdep.Person, b *Person) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.Name != b.Label || b.Grade != vxGrade(a.Grade) || len(a.Kids) != len(b.Kids) || len(a.Peers) != len(b.Peers) {
		return false
	}
	for i := range a.Kids {
		if !vxSamePerson(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	for k := range a.Peers {
		if !vxSamePerson(a.Peers[k], b.Peers[k]) {
			return false
		}
	}
	switch x := a.Contact.(type) {
	case *zzdep.Person_Mail:
		y, ok := b.Contact.(*Person_Mail)
		return ok && y.Mail == x.Mail
	case *zzdep.Person_Phone:
		y, ok := b.Contact.(*Person_Phone)
		return ok && y.Phone == x.Phone
	case *zzdep.Person_Rank:
		y, ok := b.Contact.(*Person_Rank)
		return ok && y.Rank == vxGrade(x.Rank)
	case *zzdep.Person_Via:
		y, ok := b.Contact.(*Person_Via)
		return ok && vxSamePerson(x.Via, y.Via)
	}
	return b.Contact == nil
}

func vxHuman(name string, depth int) *Human {
	p := &Human{Name: vx.String(name, 1)}
	n := 4
	if depth > 0 {
		n = 5
	}
	if depth == 0 {
		p.Level = Level(vx.Int32(name + " level"))
	}
	switch vx.Choose(name+" contact", n) {
	case 1:
		p.Contact = &Human_Mail{Mail: vx.String(name+" mail", 1)}
	case 2:
		p.Contact = &Human_Phone{Phone: vx.Int64(name + " phone")}
	case 3:
		p.Contact = &Human_Rank{Rank: Level(vx.Int32(name + " rank"))}
	case 4:
		p.Contact = &Human_Via{Via: vxHuman(name+" via", depth-1)}
	}
	return p
}

func vxSameHuman(a *Human, b *zzdep.Person) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.Name != b.Name || b.Grade != vxLevel(a.Level) || len(a.Kids) != len(b.Kids) || len(a.Peers) != len(b.Peers) {
		return false
	}
	for i := range a.Kids {
		if !vxSameHuman(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	for k := range a.Peers {
		if !vxSameHuman(a.Peers[k], b.Peers[k]) {
			return false
		}
	}
	switch x := a.Contact.(type) {
	case *Human_Mail:
		y, ok := b.Contact.(*zzdep.Person_Mail)
		return ok && y.Mail == x.Mail
	case *Human_Phone:
		y, ok := b.Contact.(*zzdep.Person_Phone)
		return ok && y.Phone == x.Phone
	case *Human_Rank:
		y, ok := b.Contact.(*zzdep.Person_Rank)
		return ok && y.Rank == vxLevel(x.Rank)
	case *Human_Via:
		y, ok := b.Contact.(*zzdep.Person_Via)
		return ok && vxSameHuman(x.Via, y.Via)
	}
	return b.Contact == nil
}
