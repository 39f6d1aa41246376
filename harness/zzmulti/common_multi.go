package zzmulti

import (
	"context"

	"google.golang.org/grpc"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

type vxTwin struct {
	zzdep.TwinClient
	memo func(in *zzdep.GetMemoRequest) (*zzdep.GetMemoResponse, error)
	song func(in *zzdep.GetSongRequest) (*zzdep.GetSongResponse, error)
}

func (s *vxTwin) GetMemo(_ context.Context, in *zzdep.GetMemoRequest, _ ...grpc.CallOption) (*zzdep.GetMemoResponse, error) {
	return s.memo(in)
}

func (s *vxTwin) GetSong(_ context.Context, in *zzdep.GetSongRequest, _ ...grpc.CallOption) (*zzdep.GetSongResponse, error) {
	return s.song(in)
}

func (s *vxTwin) Dep_TwinClient(MultiClientConfig) (zzdep.TwinClient, error) { return s, nil }

var (
	vxDep = &vxTwin{}
	vxSvc *Multi
	vxCtx = context.Background()
)

func init() {
	file_zzmulti_multi_proto_init()
	svc, err := NewMulti(MultiConfig{Client: vxDep})
	if err != nil {
		panic(err)
	}
	vxSvc = svc
	vxDep.memo = func(*zzdep.GetMemoRequest) (*zzdep.GetMemoResponse, error) {
		return &zzdep.GetMemoResponse{Memo: &zzdep.Memo{}}, nil
	}
	vxDep.song = func(*zzdep.GetSongRequest) (*zzdep.GetSongResponse, error) {
		return &zzdep.GetSongResponse{Song: &zzdep.Song{}}, nil
	}
	for _, first := range []bool{true, false} {
		if _, err := svc.Read(vxCtx, &ReadRequest{First: first}); err != nil {
			panic(err)
		}
	}
	if _, err := svc.Write(vxCtx, &WriteRequest{Note: &Note{}}); err != nil {
		panic(err)
	}
}

// What the aliases of Feel say.
func vxMood(m zzdep.Mood) Feel {
	switch m {
	case 1:
		return 3
	case 2:
		return 4
	}
	return 0
}

func vxTune(t zzdep.Tune) Feel {
	switch t {
	case 7:
		return 3
	case 1:
		return 5
	}
	return 0
}

func vxToMood(f Feel) zzdep.Mood {
	switch f {
	case 3:
		return 1
	case 4:
		return 2
	}
	return 0
}

func vxToTune(f Feel) zzdep.Tune {
	switch f {
	case 3:
		return 7
	case 5:
		return 1
	}
	return 0
}

func vxMemo(name string, parts bool) *zzdep.Memo {
	m := &zzdep.Memo{Text: "text of " + name, Title: vx.String(name+" title", 1), Size: vx.Int64(name + " size"), Mood: zzdep.Mood(vx.Int32(name + " mood"))}
	switch vx.Choose(name+" kind", 3) {
	case 1:
		m.Kind = &zzdep.Memo_Tag{Tag: vx.String(name+" tag", 1)}
	case 2:
		m.Kind = &zzdep.Memo_Sort{Sort: zzdep.Mood(vx.Int32(name + " sort"))}
	}
	if parts {
		m.Parts = []*zzdep.Memo{{Text: "x", Mood: 2}, {Kind: &zzdep.Memo_Sort{Sort: 1}}}
	}
	return m
}

func vxSong(name string, parts bool) *zzdep.Song {
	m := &zzdep.Song{Text: "text of " + name, Title: vx.String(name+" title", 1), Size: vx.Int64(name + " size"), Mood: zzdep.Tune(vx.Int32(name + " mood"))}
	switch vx.Choose(name+" kind", 3) {
	case 1:
		m.Kind = &zzdep.Song_Tag{Tag: vx.String(name+" tag", 1)}
	case 2:
		m.Kind = &zzdep.Song_Sort{Sort: zzdep.Tune(vx.Int32(name + " sort"))}
	}
	if parts {
		m.Parts = []*zzdep.Song{{Text: "x", Mood: 1, Plays: map[string]int64{"x": 1}}, {Kind: &zzdep.Song_Sort{Sort: 7}}}
	}
	return m
}

func vxSameMemo(a *zzdep.Memo, b *Note) bool {
	if b == nil {
		return false
	}
	if a == nil {
		a = &zzdep.Memo{} // an unset message of a response is read as an empty one
	}
	switch k := a.Kind.(type) {
	case nil:
		if b.Kind != nil {
			return false
		}
	case *zzdep.Memo_Tag:
		x, ok := b.Kind.(*Note_Tag)
		if !ok || x.Tag != k.Tag {
			return false
		}
	case *zzdep.Memo_Sort:
		x, ok := b.Kind.(*Note_Sort)
		if !ok || x.Sort != vxMood(k.Sort) {
			return false
		}
	}
	if len(a.Parts) != len(b.Parts) {
		return false
	}
	for i := range a.Parts {
		if !vxSameMemo(a.Parts[i], b.Parts[i]) {
			return false
		}
	}
	return a.Text == b.Body && a.Title == b.Title && a.Size == b.Size && vxMood(a.Mood) == b.Mood
}

func vxSameSong(a *zzdep.Song, b *Note) bool {
	if b == nil {
		return false
	}
	if a == nil {
		a = &zzdep.Song{}
	}
	switch k := a.Kind.(type) {
	case nil:
		if b.Kind != nil {
			return false
		}
	case *zzdep.Song_Tag:
		x, ok := b.Kind.(*Note_Tag)
		if !ok || x.Tag != k.Tag {
			return false
		}
	case *zzdep.Song_Sort:
		x, ok := b.Kind.(*Note_Sort)
		if !ok || x.Sort != vxTune(k.Sort) {
			return false
		}
	}
	if len(a.Parts) != len(b.Parts) {
		return false
	}
	for i := range a.Parts {
		if !vxSameSong(a.Parts[i], b.Parts[i]) {
			return false
		}
	}
	return a.Text == b.Body && a.Title == b.Title && a.Size == b.Size && vxTune(a.Mood) == b.Mood
}
