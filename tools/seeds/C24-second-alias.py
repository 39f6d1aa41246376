prop = "C24"
needs = "an enum that stands for two enums, with a value whose alias in the wanted enum is not the first, sent to the dependency"
breaks = "the value is sent as the zero value of the dependency's enum"
F = "generator/code_generator.go"
edits = [(F, '''			if enumValueAlias.EnumAlias != depSvcEnum {
				continue
			}
			if len(enumValueAlias.Aliases) != 1 {
''', '''			if enumValueAlias.EnumAlias != depSvcEnum {
				break
			}
			if len(enumValueAlias.Aliases) != 1 {
''')]
pkg = "zzmulti"
protos = ["zzdep/twin.proto", "zzmulti/multi.proto"]
test = '''
package zzmulti

import (
	"context"
	"testing"

	"google.golang.org/grpc"

	"github.com/mercari/grpc-federation/zzdep"
)

type demoDep struct {
	zzdep.TwinClient
	mood zzdep.Mood
	tune zzdep.Tune
}

func (d *demoDep) Dep_TwinClient(MultiClientConfig) (zzdep.TwinClient, error) { return d, nil }

func (d *demoDep) GetMemo(_ context.Context, in *zzdep.GetMemoRequest, _ ...grpc.CallOption) (*zzdep.GetMemoResponse, error) {
	d.mood = in.GetMood()
	return &zzdep.GetMemoResponse{}, nil
}

func (d *demoDep) GetSong(_ context.Context, in *zzdep.GetSongRequest, _ ...grpc.CallOption) (*zzdep.GetSongResponse, error) {
	d.tune = in.GetTune()
	return &zzdep.GetSongResponse{}, nil
}

func TestSeededDemo(t *testing.T) {
	d := &demoDep{}
	svc, err := NewMulti(MultiConfig{Client: d})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := svc.Write(context.Background(), &WriteRequest{Feel: Feel_FEEL_UP}); err != nil {
		t.Fatal(err)
	}
	if d.mood != zzdep.Mood_MOOD_UP || d.tune != zzdep.Tune_TUNE_UP {
		t.Fatalf("%v %v", d.mood, d.tune)
	}
}
'''
