package zzmulti

import (
	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

// One message and one enum that stand for two of the dependency each.
func VX_C24_MultiRead() {
	vx.MustReach("done")
	vx.Delays(0)
	memo, song := &zzdep.GetMemoResponse{}, &zzdep.GetSongResponse{}
	switch vx.Choose("where", 5) {
	case 0:
		memo.Mood, song.Tune = zzdep.Mood(vx.Int32("mood")), zzdep.Tune(vx.Int32("tune"))
	case 1:
		memo.Memo = vxMemo("memo", true)
	case 2:
		song.Song = vxSong("song", true)
	case 3:
		memo.Memos = []*zzdep.Memo{vxMemo("a", false), {}}
	case 4:
		song.Songs = []*zzdep.Song{{}, vxSong("b", false)}
	}
	vxDep.memo = func(*zzdep.GetMemoRequest) (*zzdep.GetMemoResponse, error) { return memo, nil }
	vxDep.song = func(*zzdep.GetSongRequest) (*zzdep.GetSongResponse, error) { return song, nil }
	req := &ReadRequest{First: memo.Mood != 0 && vx.Bool("first")}
	res, err := vxSvc.Read(vxCtx, req)
	if err != nil {
		vx.Fail("unexpected failure: " + err.Error())
	}
	vx.Assert(vxSameMemo(memo.Memo, res.Memo), "message of the first kind")
	vx.Assert(vxSameSong(song.Song, res.Song), "message of the second kind")
	vx.Assert(len(res.Memos) == len(memo.Memos) && len(res.Songs) == len(song.Songs), "number of messages")
	for i, m := range memo.Memos {
		vx.Assert(vxSameMemo(m, res.Memos[i]), "list of the first kind")
	}
	for i, s := range song.Songs {
		vx.Assert(vxSameSong(s, res.Songs[i]), "list of the second kind")
	}
	mood, tune := vxMood(memo.Mood), vxTune(song.Tune)
	vx.Assert(res.Mood == mood && res.Tune == tune && res.Feel == tune, "enum of either kind")
	one := mood
	if req.First {
		one = tune
	}
	vx.Assert(res.One == one, "selected enum")
	vx.Reach("done")
}

func vxNote(name string) *Note {
	n := &Note{Title: vx.String(name+" title", 1), Body: "body of " + name, Size: vx.Int64(name + " size"), Mood: Feel(vx.Int32(name + " mood"))}
	switch vx.Choose(name+" kind", 3) {
	case 1:
		n.Kind = &Note_Tag{Tag: vx.String(name+" tag", 1)}
	case 2:
		n.Kind = &Note_Sort{Sort: Feel(vx.Int32(name + " sort"))}
	}
	return n
}

func vxSentNote(n *Note, m *zzdep.Memo) bool {
	if n == nil || m == nil {
		return n == nil && m == nil
	}
	switch k := n.Kind.(type) {
	case nil:
		if m.Kind != nil {
			return false
		}
	case *Note_Tag:
		x, ok := m.Kind.(*zzdep.Memo_Tag)
		if !ok || x.Tag != k.Tag {
			return false
		}
	case *Note_Sort:
		x, ok := m.Kind.(*zzdep.Memo_Sort)
		if !ok || x.Sort != vxToMood(k.Sort) {
			return false
		}
	}
	if len(n.Parts) != len(m.Parts) {
		return false
	}
	for i := range n.Parts {
		if !vxSentNote(n.Parts[i], m.Parts[i]) {
			return false
		}
	}
	return m.Text == n.Body && m.Title == n.Title && m.Size == n.Size && m.Mood == vxToMood(n.Mood)
}

// The same in requests.
func VX_C24_MultiWrite() {
	vx.MustReach("done")
	vx.Delays(0)
	req := &WriteRequest{Id: "id"}
	switch vx.Choose("where", 3) {
	case 0:
		req.Feel = Feel(vx.Int32("feel"))
	case 1:
		req.Note = vxNote("note")
	case 2:
		req.Note = &Note{Parts: []*Note{vxNote("part"), {Mood: 4, Kind: &Note_Sort{Sort: 4}}}}
	}
	calls := 0
	vxDep.memo = func(in *zzdep.GetMemoRequest) (*zzdep.GetMemoResponse, error) {
		calls++
		vx.Assert(in.Id == req.Id && in.Mood == vxToMood(req.Feel), "enum of a request to the first")
		vx.Assert(vxSentNote(req.Note, in.Memo), "message of a request to the first")
		return &zzdep.GetMemoResponse{Memo: &zzdep.Memo{Title: "a"}}, nil
	}
	vxDep.song = func(in *zzdep.GetSongRequest) (*zzdep.GetSongResponse, error) {
		calls++
		vx.Assert(in.Id == req.Id && in.Tune == vxToTune(req.Feel) && in.Song == nil, "enum of a request to the second")
		return &zzdep.GetSongResponse{Song: &zzdep.Song{Title: "b"}}, nil
	}
	res, err := vxSvc.Write(vxCtx, req)
	if err != nil {
		vx.Fail("unexpected failure: " + err.Error())
	}
	vx.Assert(calls == 2 && res.Title == "ab", "calls")
	vx.Reach("done")
}
