package zzcast

import (
	"context"

	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/mercari/grpc-federation/vx"
	"github.com/mercari/grpc-federation/zzdep"
)

func vxAuto(rich *zzdep.Rich) *GetAutoResponse {
	vx.Delays(0) // schedules: C25
	id := vx.String("id", 1)
	vxDep.get = func(in *zzdep.GetRichRequest) (*zzdep.Rich, error) {
		vx.Assert(in.Id == id && in.By == nil && in.Best == nil && len(in.People) == 0 && in.Limit == 0 && in.Since == nil, "the request carries exactly what the definition says")
		return rich, nil
	}
	res, err := vxSvc.GetAuto(context.Background(), &GetAutoRequest{Id: id})
	vx.Assert(err == nil && res != nil, "a request whose parts all succeed fails")
	vx.Reach("done")
	return res
}

// Numbers of other widths, texts, bytes and enums.
func VX_C24_RichScalars() {
	vx.MustReach("done")
	r := &zzdep.Rich{
		OptNum: vx.Int64("num"), OptText: vx.String("text", 2), OptGrade: zzdep.Grade(vx.Int32("grade")), Signed: vx.Int32("signed"), Fixed: vx.Uint64("fixed"),
		OptFlag: vx.Bool("flag"), OptBlob: vx.Bytes("blob", 2),
	}
	v := vxAuto(r)
	vx.Assert(v.OptNum == r.OptNum && v.OptText == r.OptText && v.OptGrade == vxGrade(r.OptGrade) && v.Signed == r.Signed && v.Fixed == r.Fixed && v.OptFlag == r.OptFlag && string(v.OptBlob) == string(r.OptBlob), "automatically bound field")
	vx.Assert(v.Num == r.OptNum && v.G == vxGrade(r.OptGrade) && v.Signed2 == r.Signed && v.Fixed2 == r.Fixed && string(v.Blob2) == string(r.OptBlob), "field bound to an expression")
	vx.Assert(v.Person == nil && v.At == nil && v.Took == nil && v.Boxed == nil && v.BoxedText == nil && len(v.People) == 0 && len(v.Grades) == 0, "nothing appears that was not there")
}

// Floating point numbers.
func VX_C24_RichFloat() {
	vx.MustReach("done")
	r := &zzdep.Rich{Single: vx.Float32("single")}
	v := vxAuto(r)
	vx.Assert(r.Single != r.Single && v.Single != v.Single && v.Single2 != v.Single2 || v.Single == r.Single && v.Single2 == r.Single, "floating point number")
}

// Well-known messages, present or not.
func VX_C24_RichWellKnown() {
	vx.MustReach("done")
	r := &zzdep.Rich{}
	which := vx.Choose("which", 4)
	s, n := int64(vx.Uint8("s")), int32([]int{0, 1, 999999999}[vx.Choose("n", 3)])
	switch which {
	case 1:
		r.At = &timestamppb.Timestamp{Seconds: s, Nanos: n}
		r.Times = []*timestamppb.Timestamp{{Seconds: s}, {Nanos: n}}
	case 2:
		r.Took = &durationpb.Duration{Seconds: s, Nanos: n}
	case 3:
		r.Boxed = wrapperspb.Int64(vx.Int64("boxed"))
		r.BoxedText = wrapperspb.String(vx.String("text", 1))
	}
	v := vxAuto(r)
	vx.Assert((v.At != nil) == (r.At != nil) && (v.Took != nil) == (r.Took != nil) && (v.Boxed != nil) == (r.Boxed != nil) && (v.BoxedText != nil) == (r.BoxedText != nil), "presence")
	vx.Assert((v.Boxed2 != nil) == (r.Boxed != nil), "presence of a wrapper bound to an expression")
	vx.Assert(v.At.GetSeconds() == r.At.GetSeconds() && v.At.GetNanos() == r.At.GetNanos(), "automatically bound timestamp")
	vx.Assert(v.At2.GetSeconds() == r.At.GetSeconds() && v.At2.GetNanos() == r.At.GetNanos(), "timestamp bound to an expression")
	vx.Assert(v.Took.GetSeconds() == r.Took.GetSeconds() && v.Took.GetNanos() == r.Took.GetNanos(), "automatically bound duration")
	vx.Assert(v.Took2.GetSeconds() == r.Took.GetSeconds() && v.Took2.GetNanos() == r.Took.GetNanos(), "duration bound to an expression")
	vx.Assert(v.Boxed.GetValue() == r.Boxed.GetValue() && v.BoxedText.GetValue() == r.BoxedText.GetValue() && v.Boxed2.GetValue() == r.Boxed.GetValue(), "wrapper")
	vx.Assert(len(v.Times) == len(r.Times) && len(v.Times2) == len(r.Times), "number of timestamps")
	for i, t := range r.Times {
		vx.Assert(v.Times[i].Seconds == t.Seconds && v.Times[i].Nanos == t.Nanos && v.Times2[i].Seconds == t.Seconds && v.Times2[i].Nanos == t.Nanos, "timestamp of a list")
	}
}

// Aliased messages with exclusive fields, lists and maps of themselves.
func VX_C24_RichPeople() {
	vx.MustReach("done")
	r := &zzdep.Rich{}
	switch vx.Choose("where", 6) {
	case 1:
		r.Person = vxPerson("p", 1)
	case 2:
		r.People = []*zzdep.Person{vxPerson("a", 0), {Name: "b", Contact: &zzdep.Person_Rank{Rank: 2}}}
	case 3:
		r.Person = &zzdep.Person{Kids: []*zzdep.Person{vxPerson("kid", 0), {}}}
	case 4:
		r.Person = &zzdep.Person{Peers: map[int32]*zzdep.Person{-1: vxPerson("peer", 0), 7: {Name: "x"}}}
	case 5:
		r.Staff = map[int64]*zzdep.Person{1 << 40: vxPerson("staff", 0)}
	}
	v := vxAuto(r)
	vx.Assert(vxSamePerson(r.Person, v.Person), "automatically bound message")
	vx.Assert(len(v.People) == len(r.People) && len(v.People2) == len(r.People) && len(v.Staff2) == len(r.Staff), "number of messages")
	for i := range r.People {
		vx.Assert(vxSamePerson(r.People[i], v.People[i]) && vxSamePerson(r.People[i], v.People2[i]), "message of a list")
	}
	for k := range r.Staff {
		vx.Assert(vxSamePerson(r.Staff[k], v.Staff2[k]), "message of a map")
	}
}

// Lists and maps of enums, bytes and booleans.
func VX_C24_RichCollections() {
	vx.MustReach("done")
	r := &zzdep.Rich{}
	switch vx.Choose("where", 4) {
	case 0:
		r.Levels = []zzdep.Grade{zzdep.Grade(vx.Int32("l")), zzdep.Grade(vx.Int32("m"))}
	case 1:
		r.Grades = map[string]zzdep.Grade{"a": zzdep.Grade(vx.Int32("a")), "": zzdep.Grade(vx.Int32("b"))}
	case 2:
		r.Blobs = map[bool][]byte{true: vx.Bytes("yes", 1), false: vx.Bytes("no", 1)}
	case 3:
		r.Chunks = [][]byte{vx.Bytes("c", 1), vx.Bytes("d", 1)}
	}
	v := vxAuto(r)
	vx.Assert(len(v.Levels) == len(r.Levels) && len(v.Levels2) == len(r.Levels) && len(v.Grades) == len(r.Grades) && len(v.Grades2) == len(r.Grades), "number of enums")
	vx.Assert(len(v.Blobs) == len(r.Blobs) && len(v.Blobs2) == len(r.Blobs) && len(v.Chunks) == len(r.Chunks) && len(v.Chunks2) == len(r.Chunks), "number of bytes")
	for i, l := range r.Levels {
		vx.Assert(v.Levels[i] == vxGrade(l), "automatically bound list of enums")
		vx.Assert(v.Levels2[i] == vxGrade(l), "list of enums bound to an expression")
	}
	for k, g := range r.Grades {
		vx.Assert(v.Grades[k] == vxGrade(g), "automatically bound map of enums")
		vx.Assert(v.Grades2[k] == vxGrade(g), "map of enums bound to an expression")
	}
	for k, b := range r.Blobs {
		vx.Assert(string(v.Blobs[k]) == string(b) && string(v.Blobs2[k]) == string(b), "map of bytes")
	}
	for i, b := range r.Chunks {
		vx.Assert(string(v.Chunks[i]) == string(b) && string(v.Chunks2[i]) == string(b), "list of bytes")
	}
}

// The request of a call: aliased messages and enums, exclusive fields, conditions.
func VX_C24_RichRequest() {
	vx.MustReach("done", "refused")
	vx.Delays(0)
	req := &SendRequest{Id: vx.String("id", 1), Code: 1, Limit: 1}
	switch vx.Choose("where", 6) {
	case 0:
		req.Code, req.Direct, req.Limit = vx.Int64("code"), vx.Bool("direct"), vx.Int64("limit")
	case 1:
		req.Best = vxHuman("best", 1)
		req.Direct = true
	case 2:
		req.People = []*Human{vxHuman("a", 0), {Name: "b", Contact: &Human_Rank{Rank: -4}}}
	case 3:
		req.Levels = []Level{Level(vx.Int32("l")), Level(vx.Int32("m"))}
		req.Grades = map[string]Level{"g": Level(vx.Int32("g")), "h": 5}
	case 4:
		req.Blob, req.Fixed = vx.Bytes("blob", 1), vx.Uint64("fixed")
		req.Ratio = 1.5
	case 5:
		req.Since = &timestamppb.Timestamp{Seconds: int64(vx.Uint8("since")), Nanos: 5}
		req.Within = &durationpb.Duration{Seconds: int64(vx.Uint8("within")), Nanos: 7}
	}
	called := 0
	name := vx.String("name", 1)
	vxDep.get = func(in *zzdep.GetRichRequest) (*zzdep.Rich, error) {
		called++
		vx.Assert(in.Id == req.Id && vxSameHuman(req.Best, in.Best), "message of a request")
		vx.Assert(len(in.People) == len(req.People) && len(in.Levels) == len(req.Levels) && len(in.Grades) == len(req.Grades), "number of elements of a request")
		for i := range req.People {
			vx.Assert(vxSameHuman(req.People[i], in.People[i]), "message of a list of a request")
		}
		for i, l := range req.Levels {
			vx.Assert(in.Levels[i] == vxLevel(l), "enum of a list of a request")
		}
		for k, l := range req.Grades {
			vx.Assert(in.Grades[k] == vxLevel(l), "enum of a map of a request")
		}
		vx.Assert(in.Limit == req.Limit && req.Code > 0 || in.Limit == 0 && req.Code <= 0, "conditional field of a request")
		vx.Assert(in.Since.GetSeconds() == req.Since.GetSeconds() && in.Since.GetNanos() == req.Since.GetNanos() && in.Within.GetSeconds() == req.Within.GetSeconds() && in.Within.GetNanos() == req.Within.GetNanos(), "well-known message of a request")
		vx.Assert(string(in.Blob) == string(req.Blob) && in.Ratio == req.Ratio && in.Fixed == req.Fixed, "scalar of a request")
		if req.Direct {
			by, ok := in.By.(*zzdep.GetRichRequest_Person)
			vx.Assert(ok && vxSameHuman(req.Best, by.Person), "exclusive field of a request")
		} else {
			by, ok := in.By.(*zzdep.GetRichRequest_Code)
			vx.Assert(ok && int64(by.Code) == req.Code, "exclusive number of a request")
		}
		return &zzdep.Rich{Person: &zzdep.Person{Name: name}}, nil
	}
	res, err := vxSvc.Send(context.Background(), req)
	fits := req.Direct || req.Code >= -1<<31 && req.Code < 1<<31
	vx.Assert((err == nil) == fits, "a number that does not fit its field is an error, every other is not")
	if err != nil {
		vx.Assert(called == 0, "a call is made without its request")
		vx.Reach("refused")
		return
	}
	vx.Assert(called == 1 && res.Name == name, "response")
	vx.Reach("done")
}

// Exclusive fields bound to expressions of other types.
func VX_C24_RichPick() {
	vx.MustReach("done", "refused")
	vx.Delays(0)
	r := &zzdep.Rich{Person: vxPerson("p", 0), At: &timestamppb.Timestamp{Seconds: int64(vx.Uint8("at")), Nanos: 3}}
	vxDep.get = func(*zzdep.GetRichRequest) (*zzdep.Rich, error) { return r, nil }
	which, n := vx.Choose("which", 8), vx.Int64("n")
	res, err := vxSvc.Pick(context.Background(), &PickRequest{Which: int64(which), N: n})
	fits := true
	switch which {
	case 3:
		fits = n >= -1<<31 && n < 1<<31
	case 0, 7:
		fits = n >= 0 && n < 1<<32
	}
	vx.Assert((err == nil) == fits, "a number that does not fit its field is an error, every other is not")
	if err != nil {
		vx.Reach("refused")
		return
	}
	switch which {
	case 1:
		x, ok := res.Choice.(*PickResponse_Person)
		vx.Assert(ok && vxSamePerson(r.Person, x.Person), "message")
	case 2:
		x, ok := res.Choice.(*PickResponse_Grade)
		vx.Assert(ok && x.Grade == vxGrade(r.Person.Grade), "enum")
	case 3:
		x, ok := res.Choice.(*PickResponse_Small)
		vx.Assert(ok && int64(x.Small) == n, "number")
	case 4:
		x, ok := res.Choice.(*PickResponse_At)
		vx.Assert(ok && x.At.Seconds == r.At.Seconds && x.At.Nanos == 3, "timestamp")
	case 5:
		x, ok := res.Choice.(*PickResponse_Sub)
		vx.Assert(ok && x.Sub.Label == r.Person.Name && x.Sub.Grade == vxGrade(r.Person.Grade), "message of a definition")
	case 6:
		x, ok := res.Choice.(*PickResponse_Raw)
		vx.Assert(ok && string(x.Raw) == "x", "bytes")
	default:
		x, ok := res.Choice.(*PickResponse_More)
		vx.Assert(ok && int64(x.More) == n, "default")
	}
	vx.Reach("done")
}
