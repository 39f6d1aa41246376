package cel

import (
	"time"

	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"

	"github.com/mercari/grpc-federation/vx"
)

var vxTime = vxLoad(NewTimeLibrary(vxReg).CompileOptions())

func vxT(name string, args ...ref.Val) ref.Val {
	return vxTime.call("grpc.federation.time."+name, args...)
}

func vxDur(d time.Duration) ref.Val { return types.Duration{Duration: d} }

func vxWantDur(got ref.Val, want time.Duration, name string) {
	d, ok := got.(types.Duration)
	vx.Assert(ok, name+": result is not a duration")
	vx.Assert(d.Duration == want, name+": wrong result")
}

// vxWantTime: the same instant in a zone of the same name and offset.
func vxWantTime(got ref.Val, want time.Time, name string) {
	vx.Assert(!types.IsError(got), name+": failed")
	m, ok := got.Value().(*Time)
	vx.Assert(ok, name+": result is not a time")
	vx.Assert(m.GetTimestamp().GetSeconds() == want.Unix() && int(m.GetTimestamp().GetNanos()) == want.Nanosecond(), name+": wrong instant")
	zone, off := want.Zone()
	vx.Assert(m.GetLoc().GetName() == zone && int(m.GetLoc().GetOffset()) == off, name+": wrong zone")
}

// A location: UTC or a fixed zone, as a value of the language and of Go.
func vxLoc() (ref.Val, *time.Location) {
	switch vx.Choose("zone", 4) {
	case 0:
		return vxT("UTC"), time.UTC
	case 1:
		return vxT("fixedZone", vxStr("X"), vxInt(9*3600)), time.FixedZone("X", 9*3600)
	case 2:
		return vxT("fixedZone", vxStr("A/B"), types.Double(-1800)), time.FixedZone("A/B", -1800)
	}
	off := vx.Int32("offset")
	vx.Assume(off != 0 && off > -20*3600 && off < 20*3600)
	return vxT("fixedZone", vxStr(""), vxInt(int64(off))), time.FixedZone("", int(off))
}

// vxNear is any of 65536 consecutive numbers starting at one of the bases.
func vxNear(name string, bases ...int64) int64 {
	return bases[vx.Choose(name+" base", len(bases))] + int64(vx.Uint16(name))
}

// Seconds: around the epoch, a leap day, the end of a year, the first and the
// last second that a timestamp message can hold.
func vxSec(name string) int64 {
	return vxNear(name, -32768, 951782400-32768, 1735689600-32768, -62135596800, 253402300799-65535)
}

func vxNsec(name string) int64 { return vxNear(name, 0, 999999999-65535) }

// An instant of those, in any of the zones.
func vxInstant() (ref.Val, time.Time) {
	sec, nsec := vxSec("sec"), vxNsec("nsec")
	lv, loc := vxLoc3()
	return vxTime.one(vxT("unix", vxInt(sec), vxInt(nsec)), "withLocation", lv), time.Unix(sec, nsec).In(loc)
}

// A few instants, for functions whose result depends on the calendar.
func vxSomeInstant() (ref.Val, time.Time) {
	base := []int64{0, -1, 951782399, 1709164800, 1735689599, -62135596800, 253402300799, 1711846800}[vx.Choose("instant", 8)]
	nsec := int64([]int32{0, 1, 999999999, 120000000}[vx.Choose("nanos", 4)])
	lv, loc := vxLoc3()
	return vxTime.one(vxT("unix", vxInt(base), vxInt(nsec)), "withLocation", lv), time.Unix(base, nsec).In(loc)
}

func vxLoc3() (ref.Val, *time.Location) {
	i := vx.Choose("zone", 3)
	name, off := []string{"UTC", "X", "A/B"}[i], []int{0, 9 * 3600, -1800}[i]
	if i == 0 {
		return vxT("UTC"), time.UTC
	}
	return vxT("fixedZone", vxStr(name), vxInt(int64(off))), time.FixedZone(name, off)
}

// Instants from numbers, for every number.
func VX_C12_Unix() {
	vx.MustReach("done")
	if vx.Choose("fn", 2) == 1 {
		a, b := vxSec("a"), vxNear("b", 0, -32768, 999999999-32768, -999999999-32768, 5000000000, -5000000000)
		vxWantTime(vxT("unix", vxInt(a), vxInt(b)), time.Unix(a, b).UTC(), "unix")
		vx.Reach("done")
		return
	}
	a := vxNear("a", -32768, 951782400000-32768, -951782400000, -999999999-32768, 1709164800123456-32768, -62135596800000, -62135596800000000)
	b := vxNsec("b")
	switch vx.Choose("fn", 4) {
	case 0:
		vxWantTime(vxT("unix", vxInt(a), vxInt(0)), time.Unix(a, 0).UTC(), "unix")
	case 1:
		vxWantTime(vxT("unixMilli", vxInt(a)), time.UnixMilli(a).UTC(), "unixMilli")
	case 2:
		vxWantTime(vxT("unixMicro", vxInt(a)), time.UnixMicro(a).UTC(), "unixMicro")
	case 3:
		vx.Assume(a < 253402300800 && a >= -62135596800)
		ts := types.Timestamp{Time: time.Unix(a, b).UTC()}
		vxWantTime(vxTime.one(ts, "asTime"), time.Unix(a, b).UTC(), "asTime")
	}
	vx.Reach("done")
}

var vxTimeInts = []struct {
	name string
	want func(t time.Time) int64
}{
	{"unix", func(t time.Time) int64 { return t.Unix() }},
	{"unixMilli", func(t time.Time) int64 { return t.UnixMilli() }},
	{"unixMicro", func(t time.Time) int64 { return t.UnixMicro() }},
	{"unixNano", func(t time.Time) int64 { return t.UnixNano() }},
	{"nanosecond", func(t time.Time) int64 { return int64(t.Nanosecond()) }},
	{"second", func(t time.Time) int64 { return int64(t.Second()) }},
	{"minute", func(t time.Time) int64 { return int64(t.Minute()) }},
	{"hour", func(t time.Time) int64 { return int64(t.Hour()) }},
	{"weekday", func(t time.Time) int64 { return int64(t.Weekday()) }},
	{"day", func(t time.Time) int64 { return int64(t.Day()) }},
	{"month", func(t time.Time) int64 { return int64(t.Month()) }},
	{"year", func(t time.Time) int64 { return int64(t.Year()) }},
	{"yearDay", func(t time.Time) int64 { return int64(t.YearDay()) }},
}

// Every part of every instant in every fixed zone.
func VX_C12_Parts() {
	vx.MustReach("done")
	v, t := vxInstant()
	m := vxTimeInts[vx.Choose("part", len(vxTimeInts))]
	got, ok := vxTime.one(v, m.name).(types.Int)
	vx.Assert(ok, m.name+": result is not an int")
	vx.Assert(int64(got) == m.want(t), m.name+": wrong result")
	vx.Reach("done")
}

// The same for some instants all at once.
func VX_C12_SomeParts() {
	vx.MustReach("done")
	v, t := vxSomeInstant()
	for _, m := range vxTimeInts {
		got, ok := vxTime.one(v, m.name).(types.Int)
		vx.Assert(ok && int64(got) == m.want(t), m.name+": wrong result")
	}
	vxWantBool(vxTime.one(v, "isZero"), t.IsZero(), "isZero")
	vxWantBool(vxTime.one(v, "isDST"), t.IsDST(), "isDST")
	vxWantTime(vxTime.one(v, "utc"), t.UTC(), "utc")
	vxWantTime(vxTime.one(v, "local"), t.Local(), "local")
	vxWantStr(vxTime.one(v, "string"), t.String(), "string")
	vxWantStr(vxTime.one(vxTime.one(v, "location"), "string"), t.Location().String(), "location")
	vx.Reach("done")
}

func VX_C12_Compare() {
	vx.MustReach("done")
	fn := vx.Choose("fn", 5)
	var (
		a, b   ref.Val
		ta, tb time.Time
	)
	if fn == 4 {
		// differences of seconds, then of nanoseconds
		a, ta = vxSomeInstant()
		sec, nsec := int64(0), int64(500000000)
		if vx.Choose("what", 2) == 0 {
			sec = []int64{0, 1709164800, -62135596800, 253402300799}[vx.Choose("sec", 4)] + int64(vx.Uint8("dsec"))
		} else {
			nsec = int64(vx.Uint8("nsec"))
		}
		b, tb = vxT("unix", vxInt(sec), vxInt(nsec)), time.Unix(sec, nsec)
	} else {
		sec, nsec := vxSec("sec2"), vxNsec("nsec2")
		b, tb = vxT("unix", vxInt(sec), vxInt(nsec)), time.Unix(sec, nsec)
		a, ta = vxInstant()
	}
	switch fn {
	case 0:
		vxWantBool(vxTime.one(a, "after", b), ta.After(tb), "after")
	case 1:
		vxWantBool(vxTime.one(a, "before", b), ta.Before(tb), "before")
	case 2:
		vxWantBool(vxTime.one(a, "equal", b), ta.Equal(tb), "equal")
	case 3:
		vxWantInt(vxTime.one(a, "compare", b), ta.Compare(tb), "compare")
	case 4:
		vxWantDur(vxTime.one(a, "sub", b), ta.Sub(tb), "sub")
	}
	vx.Reach("done")
}

func VX_C12_Add() {
	vx.MustReach("done")
	v, t := vxInstant()
	d := vx.Int64("d")
	if vx.Choose("duration", 2) == 1 {
		vxWantTime(vxTime.one(v, "add", vxDur(time.Duration(d))), t.Add(time.Duration(d)), "add")
	} else {
		vxWantTime(vxTime.one(v, "add", vxInt(d)), t.Add(time.Duration(d)), "add")
	}
	vx.Reach("done")
}

func VX_C12_RoundTruncate() {
	vx.MustReach("done")
	v, t := vxSomeInstant()
	d := time.Duration([]int64{0, -5, 1, 7, 1000, int64(time.Second), int64(time.Minute), int64(24 * time.Hour), 1000000007}[vx.Choose("d", 9)])
	var arg ref.Val = vxInt(int64(d))
	if vx.Choose("duration", 2) == 1 {
		arg = vxDur(d)
	}
	vxWantTime(vxTime.one(v, "round", arg), t.Round(d), "round")
	vxWantTime(vxTime.one(v, "truncate", arg), t.Truncate(d), "truncate")
	vx.Reach("done")
}

func VX_C12_AddDate() {
	vx.MustReach("done")
	v, t := vxSomeInstant()
	y, m, d := 0, 0, 0
	switch vx.Choose("what", 3) {
	case 0:
		y = []int{-1, 4, 100}[vx.Choose("y", 3)]
	case 1:
		m = []int{-13, 1, 12}[vx.Choose("m", 3)]
	case 2:
		d = []int{-32, 1, 400}[vx.Choose("d", 3)]
	}
	vxWantTime(vxTime.one(v, "addDate", vxInt(int64(y)), vxInt(int64(m)), vxInt(int64(d))), t.AddDate(y, m, d), "addDate")
	vx.Reach("done")
}

func VX_C12_Date() {
	vx.MustReach("done")
	lv, loc := vxLoc3()
	f := [7]int64{2024, 2, 29, 23, 59, 59, 999999999}
	i := vx.Choose("field", 7)
	if i < 1 {
		f[i] = []int64{-4, 0, 1, 1969, 2023, 2100, 9999}[vx.Choose("year", 7)]
	} else {
		x := vx.Int32("x")
		lim := int32(40)
		if vx.Thorough() {
			lim = 500
		}
		vx.Assume(x > -lim && x < lim)
		f[i] = int64(x)
	}
	got := vxT("date", vxInt(f[0]), vxInt(f[1]), vxInt(f[2]), vxInt(f[3]), vxInt(f[4]), vxInt(f[5]), vxInt(f[6]), lv)
	want := time.Date(int(f[0]), time.Month(f[1]), int(f[2]), int(f[3]), int(f[4]), int(f[5]), int(f[6]), loc)
	vxWantTime(got, want, "date")
	vx.Reach("done")
}

func VX_C12_Now() {
	vx.MustReach("done")
	before := time.Now()
	got := vxT("now")
	after := time.Now()
	vx.Assert(!types.IsError(got), "now failed")
	n := got.Value().(*Time).GetTimestamp().AsTime()
	vx.Assert(!n.Before(before.Round(0)) && !n.After(after.Round(0)), "now is not the present")
	sec := []int64{0, 1790000000, -62135596800, 253402300799}[vx.Choose("sec", 4)] + int64(vx.Uint8("dsec"))
	v, w := vxT("unix", vxInt(sec), vxInt(5)), time.Unix(sec, 5)
	b := time.Now().Round(0)
	since := vxT("since", v).(types.Duration).Duration
	until := vxT("until", v).(types.Duration).Duration
	a := time.Now().Round(0)
	vx.Assert(since >= b.Sub(w) && since <= a.Sub(w), "since: wrong result")
	vx.Assert(until <= w.Sub(b) && until >= w.Sub(a), "until: wrong result")
	vx.Reach("done")
}

// Durations: every 64-bit number of nanoseconds.
func VX_C12_Duration() {
	vx.MustReach("done")
	d := time.Duration(vx.Int64("d"))
	v := vxDur(d)
	vxWantDur(vxT("toDuration", vxInt(int64(d))), d, "toDuration")
	vxWantDur(vxTime.one(v, "abs"), d.Abs(), "abs")
	vxWantInt(vxTime.one(v, "nanoseconds"), int(d.Nanoseconds()), "nanoseconds")
	vxWantInt(vxTime.one(v, "microseconds"), int(d.Microseconds()), "microseconds")
	vxWantInt(vxTime.one(v, "milliseconds"), int(d.Milliseconds()), "milliseconds")
	vxWantFloat(vxTime.one(v, "seconds"), d.Seconds(), "seconds")
	vxWantFloat(vxTime.one(v, "minutes"), d.Minutes(), "minutes")
	vxWantFloat(vxTime.one(v, "hours"), d.Hours(), "hours")
	vx.Reach("done")
}

func VX_C12_DurationRound() {
	vx.MustReach("done")
	d := time.Duration(vx.Int64("d"))
	m := time.Duration([]int64{0, -3, 1, 2, 1000, int64(time.Second), int64(time.Hour)}[vx.Choose("m", 7)])
	var arg ref.Val = vxInt(int64(m))
	if vx.Choose("duration", 2) == 1 {
		arg = vxDur(m)
	}
	if vx.Choose("round", 2) == 1 {
		vxWantDur(vxTime.one(vxDur(d), "round", arg), d.Round(m), "round")
	} else {
		vxWantDur(vxTime.one(vxDur(d), "truncate", arg), d.Truncate(m), "truncate")
	}
	vx.Reach("done")
}

func VX_C12_DurationString() {
	vx.MustReach("done")
	d := vx.Int64("d")
	base := []int64{0, int64(time.Microsecond), int64(90 * time.Minute), -1 << 63, 1<<63 - 300}[vx.Choose("base", 5)]
	vx.Assume(d >= 0 && d < 256)
	x := time.Duration(base + d)
	vxWantStr(vxTime.one(vxDur(x), "string"), x.String(), "string")
	vx.Reach("done")
}

func VX_C12_ParseDuration() {
	vx.MustReach("ok", "err")
	n := 3
	if vx.Thorough() {
		n = 4
	}
	s := []string{"", "1h", "-"}[vx.Choose("pre", 3)] + vx.String("s", n-1)
	want, err := time.ParseDuration(s)
	got := vxT("parseDuration", vxStr(s))
	if err != nil {
		vx.Reach("err")
		vxWantErr(got, err, "parseDuration")
		return
	}
	vx.Reach("ok")
	vxWantDur(got, want, "parseDuration")
}

var vxLayouts = []struct{ layout, pre, post string }{
	{time.RFC3339, "2024-02-29T23:59:5", "+09:00"},
	{time.RFC3339, "2024-0", "-01T00:00:00Z"},
	{time.RFC3339Nano, "2024-02-29T23:59:59.", "Z"},
	{time.DateOnly, "2023-02-", ""},
	{time.Kitchen, "3:04", ""},
	{time.RFC822Z, "02 Jan 06 15:04 -070", ""},
}

func VX_C12_Parse() {
	vx.MustReach("ok", "err")
	l := vxLayouts[vx.Choose("layout", len(vxLayouts))]
	n := 2
	if l.post == "Z" || l.layout == time.DateOnly {
		n = 3
	}
	s := l.pre + vx.String("s", n) + l.post
	var (
		got  ref.Val
		want time.Time
		err  error
	)
	if vx.Choose("in", 2) == 1 {
		lv, loc := vxLoc3()
		got = vxT("parseInLocation", vxStr(l.layout), vxStr(s), lv)
		want, err = time.ParseInLocation(l.layout, s, loc)
	} else {
		got = vxT("parse", vxStr(l.layout), vxStr(s))
		want, err = time.Parse(l.layout, s)
	}
	if err != nil {
		vx.Reach("err")
		vxWantErr(got, err, "parse")
		return
	}
	vx.Reach("ok")
	vxWantTime(got, want, "parse")
}

func VX_C12_Format() {
	vx.MustReach("done")
	layouts := []string{time.Layout, time.ANSIC, time.UnixDate, time.RubyDate, time.RFC822, time.RFC822Z, time.RFC850, time.RFC1123, time.RFC1123Z,
		time.RFC3339, time.RFC3339Nano, time.Kitchen, time.Stamp, time.StampMilli, time.StampMicro, time.StampNano, time.DateTime, time.DateOnly, time.TimeOnly}
	v, t := vxSomeInstant()
	if vx.Choose("arbitrary", 2) == 0 {
		for _, l := range layouts {
			vxWantStr(vxTime.one(v, "format", vxStr(l)), t.Format(l), "format")
		}
	} else {
		vx.Assume(t.Unix() == 0)
		l := vx.String("layout", 2)
		vxWantStr(vxTime.one(v, "format", vxStr(l)), t.Format(l), "format")
		pre := vx.String("pre", 1)
		want := t.AppendFormat([]byte(pre), l)
		vxWantBytes(vxTime.one(v, "appendFormat", vxStr(pre), vxStr(l)), want, "appendFormat")
		src := append(make([]byte, 0, 64), pre...)
		vxWantBytes(vxTime.one(v, "appendFormat", types.Bytes(src), vxStr(l)), want, "appendFormat")
		for _, c := range src[len(src):cap(src)] {
			vx.Assert(c == 0, "appendFormat wrote into its argument")
		}
	}
	vx.Reach("done")
}

// A zone without an offset keeps its name: a fixed zone, the zone of a parsed
// abbreviation, and a zone loaded from data.
func VX_C12_ZeroOffset() {
	var (
		t    ref.Val
		want time.Time
	)
	fn := vx.Choose("fn", 4)
	switch fn {
	case 0:
		name := "Nowhere" + vx.String("name", 1)
		vx.Assume(len(name) == 7 || name[7] < 0x80 && name[7] > ' ' && name[7] != '/' && name[7] != '\\')
		t = vxTime.one(vxT("unix", vxInt(0), vxInt(0)), "withLocation", vxT("fixedZone", vxStr(name), vxInt(0)))
		want = time.Unix(0, 0).In(time.FixedZone(name, 0))
	case 1:
		t = vxT("parse", vxStr("2006 MST"), vxStr("2024 XYZ"))
		want, _ = time.Parse("2006 MST", "2024 XYZ")
	case 2, 3:
		off := byte(fn - 2)
		data := []byte("TZif\x00" + "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00" +
			"\x00\x00\x00\x00" + "\x00\x00\x00\x00" + "\x00\x00\x00\x00" + "\x00\x00\x00\x00" + "\x00\x00\x00\x01" + "\x00\x00\x00\x04" +
			"\x00\x00\x0e\x10\x00\x00" + "QQQ\x00")
		if off == 0 {
			data[46] = 0
			data[47] = 0
		}
		loc, err := time.LoadLocationFromTZData("Mine", data)
		vx.Assert(err == nil, "bad zone data")
		l := vxT("loadLocationFromTZData", vxStr("Mine"), types.Bytes(data))
		t = vxTime.one(vxT("unix", vxInt(0), vxInt(0)), "withLocation", l)
		want = time.Unix(0, 0).In(loc)
	}
	vx.KnownIf("K01-zone-without-offset", fn < 2)
	vx.KnownIf("K02-zone-from-data", fn >= 2)
	vxWantTime(t, want, "zone without offset")
	vx.Assert(!types.IsError(vxTime.one(t, "year")), "time in a zone without offset is unusable")
	vx.Reach("done")
}

// Locations keep their name and offset.
func VX_C12_Location() {
	vx.MustReach("done")
	name := vx.String("name", 2)
	time.Local = time.FixedZone("Local", 3600)
	off := vx.Int64("offset")
	vx.Assume(int64(int32(off)) == off)
	vx.Assume(off != 0) // a zone without offset is covered by VX_C12_ZeroOffset
	loc := vxT("fixedZone", vxStr(name), vxInt(off))
	vxWantStr(vxTime.one(loc, "string"), time.FixedZone(name, int(off)).String(), "fixedZone")
	t := vxTime.one(vxT("unix", vxInt(0), vxInt(0)), "withLocation", loc)
	vxWantTime(t, time.Unix(0, 0).In(time.FixedZone(name, int(off))), "withLocation")
	vxWantStr(vxTime.one(vxT("UTC"), "string"), "UTC", "UTC")
	vxWantStr(vxTime.one(vxT("loadLocation", vxStr("UTC")), "string"), "UTC", "loadLocation")
	vxWantStr(vxTime.one(vxT("LOCAL"), "string"), time.Local.String(), "LOCAL")
	vx.Reach("done")
}
