package cel

import (
	"net/url"
	"sort"

	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"

	"github.com/mercari/grpc-federation/vx"
)

var vxURL = vxLoad(NewURLLibrary(vxReg).CompileOptions())

func vxU(name string, args ...ref.Val) ref.Val {
	return vxURL.call("grpc.federation.url."+name, args...)
}

// vxWantURL checks that a URL value has every part of want.
func vxWantURL(got ref.Val, want *url.URL, name string) {
	vx.Assert(!types.IsError(got), name+": failed")
	m, ok := got.Value().(*URL)
	vx.Assert(ok, name+": result is not a URL")
	vx.Assert(m.GetScheme() == want.Scheme, name+": wrong scheme")
	vx.Assert(m.GetOpaque() == want.Opaque, name+": wrong opaque part")
	vx.Assert(m.GetHost() == want.Host, name+": wrong host")
	vx.Assert(m.GetPath() == want.Path, name+": wrong path")
	vx.Assert(m.GetRawPath() == want.RawPath, name+": wrong raw path")
	vx.Assert(m.GetOmitHost() == want.OmitHost, name+": wrong omitHost")
	vx.Assert(m.GetForceQuery() == want.ForceQuery, name+": wrong forceQuery")
	vx.Assert(m.GetRawQuery() == want.RawQuery, name+": wrong raw query")
	vx.Assert(m.GetFragment() == want.Fragment, name+": wrong fragment")
	vx.Assert(m.GetRawFragment() == want.RawFragment, name+": wrong raw fragment")
	vx.Assert((m.GetUser() != nil) == (want.User != nil), name+": wrong presence of user information")
	if want.User != nil {
		p, set := want.User.Password()
		vx.Assert(m.GetUser().GetUsername() == want.User.Username() && m.GetUser().GetPassword() == p && m.GetUser().GetPasswordSet() == set, name+": wrong user information")
	}
}

// Escaping: exactly the documented Go functions, and unescaping undoes it.
func VX_C11_Escape() {
	vx.MustReach("ok", "err")
	n := 2
	if vx.Thorough() {
		n = 3
	}
	s := vx.String("s", n)
	switch vx.Choose("fn", 4) {
	case 0:
		e := vxU("pathEscape", vxStr(s))
		vxWantStr(e, url.PathEscape(s), "pathEscape")
		vxWantStr(vxU("pathUnescape", e), s, "pathUnescape of pathEscape")
	case 1:
		e := vxU("queryEscape", vxStr(s))
		vxWantStr(e, url.QueryEscape(s), "queryEscape")
		vxWantStr(vxU("queryUnescape", e), s, "queryUnescape of queryEscape")
	case 2:
		want, err := url.PathUnescape(s)
		vxStrOrErr(vxU("pathUnescape", vxStr(s)), want, err, "pathUnescape")
	case 3:
		want, err := url.QueryUnescape(s)
		vxStrOrErr(vxU("queryUnescape", vxStr(s)), want, err, "queryUnescape")
	}
}

func VX_C11_UnescapePercent() {
	vx.MustReach("ok", "err")
	s := "%" + vx.StringN("s", 2)
	path := vx.Choose("path", 2) == 1
	if path {
		want, err := url.PathUnescape(s)
		vxStrOrErr(vxU("pathUnescape", vxStr(s)), want, err, "pathUnescape")
	} else {
		want, err := url.QueryUnescape(s)
		vxStrOrErr(vxU("queryUnescape", vxStr(s)), want, err, "queryUnescape")
	}
}

func vxStrOrErr(got ref.Val, want string, err error, name string) {
	if err != nil {
		vx.Reach("err")
		vxWantErr(got, err, name)
		return
	}
	vx.Reach("ok")
	vxWantStr(got, want, name)
}

func vxURLOrErr(got ref.Val, want *url.URL, err error, name string) {
	if err != nil {
		vx.Reach("err")
		vxWantErr(got, err, name)
		return
	}
	vx.Reach("ok")
	vxWantURL(got, want, name)
}

// The shapes of URL references, each with a part that is arbitrary.
var vxShapes = []struct {
	pre, post string
	max       int
}{
	{"", "", 2},
	{"http://u:p@h:80/a?q=1#", "", 1},
	{"http://h/a?", "#f", 1},
	{"http://h/", "/b?x", 1},
	{"http://h:", "/b", 1},
	{"http://", "/b", 1},
	{"http://u", "@h/b", 1},
	{"x", ":o", 1},
	{"http://h/a%2", "b", 1},
	{"//h", "", 1},
	{"/a/..", "/c", 1},
}

func vxRefString() string {
	sh := vxShapes[vx.Choose("shape", len(vxShapes))]
	n := sh.max
	if vx.Thorough() {
		n++
	}
	return sh.pre + vx.String("part", n) + sh.post
}

func VX_C11_Parse() {
	vx.MustReach("ok", "err")
	s := vxRefString()
	if vx.Choose("request", 2) == 1 {
		want, err := url.ParseRequestURI(s)
		vxURLOrErr(vxU("parseRequestURI", vxStr(s)), want, err, "parseRequestURI")
		return
	}
	want, err := url.Parse(s)
	vxURLOrErr(vxU("parse", vxStr(s)), want, err, "parse")
}

func vxParsed() (ref.Val, *url.URL) {
	s := vxRefString()
	u, err := url.Parse(s)
	vx.Assume(err == nil)
	return vxU("parse", vxStr(s)), u
}

var vxURLStrs = []struct {
	name, id string
	want     func(u *url.URL) string
}{
	{"scheme", "scheme", func(u *url.URL) string { return u.Scheme }},
	{"opaque", "opaque", func(u *url.URL) string { return u.Opaque }},
	{"host", "host", func(u *url.URL) string { return u.Host }},
	{"path", "path", func(u *url.URL) string { return u.Path }},
	{"rawPath", "rawPath", func(u *url.URL) string { return u.RawPath }},
	{"rawQuery", "rawQuery", func(u *url.URL) string { return u.RawQuery }},
	{"fragment", "fragment", func(u *url.URL) string { return u.Fragment }},
	{"rawFragment", "rawFragment", func(u *url.URL) string { return u.RawFragment }},
	{"escapedFragment", "escapedFragment", func(u *url.URL) string { return u.EscapedFragment() }},
	{"escapedPath", "escapedPath", func(u *url.URL) string { return u.EscapedPath() }},
	{"hostname", "hostname", func(u *url.URL) string { return u.Hostname() }},
	{"port", "port", func(u *url.URL) string { return u.Port() }},
	{"redacted", "redacted", func(u *url.URL) string { return u.Redacted() }},
	{"requestURI", "requestURI", func(u *url.URL) string { return u.RequestURI() }},
	{"string", "string", func(u *url.URL) string { return u.String() }},
}

// Every part of a parsed URL.
func VX_C11_Parts() {
	vx.MustReach("done")
	v, u := vxParsed()
	for _, m := range vxURLStrs {
		vxWantStr(vxURL.one(v, m.name), m.want(u), m.name)
	}
	vxWantBool(vxURL.one(v, "isAbs"), u.IsAbs(), "isAbs")
	vxWantBool(vxURL.one(v, "forceQuery"), u.ForceQuery, "forceQuery")
	vxWantBool(vxURL.one(v, "omitHost"), u.OmitHost, "omitHost")
	b, _ := u.MarshalBinary()
	vxWantBytes(vxURL.one(v, "marshalBinary"), b, "marshalBinary")
	info := vxURL.one(v, "userinfo")
	var name, pass string
	set := false
	if u.User != nil {
		name = u.User.Username()
		pass, set = u.User.Password()
	}
	vxWantStr(vxURL.one(info, "username"), name, "username")
	vxWantStr(vxURL.one(info, "password"), pass, "password")
	vxWantBool(vxURL.one(info, "passwordSet"), set, "passwordSet")
	vx.Reach("done")
}

func VX_C11_Query() {
	vx.MustReach("done")
	n := 3
	if vx.Thorough() {
		n = 4
	}
	q := "k=v&" + vx.String("q", n)
	u := &url.URL{RawQuery: q}
	v := vxReg.NativeToValue(&URL{RawQuery: q})
	got, ok := vxURL.one(v, "query").(traits.Mapper)
	vx.Assert(ok, "query: result is not a map")
	want := u.Query()
	vx.Assert(got.Size() == types.Int(len(want)), "query: wrong number of keys")
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l, found := got.Find(types.String(k))
		vx.Assert(found, "query: key is missing")
		vxWantStrs(l, want[k], "query")
	}
	vx.Reach("done")
}

func VX_C11_JoinPath() {
	vx.MustReach("done")
	bases := []string{"http://h", "http://h/a", "http://h/a%2Fb/", "http://h/a%3Fb?q", "x:o", "/r", "http://h/a%20b#f"}
	base := bases[vx.Choose("base", len(bases))]
	var elems []string
	n := vx.Choose("n", 3)
	for i := 0; i < n; i++ {
		switch vx.Choose("elem", 4) {
		case 0:
			elems = append(elems, "..")
		case 1:
			elems = append(elems, "c d")
		case 2:
			elems = append(elems, "%2F/")
		case 3:
			m := 1
			if vx.Thorough() && n == 1 {
				m = 2
			}
			elems = append(elems, vx.String("e", m))
		}
	}
	list := types.NewStringList(types.DefaultTypeAdapter, elems)
	if vx.Choose("method", 2) == 0 {
		want, err := url.JoinPath(base, elems...)
		got := vxU("joinPath", vxStr(base), list)
		if err != nil {
			vxWantErr(got, err, "joinPath")
		} else {
			vxWantStr(got, want, "joinPath")
		}
	} else {
		u, err := url.Parse(base)
		vx.Assert(err == nil, "base")
		vxWantURL(vxURL.one(vxU("parse", vxStr(base)), "joinPath", list), u.JoinPath(elems...), "URL.joinPath")
	}
	vx.Reach("done")
}

func VX_C11_Resolve() {
	vx.MustReach("ok", "err")
	bases := []string{"http://u@h/a/b?q#f", "/a/b", "x:o", "http://h"}
	base := bases[vx.Choose("base", len(bases))]
	u, err := url.Parse(base)
	vx.Assert(err == nil, "base")
	v := vxU("parse", vxStr(base))
	var refs string
	switch vx.Choose("ref", 5) {
	case 0:
		refs = vx.String("r", 2)
	case 1:
		refs = "//k" + vx.String("r", 1)
	case 2:
		refs = "../c" + vx.String("r", 1)
	case 3:
		refs = "y://z/" + vx.String("r", 1)
	case 4:
		refs = "?" + vx.String("r", 1) + "#g"
	}
	want, err := u.Parse(refs)
	vxURLOrErr(vxURL.one(v, "parse", vxStr(refs)), want, err, "URL.parse")
	if err != nil {
		return
	}
	r, _ := url.Parse(refs)
	vxWantURL(vxURL.one(v, "resolveReference", vxU("parse", vxStr(refs))), u.ResolveReference(r), "resolveReference")
}

func VX_C11_Binary() {
	vx.MustReach("ok", "err")
	s := vxRefString()
	var want url.URL
	err := want.UnmarshalBinary([]byte(s))
	vxURLOrErr(vxURL.one(vxU("parse", vxStr("http://h")), "unmarshalBinary", types.Bytes(s)), &want, err, "unmarshalBinary")
}

func VX_C11_Userinfo() {
	vx.MustReach("done")
	name, pass := vx.String("name", 2), vx.String("pass", 1)
	var want *url.Userinfo
	var v ref.Val
	if vx.Choose("pw", 2) == 1 {
		want, v = url.UserPassword(name, pass), vxU("userPassword", vxStr(name), vxStr(pass))
	} else {
		want, v = url.User(name), vxU("user", vxStr(name))
	}
	p, set := want.Password()
	vxWantStr(vxURL.one(v, "username"), want.Username(), "username")
	vxWantStr(vxURL.one(v, "password"), p, "password")
	vxWantBool(vxURL.one(v, "passwordSet"), set, "passwordSet")
	vxWantStr(vxURL.one(v, "string"), want.String(), "Userinfo.string")
	vx.Reach("done")
}
