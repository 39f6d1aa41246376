package cel

import (
	"strconv"
	"strings"

	"github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"
	"golang.org/x/text/cases"
	"golang.org/x/text/language"

	"github.com/mercari/grpc-federation/vx"
)

var vxStrings = vxLoad(NewStringsLibrary().CompileOptions())

func vxS(name string, args ...ref.Val) ref.Val {
	return vxStrings.call("grpc.federation.strings."+name, args...)
}

func vxN(q, t int) int {
	if vx.Thorough() {
		return t
	}
	return q
}

func VX_C10_Search1() {
	a, b := vx.String("a", vxN(4, 5)), vx.String("b", vxN(2, 3))
	switch vx.Choose("f", 7) {
	case 0:
		vxWantBool(vxS("contains", vxStr(a), vxStr(b)), strings.Contains(a, b), "contains")
	case 1:
		vxWantInt(vxS("count", vxStr(a), vxStr(b)), strings.Count(a, b), "count")
	case 2:
		vxWantBool(vxS("hasPrefix", vxStr(a), vxStr(b)), strings.HasPrefix(a, b), "hasPrefix")
	case 3:
		vxWantBool(vxS("hasSuffix", vxStr(a), vxStr(b)), strings.HasSuffix(a, b), "hasSuffix")
	case 4:
		vxWantInt(vxS("index", vxStr(a), vxStr(b)), strings.Index(a, b), "index")
	case 5:
		vxWantInt(vxS("lastIndex", vxStr(a), vxStr(b)), strings.LastIndex(a, b), "lastIndex")
	case 6:
		vxWantInt(vxS("compare", vxStr(a), vxStr(b)), strings.Compare(a, b), "compare")
	}
}

func VX_C10_Search2() {
	f := vx.Choose("f", 4)
	n := vxN(1, 2)
	if f == 3 {
		n = 2
	}
	a, b := vx.String("a", 2), vx.String("b", n)
	if f == 3 {
		for i := 0; i < len(a); i++ {
			vx.Assume(a[i] < 0x80)
		}
		if !vx.Thorough() {
			// quick: a letter of ASCII against any, or two ASCII letters each
			vx.Assume(len(a) <= 1 || len(b) < 2 || b[0] < 0x80 && b[1] < 0x80)
		}
	}
	switch f {
	case 0:
		vxWantBool(vxS("containsAny", vxStr(a), vxStr(b)), strings.ContainsAny(a, b), "containsAny")
	case 1:
		vxWantInt(vxS("indexAny", vxStr(a), vxStr(b)), strings.IndexAny(a, b), "indexAny")
	case 2:
		vxWantInt(vxS("lastIndexAny", vxStr(a), vxStr(b)), strings.LastIndexAny(a, b), "lastIndexAny")
	case 3:
		vxWantBool(vxS("equalFold", vxStr(a), vxStr(b)), strings.EqualFold(a, b), "equalFold")
	}
}

// Letters beyond ASCII: any letter of two bytes against any letter of one, and
// letters with a third form (ſ, K, ς, ß, İ) against any letter of at most two.
func VX_C10_FoldLetters() {
	vx.MustReach("equal", "different")
	a := []string{"ſ", "K", "ς", "ß", "İ", "ǅ", "k\u0301"}[vx.Choose("a", 7)]
	b := vx.String("b", 2)
	vxWantBool(vxS("equalFold", vxStr(a), vxStr(b)), strings.EqualFold(a, b), "equalFold")
	vxWantBool(vxS("equalFold", vxStr(b), vxStr(a)), strings.EqualFold(a, b), "equalFold")
	if strings.EqualFold(a, b) {
		vx.Reach("equal")
	} else {
		vx.Reach("different")
	}
}

func VX_C10_Runes() {
	a, r := vx.String("a", vxN(3, 4)), vx.Int64("r")
	vx.Assume(r >= -(1<<31) && r < 1<<31)
	switch vx.Choose("f", 2) {
	case 0:
		vxWantBool(vxS("containsRune", vxStr(a), vxInt(r)), strings.ContainsRune(a, rune(r)), "containsRune")
	case 1:
		vxWantInt(vxS("indexRune", vxStr(a), vxInt(r)), strings.IndexRune(a, rune(r)), "indexRune")
	}
}

func VX_C10_Byte() {
	a, b := vx.String("a", 4), vx.StringN("b", 1)
	switch vx.Choose("f", 4) {
	case 0:
		vxWantInt(vxS("indexByte", vxStr(a), vxStr(b)), strings.IndexByte(a, b[0]), "indexByte")
	case 1:
		vxWantInt(vxS("lastIndexByte", vxStr(a), vxStr(b)), strings.LastIndexByte(a, b[0]), "lastIndexByte")
	case 2:
		vxWantInt(vxS("indexByte", vxStr(a), types.Bytes(b)), strings.IndexByte(a, b[0]), "indexByte(bytes)")
	case 3:
		vxWantInt(vxS("lastIndexByte", vxStr(a), types.Bytes(b)), strings.LastIndexByte(a, b[0]), "lastIndexByte(bytes)")
	}
}

func VX_C10_Cut() {
	a, b := vx.String("a", 4), vx.String("b", 2)
	switch vx.Choose("f", 6) {
	case 0:
		x, y, _ := strings.Cut(a, b)
		vxWantStrs(vxS("cut", vxStr(a), vxStr(b)), []string{x, y}, "cut")
	case 1:
		x, _ := strings.CutPrefix(a, b)
		vxWantStr(vxS("cutPrefix", vxStr(a), vxStr(b)), x, "cutPrefix")
	case 2:
		x, _ := strings.CutSuffix(a, b)
		vxWantStr(vxS("cutSuffix", vxStr(a), vxStr(b)), x, "cutSuffix")
	case 3:
		vxWantStr(vxS("trimPrefix", vxStr(a), vxStr(b)), strings.TrimPrefix(a, b), "trimPrefix")
	case 4:
		vxWantStr(vxS("trimSuffix", vxStr(a), vxStr(b)), strings.TrimSuffix(a, b), "trimSuffix")
	case 5:
		vxWantStr(vxS("clone", vxStr(a)), a, "clone")
	}
}

func VX_C10_Trim() {
	a, b := vx.String("a", vxN(2, 3)), vx.String("b", 2)
	switch vx.Choose("f", 3) {
	case 0:
		vxWantStr(vxS("trim", vxStr(a), vxStr(b)), strings.Trim(a, b), "trim")
	case 1:
		vxWantStr(vxS("trimLeft", vxStr(a), vxStr(b)), strings.TrimLeft(a, b), "trimLeft")
	case 2:
		vxWantStr(vxS("trimRight", vxStr(a), vxStr(b)), strings.TrimRight(a, b), "trimRight")
	}
}

func VX_C10_Space() {
	a := vx.String("a", vxN(3, 3))
	switch vx.Choose("f", 3) {
	case 0:
		vxWantStr(vxS("trimSpace", vxStr(a)), strings.TrimSpace(a), "trimSpace")
	case 1:
		vxWantStrs(vxS("fields", vxStr(a)), strings.Fields(a), "fields")
	case 2:
		vxWantStr(vxS("toValidUTF8", vxStr(a), vxStr("?")), strings.ToValidUTF8(a, "?"), "toValidUTF8")
	}
}

func VX_C10_Case() {
	a := vx.String("a", vxN(2, 2))
	for i := 0; i < len(a); i++ {
		vx.Assume(a[i] < 0x80)
	}
	switch vx.Choose("f", 3) {
	case 0:
		vxWantStr(vxS("toLower", vxStr(a)), strings.ToLower(a), "toLower")
	case 1:
		vxWantStr(vxS("toUpper", vxStr(a)), strings.ToUpper(a), "toUpper")
	case 2:
		vxWantStr(vxS("toTitle", vxStr(a)), strings.ToTitle(a), "toTitle")
	}
}

func VX_C10_Split() {
	a, b := vx.String("a", vxN(3, 4)), vx.String("b", 1)
	n := vx.Int64("n")
	vx.Assume(n >= -1 && n <= 3)
	switch vx.Choose("f", 4) {
	case 0:
		vxWantStrs(vxS("split", vxStr(a), vxStr(b)), strings.Split(a, b), "split")
	case 1:
		vxWantStrs(vxS("splitAfter", vxStr(a), vxStr(b)), strings.SplitAfter(a, b), "splitAfter")
	case 2:
		vxWantStrs(vxS("splitN", vxStr(a), vxStr(b), vxInt(n)), strings.SplitN(a, b, int(n)), "splitN")
	case 3:
		vxWantStrs(vxS("splitAfterN", vxStr(a), vxStr(b), vxInt(n)), strings.SplitAfterN(a, b, int(n)), "splitAfterN")
	}
}

func VX_C10_Replace() {
	a, b, c := vx.String("a", 3), vx.String("b", 1), vx.String("c", 1)
	n := vx.Int64("n")
	vx.Assume(n >= -1 && n <= 3)
	switch vx.Choose("f", 2) {
	case 0:
		vxWantStr(vxS("replace", vxStr(a), vxStr(b), vxStr(c), vxInt(n)), strings.Replace(a, b, c, int(n)), "replace")
	case 1:
		vxWantStr(vxS("replaceAll", vxStr(a), vxStr(b), vxStr(c)), strings.ReplaceAll(a, b, c), "replaceAll")
	}
}

func VX_C10_JoinRepeat() {
	a, b := vx.String("a", 2), vx.String("b", 2)
	switch vx.Choose("f", 2) {
	case 0:
		n := vx.Choose("n", 4)
		var elems []string
		for i := 0; i < n; i++ {
			elems = append(elems, vx.String("e", 2))
		}
		vxWantStr(vxS("join", types.NewStringList(types.DefaultTypeAdapter, elems), vxStr(b)), strings.Join(elems, b), "join")
	case 1:
		n := vx.Int64("n")
		vx.Assume(n >= 0 && n <= 4)
		vxWantStr(vxS("repeat", vxStr(a), vxInt(n)), strings.Repeat(a, int(n)), "repeat")
	}
}

// ---- strconv
func VX_C10_ParseInt() {
	s := vx.String("s", vxN(3, 4))
	base := []int64{0, 2, 8, 10, 16, 36}[vx.Choose("base", 6)]
	bits := []int64{0, 8, 16, 32, 64}[vx.Choose("bits", 5)]
	i, err := strconv.ParseInt(s, int(base), int(bits))
	got := vxS("parseInt", vxStr(s), vxInt(base), vxInt(bits))
	if err != nil {
		vx.Reach("error")
		vxWantErr(got, err, "parseInt")
		return
	}
	vx.Reach("ok")
	v, ok := got.(types.Int)
	vx.Assert(ok && int64(v) == i, "parseInt: wrong result")
}

func VX_C10_ParseUint() {
	s := vx.String("s", vxN(3, 4))
	base := []int64{0, 2, 8, 10, 16, 36}[vx.Choose("base", 6)]
	bits := []int64{0, 8, 16, 32, 64}[vx.Choose("bits", 5)]
	u, err := strconv.ParseUint(s, int(base), int(bits))
	got := vxS("parseUint", vxStr(s), vxInt(base), vxInt(bits))
	if err != nil {
		vxWantErr(got, err, "parseUint")
		return
	}
	v, ok := got.(types.Uint)
	vx.Assert(ok && uint64(v) == u, "parseUint: wrong result")
}

func VX_C10_Atoi() {
	s := vx.String("s", vxN(4, 5))
	i, err := strconv.Atoi(s)
	got := vxS("atoi", vxStr(s))
	if err != nil {
		vxWantErr(got, err, "atoi")
		return
	}
	v, ok := got.(types.Int)
	vx.Assert(ok && int(v) == i, "atoi: wrong result")
}

func VX_C10_ParseBool() {
	s := vx.String("s", 5)
	b, err := strconv.ParseBool(s)
	got := vxS("parseBool", vxStr(s))
	if err != nil {
		vxWantErr(got, err, "parseBool")
		return
	}
	vxWantBool(got, b, "parseBool")
}

func VX_C10_FormatInt() {
	i := vx.Int64("i")
	if !vx.Thorough() {
		vx.Assume(i >= -(1<<16) && i < 1<<16)
	}
	switch vx.Choose("f", 2) {
	case 0:
		base := []int64{2, 10, 16, 36}[vx.Choose("base", 4)]
		vxWantStr(vxS("formatInt", vxInt(i), vxInt(base)), strconv.FormatInt(i, int(base)), "formatInt")
	case 1:
		vxWantStr(vxS("itoa", vxInt(i)), strconv.Itoa(int(i)), "itoa")
	}
}

func VX_C10_FormatUint() {
	u := vx.Uint64("u")
	if !vx.Thorough() {
		vx.Assume(u < 1<<14 || u >= ^uint64(0)-2)
	}
	base := []int64{2, 10, 16, 36}[vx.Choose("base", 4)]
	vxWantStr(vxS("formatUint", types.Uint(u), vxInt(base)), strconv.FormatUint(u, int(base)), "formatUint")
}

func VX_C10_Append() {
	p := vx.String("p", 2)
	b := vx.Bool("b")
	i := vx.Int64("i")
	vx.Assume(i >= -1000 && i <= 100000)
	u := vx.Uint64("u")
	vx.Assume(u <= 100000)
	pb := []byte(p)
	switch vx.Choose("f", 6) {
	case 0:
		vxWantBytes(vxS("appendBool", types.Bytes(p), types.Bool(b)), strconv.AppendBool(pb, b), "appendBool")
	case 1:
		vxWantStr(vxS("appendBool", vxStr(p), types.Bool(b)), string(strconv.AppendBool(pb, b)), "appendBool")
	case 2:
		vxWantBytes(vxS("appendInt", types.Bytes(p), vxInt(i), vxInt(10)), strconv.AppendInt(pb, i, 10), "appendInt")
	case 3:
		vxWantStr(vxS("appendInt", vxStr(p), vxInt(i), vxInt(16)), string(strconv.AppendInt(pb, i, 16)), "appendInt")
	case 4:
		vxWantBytes(vxS("appendUint", types.Bytes(p), types.Uint(u), vxInt(10)), strconv.AppendUint(pb, u, 10), "appendUint")
	case 5:
		vxWantStr(vxS("appendUint", vxStr(p), types.Uint(u), vxInt(16)), string(strconv.AppendUint(pb, u, 16)), "appendUint")
	}
}

func VX_C10_FormatBool() {
	b := vx.Bool("b")
	vxWantStr(vxS("formatBool", types.Bool(b)), strconv.FormatBool(b), "formatBool")
}

func VX_C10_Quote() {
	s := vx.String("s", vxN(2, 3))
	switch vx.Choose("f", 4) {
	case 0:
		vxWantStr(vxS("quote", vxStr(s)), strconv.Quote(s), "quote")
	case 1:
		vxWantStr(vxS("quoteToASCII", vxStr(s)), strconv.QuoteToASCII(s), "quoteToASCII")
	case 2:
		vxWantStr(vxS("quoteToGraphic", vxStr(s)), strconv.QuoteToGraphic(s), "quoteToGraphic")
	case 3:
		vxWantBool(vxS("canBackquote", vxStr(s)), strconv.CanBackquote(s), "canBackquote")
	}
}

func VX_C10_Unquote() {
	s := vx.String("s", vxN(4, 5))
	switch vx.Choose("f", 2) {
	case 0:
		u, err := strconv.Unquote(s)
		got := vxS("unquote", vxStr(s))
		if err != nil {
			vxWantErr(got, err, "unquote")
			return
		}
		vxWantStr(got, u, "unquote")
	case 1:
		u, err := strconv.QuotedPrefix(s)
		got := vxS("quotedPrefix", vxStr(s))
		if err != nil {
			vxWantErr(got, err, "quotedPrefix")
			return
		}
		vxWantStr(got, u, "quotedPrefix")
	}
}

// ---- functions taking a rune as a one-character string
func VX_C10_Rune() {
	s := vx.StringN("s", 1+vx.Choose("n", 2))
	if len(s) == 2 {
		vx.Assume(s[0] >= 0xc0) // a multi-byte rune (or an invalid encoding)
	}
	p := "p"
	r := []rune(s)[0]
	switch vx.Choose("f", 11) {
	case 0:
		vxWantStr(vxS("quoteRune", vxStr(s)), strconv.QuoteRune(r), "quoteRune")
	case 1:
		vxWantStr(vxS("quoteRuneToASCII", vxStr(s)), strconv.QuoteRuneToASCII(r), "quoteRuneToASCII")
	case 2:
		vxWantStr(vxS("quoteRuneToGraphic", vxStr(s)), strconv.QuoteRuneToGraphic(r), "quoteRuneToGraphic")
	case 3:
		vxWantBool(vxS("isGraphic", vxStr(s)), strconv.IsGraphic(r), "isGraphic")
	case 4:
		vxWantBool(vxS("isPrint", vxStr(s)), strconv.IsPrint(r), "isPrint")
	case 5:
		vxWantBytes(vxS("appendQuoteRune", types.Bytes(p), vxStr(s)), strconv.AppendQuoteRune([]byte(p), r), "appendQuoteRune")
	case 6:
		vxWantStr(vxS("appendQuoteRune", vxStr(p), vxStr(s)), string(strconv.AppendQuoteRune([]byte(p), r)), "appendQuoteRune")
	case 7:
		vxWantBytes(vxS("appendQuoteRuneToASCII", types.Bytes(p), vxStr(s)), strconv.AppendQuoteRuneToASCII([]byte(p), r), "appendQuoteRuneToASCII")
	case 8:
		vxWantStr(vxS("appendQuoteRuneToASCII", vxStr(p), vxStr(s)), string(strconv.AppendQuoteRuneToASCII([]byte(p), r)), "appendQuoteRuneToASCII")
	case 9:
		vxWantBytes(vxS("appendQuoteRuneToGraphic", types.Bytes(p), vxStr(s)), strconv.AppendQuoteRuneToGraphic([]byte(p), r), "appendQuoteRuneToGraphic")
	case 10:
		vxWantStr(vxS("appendQuoteRuneToGraphic", vxStr(p), vxStr(s)), string(strconv.AppendQuoteRuneToGraphic([]byte(p), r)), "appendQuoteRuneToGraphic")
	}
}

func VX_C10_ByteClass() {
	b := vx.StringN("b", 1)
	switch vx.Choose("f", 2) {
	case 0:
		vxWantBool(vxS("isGraphic", types.Bytes(b)), strconv.IsGraphic(rune(b[0])), "isGraphic(bytes)")
	case 1:
		vxWantBool(vxS("isPrint", types.Bytes(b)), strconv.IsPrint(rune(b[0])), "isPrint(bytes)")
	}
}

// Results of append functions must not share memory with their argument: the
// same value can be appended to twice in one expression.
func VX_C10_AppendAlias() {
	spare := make([]byte, 1, 64)
	spare[0] = vx.Uint8("p")
	base := types.Bytes(spare)
	f := vx.Choose("f", 8)
	app := func(k int) ref.Val {
		switch f {
		case 0:
			return vxS("appendBool", base, types.Bool(k == 0))
		case 1:
			return vxS("appendInt", base, vxInt(int64(k)), vxInt(10))
		case 2:
			return vxS("appendUint", base, types.Uint(k), vxInt(10))
		case 3:
			return vxS("appendQuote", base, vxStr(string(rune('a'+k))))
		case 4:
			return vxS("appendQuoteToASCII", base, vxStr(string(rune('a'+k))))
		case 5:
			return vxS("appendQuoteToGraphic", base, vxStr(string(rune('a'+k))))
		case 6:
			return vxS("appendQuoteRune", base, vxStr(string(rune('a'+k))))
		default:
			return vxS("appendFloat", base, types.Double(k), vxStr("f"), vxInt(0), vxInt(64))
		}
	}
	first, ok := app(0).(types.Bytes)
	vx.Assert(ok, "append: result is not bytes")
	before := string([]byte(first))
	app(1)
	vx.Assert(string([]byte(first)) == before, "append: a later append to the same value changed an earlier result")
	vx.Assert(len(base) == 1, "append: the argument changed")
}

func VX_C10_AppendQuote() {
	s, p := vx.String("s", vxN(1, 2)), vx.String("p", 1)
	switch vx.Choose("f", 6) {
	case 0:
		vxWantBytes(vxS("appendQuote", types.Bytes(p), vxStr(s)), strconv.AppendQuote([]byte(p), s), "appendQuote")
	case 1:
		vxWantStr(vxS("appendQuote", vxStr(p), vxStr(s)), string(strconv.AppendQuote([]byte(p), s)), "appendQuote")
	case 2:
		vxWantBytes(vxS("appendQuoteToASCII", types.Bytes(p), vxStr(s)), strconv.AppendQuoteToASCII([]byte(p), s), "appendQuoteToASCII")
	case 3:
		vxWantStr(vxS("appendQuoteToASCII", vxStr(p), vxStr(s)), string(strconv.AppendQuoteToASCII([]byte(p), s)), "appendQuoteToASCII")
	case 4:
		vxWantBytes(vxS("appendQuoteToGraphic", types.Bytes(p), vxStr(s)), strconv.AppendQuoteToGraphic([]byte(p), s), "appendQuoteToGraphic")
	case 5:
		vxWantStr(vxS("appendQuoteToGraphic", vxStr(p), vxStr(s)), string(strconv.AppendQuoteToGraphic([]byte(p), s)), "appendQuoteToGraphic")
	}
}

// The number is concrete here: only the format, precision and size vary.
func VX_C10_Float() {
	x := []float64{1.5, -0.25, 1e21, 123456789.125}[vx.Choose("x", 4)]
	verb := []string{"e", "E", "f", "g", "G"}[vx.Choose("fmt", 5)]
	prec := vx.Int64("prec")
	vx.Assume(prec >= -1 && prec <= 3)
	bits := []int64{32, 64}[vx.Choose("bits", 2)]
	switch vx.Choose("f", 3) {
	case 0:
		vxWantStr(vxS("formatFloat", types.Double(x), vxStr(verb), vxInt(prec), vxInt(bits)), strconv.FormatFloat(x, verb[0], int(prec), int(bits)), "formatFloat")
	case 1:
		vxWantBytes(vxS("appendFloat", types.Bytes("p"), types.Double(x), vxStr(verb), vxInt(prec), vxInt(bits)), strconv.AppendFloat([]byte("p"), x, verb[0], int(prec), int(bits)), "appendFloat")
	case 2:
		vxWantStr(vxS("appendFloat", vxStr("p"), types.Double(x), vxStr(verb), vxInt(prec), vxInt(bits)), string(strconv.AppendFloat([]byte("p"), x, verb[0], int(prec), int(bits))), "appendFloat")
	}
}

func VX_C10_ParseFloat() {
	s := vx.String("s", vxN(2, 3))
	bits := []int64{32, 64}[vx.Choose("bits", 2)]
	f, err := strconv.ParseFloat(s, int(bits))
	got := vxS("parseFloat", vxStr(s), vxInt(bits))
	if err != nil {
		vxWantErr(got, err, "parseFloat")
		return
	}
	v, ok := got.(types.Double)
	vx.Assert(ok && (float64(v) == f || (f != f && float64(v) != float64(v))), "parseFloat: wrong result")
}

func VX_C10_UnquoteChar() {
	s := vx.String("s", vxN(3, 4))
	q := []string{"'", "\"", "a"}[vx.Choose("q", 3)]
	r, b, t, err := strconv.UnquoteChar(s, q[0])
	got := vxS("unquoteChar", vxStr(s), vxStr(q))
	if err != nil {
		vxWantErr(got, err, "unquoteChar")
		return
	}
	l, ok := got.(traits.Lister)
	vx.Assert(ok, "unquoteChar: result is not a list")
	vxWantStr(l.Get(types.Int(0)), string(r), "unquoteChar rune")
	vxWantBool(l.Get(types.Int(1)), b, "unquoteChar multibyte")
	vxWantStr(l.Get(types.Int(2)), t, "unquoteChar tail")
}

func VX_C10_Title() {
	s := vx.String("s", vxN(1, 2))
	for i := 0; i < len(s); i++ {
		vx.Assume(s[i] >= ' ' && s[i] < 0x7f)
	}
	vxWantStr(vxS("title", vxStr(s)), cases.Title(language.English).String(s), "title")
}
