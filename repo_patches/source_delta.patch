From add32c9c47c2d46f9d2895a597d2f9b5ffa46566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:09 +0000
Subject: [PATCH 01/43] fix: evaluate a definition only once when concurrent
 evaluations overlap

LocalValue.do looked up the cache before entering singleflight. A goroutine
preempted between the two steps entered singleflight after the first call had
finished (and had been forgotten) and evaluated the definition again.
---
 grpc/federation/cel.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index f884a0c..e2993f1 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -379,6 +379,14 @@ func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
 	}
 	v.sgCache.mu.RUnlock()
 	ret, err, _ := v.sg.Do(name, func() (any, error) {
+		// Another goroutine may have completed the evaluation between the cache lookup above and this call.
+		// Since singleflight forgets a completed call, the cache must be looked up again so as not to evaluate twice.
+		v.sgCache.mu.RLock()
+		cache, exists := v.sgCache.resultMap[name]
+		v.sgCache.mu.RUnlock()
+		if exists {
+			return cache.result, cache.err
+		}
 		ret, err := cb()
 		v.sgCache.mu.Lock()
 		v.sgCache.resultMap[name] = &singleflightCacheResult{
-- 
2.43.0


From 1fcfbd8206c1323b55dae2f5ee0139c60ddfc714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 02/43] fix: accept bytes in indexByte, lastIndexByte,
 isGraphic and isPrint

The bytes overloads asserted that the Go value of a CEL bytes value is a
single byte, so every call to them failed.
---
 grpc/federation/cel/strings.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 8b7e164..1c3e962 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -178,7 +178,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("indexByte"),
 			OverloadFunc(createStringsID("indexByte_string_byte_int"), []*cel.Type{cel.StringType, cel.BytesType}, cel.IntType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Int(strings.IndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().(byte)))
+					return types.Int(strings.IndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().([]byte)[0]))
 				},
 			),
 			OverloadFunc(createStringsID("indexByte_string_string_int"), []*cel.Type{cel.StringType, cel.StringType}, cel.IntType,
@@ -229,7 +229,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("lastIndexByte"),
 			OverloadFunc(createStringsID("lastIndexByte_string_byte_int"), []*cel.Type{cel.StringType, cel.BytesType}, cel.IntType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Int(strings.LastIndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().(byte)))
+					return types.Int(strings.LastIndexByte(args[0].(types.String).Value().(string), args[1].(types.Bytes).Value().([]byte)[0]))
 				},
 			),
 			OverloadFunc(createStringsID("lastIndexByte_string_string_int"), []*cel.Type{cel.StringType, cel.StringType}, cel.IntType,
@@ -594,7 +594,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("isGraphic"),
 			OverloadFunc(createStringsID("isGraphic_byte_bool"), []*cel.Type{cel.BytesType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsGraphic(rune(args[0].(types.Bytes).Value().(byte))))
+					return types.Bool(strconv.IsGraphic(rune(args[0].(types.Bytes).Value().([]byte)[0])))
 				},
 			),
 			OverloadFunc(createStringsID("isGraphic_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
@@ -607,7 +607,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("isPrint"),
 			OverloadFunc(createStringsID("isPrint_byte_bool"), []*cel.Type{cel.BytesType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsPrint(rune(args[0].(types.Bytes).Value().(byte))))
+					return types.Bool(strconv.IsPrint(rune(args[0].(types.Bytes).Value().([]byte)[0])))
 				},
 			),
 			OverloadFunc(createStringsID("isPrint_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
-- 
2.43.0


From 88a937907c82349eaf1c03f12060833518795cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 03/43] fix: take the first rune, not the first byte, in the
 CEL rune functions
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

quoteRune('あ') and the other functions taking a rune as a one-character
string interpreted the first byte of its UTF-8 encoding as the rune.
---
 grpc/federation/cel/strings.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 1c3e962..4ba7587 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -454,12 +454,12 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRune"),
 			OverloadFunc(createStringsID("appendQuoteRune_bytes_int_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRune(args[0].(types.Bytes).Value().([]byte), rune(args[1].(types.String).Value().(string)[0])))
+					return types.Bytes(strconv.AppendQuoteRune(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRune_string_int_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.AppendQuoteRune([]byte(args[0].(types.String).Value().(string)), rune(args[1].(types.String).Value().(string)[0])))
+					return types.String(strconv.AppendQuoteRune([]byte(args[0].(types.String).Value().(string)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -467,12 +467,12 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToASCII"),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToASCII(args[0].(types.Bytes).Value().([]byte), rune(args[1].(types.String).Value().(string)[0])))
+					return types.Bytes(strconv.AppendQuoteRuneToASCII(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.AppendQuoteRuneToASCII([]byte(args[0].(types.String).Value().(string)), rune(args[1].(types.String).Value().(string)[0])))
+					return types.String(strconv.AppendQuoteRuneToASCII([]byte(args[0].(types.String).Value().(string)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -480,12 +480,12 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToGraphic"),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToGraphic(args[0].(types.Bytes).Value().([]byte), rune(args[1].(types.String).Value().(string)[0])))
+					return types.Bytes(strconv.AppendQuoteRuneToGraphic(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.AppendQuoteRuneToGraphic([]byte(args[0].(types.String).Value().(string)), rune(args[1].(types.String).Value().(string)[0])))
+					return types.String(strconv.AppendQuoteRuneToGraphic([]byte(args[0].(types.String).Value().(string)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -599,7 +599,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			),
 			OverloadFunc(createStringsID("isGraphic_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsGraphic(rune(args[0].(types.String).Value().(string)[0])))
+					return types.Bool(strconv.IsGraphic([]rune(args[0].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -612,7 +612,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			),
 			OverloadFunc(createStringsID("isPrint_string_bool"), []*cel.Type{cel.StringType}, cel.BoolType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bool(strconv.IsPrint(rune(args[0].(types.String).Value().(string)[0])))
+					return types.Bool(strconv.IsPrint([]rune(args[0].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -696,7 +696,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("quoteRune"),
 			OverloadFunc(createStringsID("quoteRune_string_string"), []*cel.Type{cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.QuoteRune(rune(args[0].(types.String).Value().(string)[0])))
+					return types.String(strconv.QuoteRune([]rune(args[0].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -704,7 +704,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("quoteRuneToASCII"),
 			OverloadFunc(createStringsID("quoteRuneToASCII_string_string"), []*cel.Type{cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.QuoteRuneToASCII(rune(args[0].(types.String).Value().(string)[0])))
+					return types.String(strconv.QuoteRuneToASCII([]rune(args[0].(types.String).Value().(string))[0]))
 				},
 			),
 		),
@@ -712,7 +712,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("quoteRuneToGraphic"),
 			OverloadFunc(createStringsID("quoteRuneToGraphic_string_string"), []*cel.Type{cel.StringType}, cel.StringType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.String(strconv.QuoteRuneToGraphic(rune(args[0].(types.String).Value().(string)[0])))
+					return types.String(strconv.QuoteRuneToGraphic([]rune(args[0].(types.String).Value().(string))[0]))
 				},
 			),
 		),
-- 
2.43.0


From 99de2b973b063bd947bff6ddd30fb5e29d96f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:28 +0000
Subject: [PATCH 04/43] fix: do not write into the argument of the CEL append
 functions

strconv.AppendX reuses the spare capacity of the slice, so appending twice
to the same bytes value overwrote the first result.
---
 grpc/federation/cel/strings.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 4ba7587..6f6d983 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -1,6 +1,7 @@
 package cel
 
 import (
+	"bytes"
 	"context"
 	"strconv"
 	"strings"
@@ -402,7 +403,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendBool"),
 			OverloadFunc(createStringsID("appendBool_bytes_bool_bytes"), []*cel.Type{cel.BytesType, cel.BoolType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendBool(args[0].(types.Bytes).Value().([]byte), args[1].(types.Bool).Value().(bool)))
+					return types.Bytes(strconv.AppendBool(bytes.Clone(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Bool).Value().(bool)))
 				},
 			),
 			OverloadFunc(createStringsID("appendBool_string_bool_string"), []*cel.Type{cel.StringType, cel.BoolType}, cel.StringType,
@@ -415,7 +416,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendFloat"),
 			OverloadFunc(createStringsID("appendFloat_bytes_float64_string_int_int_bytes"), []*cel.Type{cel.BytesType, cel.DoubleType, cel.StringType, cel.IntType, cel.IntType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendFloat(args[0].(types.Bytes).Value().([]byte), args[1].(types.Double).Value().(float64), args[2].(types.String).Value().(string)[0], int(args[3].(types.Int).Value().(int64)), int(args[4].(types.Int).Value().(int64))))
+					return types.Bytes(strconv.AppendFloat(bytes.Clone(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Double).Value().(float64), args[2].(types.String).Value().(string)[0], int(args[3].(types.Int).Value().(int64)), int(args[4].(types.Int).Value().(int64))))
 				},
 			),
 			OverloadFunc(createStringsID("appendFloat_string_float64_int_string_int_string"), []*cel.Type{cel.StringType, cel.DoubleType, cel.StringType, cel.IntType, cel.IntType}, cel.StringType,
@@ -428,7 +429,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendInt"),
 			OverloadFunc(createStringsID("appendInt_bytes_int_int_bytes"), []*cel.Type{cel.BytesType, cel.IntType, cel.IntType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendInt(args[0].(types.Bytes).Value().([]byte), args[1].(types.Int).Value().(int64), int(args[2].(types.Int).Value().(int64))))
+					return types.Bytes(strconv.AppendInt(bytes.Clone(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Int).Value().(int64), int(args[2].(types.Int).Value().(int64))))
 				},
 			),
 			OverloadFunc(createStringsID("appendInt_string_int_int_string"), []*cel.Type{cel.StringType, cel.IntType, cel.IntType}, cel.StringType,
@@ -441,7 +442,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuote"),
 			OverloadFunc(createStringsID("appendQuote_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuote(args[0].(types.Bytes).Value().([]byte), args[1].(types.String).Value().(string)))
+					return types.Bytes(strconv.AppendQuote(bytes.Clone(args[0].(types.Bytes).Value().([]byte)), args[1].(types.String).Value().(string)))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuote_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -454,7 +455,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRune"),
 			OverloadFunc(createStringsID("appendQuoteRune_bytes_int_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRune(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
+					return types.Bytes(strconv.AppendQuoteRune(bytes.Clone(args[0].(types.Bytes).Value().([]byte)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRune_string_int_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -467,7 +468,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToASCII"),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToASCII(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
+					return types.Bytes(strconv.AppendQuoteRuneToASCII(bytes.Clone(args[0].(types.Bytes).Value().([]byte)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToASCII_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -480,7 +481,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteRuneToGraphic"),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteRuneToGraphic(args[0].(types.Bytes).Value().([]byte), []rune(args[1].(types.String).Value().(string))[0]))
+					return types.Bytes(strconv.AppendQuoteRuneToGraphic(bytes.Clone(args[0].(types.Bytes).Value().([]byte)), []rune(args[1].(types.String).Value().(string))[0]))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteRuneToGraphic_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -493,7 +494,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteToASCII"),
 			OverloadFunc(createStringsID("appendQuoteToASCII_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteToASCII(args[0].(types.Bytes).Value().([]byte), args[1].(types.String).Value().(string)))
+					return types.Bytes(strconv.AppendQuoteToASCII(bytes.Clone(args[0].(types.Bytes).Value().([]byte)), args[1].(types.String).Value().(string)))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteToASCII_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -506,7 +507,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendQuoteToGraphic"),
 			OverloadFunc(createStringsID("appendQuoteToGraphic_bytes_string_bytes"), []*cel.Type{cel.BytesType, cel.StringType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendQuoteToGraphic(args[0].(types.Bytes).Value().([]byte), args[1].(types.String).Value().(string)))
+					return types.Bytes(strconv.AppendQuoteToGraphic(bytes.Clone(args[0].(types.Bytes).Value().([]byte)), args[1].(types.String).Value().(string)))
 				},
 			),
 			OverloadFunc(createStringsID("appendQuoteToGraphic_string_string_string"), []*cel.Type{cel.StringType, cel.StringType}, cel.StringType,
@@ -519,7 +520,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 			createStringsName("appendUint"),
 			OverloadFunc(createStringsID("appendUint_bytes_uint_int_bytes"), []*cel.Type{cel.BytesType, cel.UintType, cel.IntType}, cel.BytesType,
 				func(_ context.Context, args ...ref.Val) ref.Val {
-					return types.Bytes(strconv.AppendUint(args[0].(types.Bytes).Value().([]byte), args[1].(types.Uint).Value().(uint64), int(args[2].(types.Int).Value().(int64))))
+					return types.Bytes(strconv.AppendUint(bytes.Clone(args[0].(types.Bytes).Value().([]byte)), args[1].(types.Uint).Value().(uint64), int(args[2].(types.Int).Value().(int64))))
 				},
 			),
 			OverloadFunc(createStringsID("appendUint_string_uint_int_string"), []*cel.Type{cel.StringType, cel.UintType, cel.IntType}, cel.StringType,
-- 
2.43.0


From e750b6d71ae3cafe6d31e5e5fc37ad7b4a1eb272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 05/43] fix: evaluate expressions that compare with null and
 use a macro

---
 grpc/federation/cel.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index e2993f1..35d0a4e 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -11,12 +11,10 @@ import (
 	"sync"
 
 	"github.com/google/cel-go/cel"
-	celast "github.com/google/cel-go/common/ast"
 	"github.com/google/cel-go/common/operators"
 	celtypes "github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
 	celext "github.com/google/cel-go/ext"
-	"github.com/google/cel-go/parser"
 	"golang.org/x/sync/singleflight"
 	exprpb "google.golang.org/genproto/googleapis/api/expr/v1alpha1"
 	"google.golang.org/genproto/googleapis/rpc/code"
@@ -795,18 +793,8 @@ func createCELAst(req *EvalCELRequest, env *cel.Env) (*cel.Ast, error) {
 		return nil, err
 	}
 	if newComparingNullResolver().Resolve(checkedExpr) {
-		ca, err := celast.ToAST(checkedExpr)
-		if err != nil {
-			return nil, err
-		}
-		expr, err = parser.Unparse(ca.Expr(), ca.SourceInfo())
-		if err != nil {
-			return nil, err
-		}
-		ast, iss = env.Compile(expr)
-		if iss.Err() != nil {
-			return nil, iss.Err()
-		}
+		// Use the rewritten expression as it is. It cannot be converted back to source text if it contains a macro call.
+		return cel.CheckedExprToAstWithSource(checkedExpr, ast.Source())
 	}
 	return ast, nil
 }
-- 
2.43.0


From ae5f8f7e09136c3cb909e470f6de87abd77f4780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 06/43] fix: rewrite comparisons with null in the keys of map
 literals

---
 grpc/federation/cel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 35d0a4e..87c5f30 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -1055,6 +1055,7 @@ func (v *exprVisitor) visitList(e *exprpb.Expr) {
 func (v *exprVisitor) visitStruct(e *exprpb.Expr) {
 	msg := e.GetStructExpr()
 	for _, ent := range msg.GetEntries() {
+		v.visit(ent.GetMapKey())
 		v.visit(ent.GetValue())
 	}
 }
-- 
2.43.0


From bcf768ac2a618221480e63f71a66c215f8eb9949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:49 +0000
Subject: [PATCH 07/43] fix: leave $ in string literals of expressions as it is

---
 grpc/federation/cel.go | 44 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 87c5f30..d06172a 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -782,7 +782,7 @@ func createCELProgram(ctx context.Context, req *EvalCELRequest) (cel.Program, er
 }
 
 func createCELAst(req *EvalCELRequest, env *cel.Env) (*cel.Ast, error) {
-	expr := strings.Replace(req.Expr, "$", MessageArgumentVariableName, -1)
+	expr := replaceMessageArgument(req.Expr)
 	ast, iss := env.Compile(expr)
 	if iss.Err() != nil {
 		return nil, iss.Err()
@@ -799,6 +799,48 @@ func createCELAst(req *EvalCELRequest, env *cel.Env) (*cel.Ast, error) {
 	return ast, nil
 }
 
+// replaceMessageArgument replaces "$" with the variable name of the message argument.
+// "$" in string literals and comments is left as it is.
+func replaceMessageArgument(expr string) string {
+	var sb strings.Builder
+	for i := 0; i < len(expr); {
+		size := 1
+		switch {
+		case expr[i] == '"' || expr[i] == '\'':
+			size = stringLiteralSize(expr[i:], i > 0 && (expr[i-1] == 'r' || expr[i-1] == 'R'))
+		case strings.HasPrefix(expr[i:], "//"):
+			if size = strings.IndexByte(expr[i:], '\n'); size < 0 {
+				size = len(expr) - i
+			}
+		case expr[i] == '$':
+			sb.WriteString(MessageArgumentVariableName)
+			i++
+			continue
+		}
+		sb.WriteString(expr[i : i+size])
+		i += size
+	}
+	return sb.String()
+}
+
+// stringLiteralSize returns the size of the string literal at the head of expr, which starts with a quote.
+func stringLiteralSize(expr string, raw bool) int {
+	quote := expr[:1]
+	if triple := strings.Repeat(quote, 3); strings.HasPrefix(expr, triple) {
+		quote = triple
+	}
+	for i := len(quote); i < len(expr); i++ {
+		if expr[i] == '\\' && !raw {
+			i++
+			continue
+		}
+		if strings.HasPrefix(expr[i:], quote) {
+			return i + len(quote)
+		}
+	}
+	return len(expr)
+}
+
 func getCELProgramCache(ctx context.Context, cacheIndex int) cel.Program {
 	cache := getCELCacheMap(ctx).get(cacheIndex)
 	if cache == nil {
-- 
2.43.0


From 42bfb5b31eb98706b9db36041a1d3f25d34306f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:16 +0000
Subject: [PATCH 08/43] fix: stop waiting for the next retry when the context
 is done

---
 grpc/federation/lib.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index 3a58c24..208eb86 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -94,6 +94,9 @@ type RetryParam[T any] struct {
 }
 
 func WithRetry[T any](ctx context.Context, param *RetryParam[T]) (*T, error) {
+	// BackOff hides the context given to BackOffWithContext. Without it, waiting for the next attempt does not end when ctx is done.
+	b := backoff.WithContext(param.BackOff, ctx)
+
 	var res *T
 	if err := backoff.Retry(func() (err error) {
 		result, err := param.Body()
@@ -115,7 +118,7 @@ func WithRetry[T any](ctx context.Context, param *RetryParam[T]) (*T, error) {
 		}
 		res = result
 		return nil
-	}, param.BackOff); err != nil {
+	}, b); err != nil {
 		return nil, err
 	}
 	return res, nil
-- 
2.43.0


From 54d5c769941482881a249010fdde4cf123a3dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 09/43] fix: do not share spare capacity of log attributes

---
 grpc/federation/error.go       | 3 ++-
 grpc/federation/log/context.go | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/grpc/federation/error.go b/grpc/federation/error.go
index 466cbd8..081d981 100644
--- a/grpc/federation/error.go
+++ b/grpc/federation/error.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"runtime/debug"
+	"slices"
 	"strings"
 
 	"golang.org/x/sync/errgroup"
@@ -78,7 +79,7 @@ func OutputErrorLog(ctx context.Context, err error) {
 	var errWithAttrs *ErrorWithLogAttrs
 	if errors.As(err, &errWithAttrs) {
 		logLevel = errWithAttrs.level
-		logArgs = errWithAttrs.attrs
+		logArgs = slices.Clip(errWithAttrs.attrs)
 	}
 	if status, ok := grpcstatus.FromError(err); ok {
 		logArgs = append(logArgs, slog.Group("grpc_status",
diff --git a/grpc/federation/log/context.go b/grpc/federation/log/context.go
index 32f00c9..ee2c2ad 100644
--- a/grpc/federation/log/context.go
+++ b/grpc/federation/log/context.go
@@ -3,6 +3,7 @@ package log
 import (
 	"context"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -17,7 +18,7 @@ type loggerRef struct {
 }
 
 func WithLogger(ctx context.Context, logger *slog.Logger, attrs ...slog.Attr) context.Context {
-	return context.WithValue(ctx, loggerKey{}, &loggerRef{logger: logger, attrs: attrs})
+	return context.WithValue(ctx, loggerKey{}, &loggerRef{logger: logger, attrs: slices.Clip(attrs)})
 }
 
 func Logger(ctx context.Context) *slog.Logger {
@@ -41,7 +42,8 @@ func Attrs(ctx context.Context) []slog.Attr {
 
 	ref.mu.RLock()
 	defer ref.mu.RUnlock()
-	return ref.attrs
+	// The returned value must not share spare capacity with attributes added later.
+	return slices.Clip(ref.attrs)
 }
 
 // SetLogger set logger instance for current context.
-- 
2.43.0


From 2db0744af8cbc2dc158b76bd894010c858c0f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:31 +0000
Subject: [PATCH 10/43] fix: do not panic on an absent value when no type or a
 message is requested

---
 grpc/federation/cel.go        | 5 +++--
 grpc/federation/validation.go | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index d06172a..6c54451 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -743,9 +743,10 @@ func EvalCEL(ctx context.Context, req *EvalCELRequest) (any, error) {
 	opt, ok := out.(*celtypes.Optional)
 	if ok {
 		if opt == celtypes.OptionalNone {
-			return reflect.Zero(req.OutType).Interface(), nil
+			out = celtypes.NullValue
+		} else {
+			out = opt.GetValue()
 		}
-		out = opt.GetValue()
 	}
 	if _, ok := out.(celtypes.Null); ok {
 		if req.OutType == nil {
diff --git a/grpc/federation/validation.go b/grpc/federation/validation.go
index 9222c42..adc1a3f 100644
--- a/grpc/federation/validation.go
+++ b/grpc/federation/validation.go
@@ -188,5 +188,10 @@ func CustomMessage(ctx context.Context, param *CustomMessageParam) protoadapt.Me
 		)
 		return nil
 	}
-	return msg.(protoadapt.MessageV1)
+	ret, ok := msg.(protoadapt.MessageV1)
+	if !ok {
+		// The message is null or not a message.
+		return nil
+	}
+	return ret
 }
-- 
2.43.0


From 41120c094f98b1f616c88105b561b69d2c26bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 11/43] fix: keep % in the error messages of CEL functions and
 plugins

The text of an error was used as a format, so that messages with a percent
sign, such as those of invalid URL escapes, were garbled.
---
 grpc/federation/cel/plugin.go  |  10 ++--
 grpc/federation/cel/strings.go |  18 +++---
 grpc/federation/cel/time.go    | 102 ++++++++++++++++-----------------
 grpc/federation/cel/url.go     |  18 +++---
 grpc/federation/cel/uuid.go    |   4 +-
 5 files changed, 76 insertions(+), 76 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index a3a2203..4e7c988 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -319,7 +319,7 @@ func (i *CELPluginInstance) Call(ctx context.Context, fn *CELFunction, md metada
 	defer i.mu.Unlock()
 
 	if err := i.sendRequest(fn, md, args...); err != nil {
-		return types.NewErr(err.Error())
+		return types.WrapErr(err)
 	}
 	return i.recvResponse(fn)
 }
@@ -353,15 +353,15 @@ func (i *CELPluginInstance) sendRequest(fn *CELFunction, md metadata.MD, args ..
 func (i *CELPluginInstance) recvResponse(fn *CELFunction) ref.Val {
 	content, err := i.recvContent()
 	if err != nil {
-		return types.NewErr(err.Error())
+		return types.WrapErr(err)
 	}
 
 	var res plugin.CELPluginResponse
 	if err := protojson.Unmarshal([]byte(content), &res); err != nil {
-		return types.NewErr(fmt.Sprintf("grpc-federation: failed to decode response: %s", err.Error()))
+		return types.NewErr("grpc-federation: failed to decode response: %s", err.Error())
 	}
 	if res.Error != "" {
-		return types.NewErr(res.Error)
+		return types.NewErr("%s", res.Error)
 	}
 	return i.celPluginValueToRef(fn, fn.Return, res.Value)
 }
@@ -509,7 +509,7 @@ func (i *CELPluginInstance) celPluginValueToRef(fn *CELFunction, typ *cel.Type,
 	case types.DoubleKind:
 		return types.Double(v.GetDouble())
 	case types.ErrorKind:
-		return types.NewErr(v.GetString_())
+		return types.NewErr("%s", v.GetString_())
 	case types.IntKind:
 		return types.Int(v.GetInt64())
 	case types.StringKind:
diff --git a/grpc/federation/cel/strings.go b/grpc/federation/cel/strings.go
index 6f6d983..e5a6422 100644
--- a/grpc/federation/cel/strings.go
+++ b/grpc/federation/cel/strings.go
@@ -535,7 +535,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					i, err := strconv.Atoi(args[0].(types.String).Value().(string))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(i)
 				},
@@ -631,7 +631,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					b, err := strconv.ParseBool(args[0].(types.String).Value().(string))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Bool(b)
 				},
@@ -643,7 +643,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					c, err := strconv.ParseComplex(args[0].(types.String).Value().(string), int(args[1].(types.Int).Value().(int64)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.NewDynamicList(types.DefaultTypeAdapter, []ref.Val{types.Double(real(c)), types.Double(imag(c))})
 				},
@@ -655,7 +655,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					f, err := strconv.ParseFloat(args[0].(types.String).Value().(string), int(args[1].(types.Int).Value().(int64)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Double(f)
 				},
@@ -667,7 +667,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					i, err := strconv.ParseInt(args[0].(types.String).Value().(string), int(args[1].(types.Int).Value().(int64)), int(args[2].(types.Int).Value().(int64)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(i)
 				},
@@ -679,7 +679,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					u, err := strconv.ParseUint(args[0].(types.String).Value().(string), int(args[1].(types.Int).Value().(int64)), int(args[2].(types.Int).Value().(int64)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Uint(u)
 				},
@@ -739,7 +739,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					s, err := strconv.QuotedPrefix(args[0].(types.String).Value().(string))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.String(s)
 				},
@@ -751,7 +751,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					s, err := strconv.Unquote(args[0].(types.String).Value().(string))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.String(s)
 				},
@@ -763,7 +763,7 @@ func (lib *StringsLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					s, b, t, err := strconv.UnquoteChar(args[0].(types.String).Value().(string), args[1].(types.String).Value().(string)[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.NewDynamicList(types.DefaultTypeAdapter, []ref.Val{types.String(s), types.Bool(b), types.String(t)})
 				},
diff --git a/grpc/federation/cel/time.go b/grpc/federation/cel/time.go
index 958134b..cb3caac 100644
--- a/grpc/federation/cel/time.go
+++ b/grpc/federation/cel/time.go
@@ -241,7 +241,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					d, err := time.ParseDuration(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Duration{Duration: d}
 				},
@@ -253,7 +253,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Duration{
 						Duration: time.Since(v),
@@ -267,7 +267,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Duration{
 						Duration: time.Until(v),
@@ -396,7 +396,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					loc, err := time.LoadLocation(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toLocationValue(loc.String(), 0)
 				},
@@ -408,7 +408,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					loc, err := time.LoadLocationFromTZData(string(args[0].(types.String)), []byte(args[1].(types.Bytes)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toLocationValue(loc.String(), 0)
 				},
@@ -420,7 +420,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					loc, err := self.Value().(*Location).GoLocation()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.String(loc.String())
 				},
@@ -447,7 +447,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					loc, err := args[7].Value().(*Location).GoLocation()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(
 						time.Date(
@@ -478,7 +478,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					t, err := time.Parse(string(args[0].(types.String)), string(args[1].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(t)
 				},
@@ -490,11 +490,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					loc, err := args[2].Value().(*Location).GoLocation()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					t, err := time.ParseInLocation(string(args[0].(types.String)), string(args[1].(types.String)), loc)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(t)
 				},
@@ -530,7 +530,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(
 						v.Add(time.Duration(args[0].(types.Int))),
@@ -541,7 +541,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(
 						v.Add(args[0].(types.Duration).Duration),
@@ -555,7 +555,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(
 						v.AddDate(int(args[0].(types.Int)), int(args[1].(types.Int)), int(args[2].(types.Int))),
@@ -569,11 +569,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					a0, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Bool(v.After(a0))
 				},
@@ -585,7 +585,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Bytes(
 						v.AppendFormat(
@@ -599,7 +599,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Bytes(
 						v.AppendFormat(
@@ -616,11 +616,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					a0, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Bool(v.Before(a0))
 				},
@@ -632,11 +632,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					a0, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.Compare(a0))
 				},
@@ -648,7 +648,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.Day())
 				},
@@ -660,11 +660,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					a0, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Bool(v.Equal(a0))
 				},
@@ -676,7 +676,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.String(v.Format(string(args[0].(types.String))))
 				},
@@ -688,7 +688,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.Hour())
 				},
@@ -700,11 +700,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					loc, err := args[0].Value().(*Location).GoLocation()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(v.In(loc))
 				},
@@ -716,7 +716,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Bool(v.IsDST())
 				},
@@ -728,7 +728,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Bool(v.IsZero())
 				},
@@ -740,7 +740,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(v.Local())
 				},
@@ -752,7 +752,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					name, offset := v.Zone()
 					return lib.toLocationValue(name, offset)
@@ -765,7 +765,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.Minute())
 				},
@@ -777,7 +777,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.Month())
 				},
@@ -789,7 +789,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.Nanosecond())
 				},
@@ -801,7 +801,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(v.Round(time.Duration(args[0].(types.Int))))
 				},
@@ -810,7 +810,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(v.Round(args[0].(types.Duration).Duration))
 				},
@@ -822,7 +822,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.Second())
 				},
@@ -834,7 +834,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.String(v.String())
 				},
@@ -846,11 +846,11 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					a0, err := lib.refToGoTimeValue(args[0])
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Duration{
 						Duration: v.Sub(a0),
@@ -864,7 +864,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(v.Truncate(time.Duration(args[0].(types.Int))))
 				},
@@ -873,7 +873,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(v.Truncate(args[0].(types.Duration).Duration))
 				},
@@ -885,7 +885,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toTimeValue(v.UTC())
 				},
@@ -897,7 +897,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.Unix())
 				},
@@ -909,7 +909,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.UnixMicro())
 				},
@@ -921,7 +921,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.UnixMilli())
 				},
@@ -933,7 +933,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.UnixNano())
 				},
@@ -945,7 +945,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.Weekday())
 				},
@@ -957,7 +957,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.Year())
 				},
@@ -969,7 +969,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
 					v, err := lib.refToGoTimeValue(self)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.Int(v.YearDay())
 				},
diff --git a/grpc/federation/cel/url.go b/grpc/federation/cel/url.go
index fe3f14b..0c4454b 100644
--- a/grpc/federation/cel/url.go
+++ b/grpc/federation/cel/url.go
@@ -123,7 +123,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 
 					result, err := url.JoinPath(base, paths...)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.String(result)
 				},
@@ -143,7 +143,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					result, err := url.PathUnescape(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.String(result)
 				},
@@ -163,7 +163,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					result, err := url.QueryUnescape(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return types.String(result)
 				},
@@ -177,7 +177,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					v, err := url.Parse(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toURLValue(*v)
 				},
@@ -189,7 +189,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					v, err := url.ParseRequestURI(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toURLValue(*v)
 				},
@@ -347,7 +347,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 					var err error
 					v.Path, err = url.JoinPath(v.Path, paths...)
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 
 					return lib.toURLValue(v)
@@ -362,7 +362,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 
 					b, err := v.MarshalBinary()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 
 					return types.Bytes(b)
@@ -377,7 +377,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 
 					u, err := v.Parse(string(args[0].(types.String)))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 
 					return lib.toURLValue(*u)
@@ -458,7 +458,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 					var u url.URL
 					err := u.UnmarshalBinary(args[0].(types.Bytes))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return lib.toURLValue(u)
 				},
diff --git a/grpc/federation/cel/uuid.go b/grpc/federation/cel/uuid.go
index 6a3efb9..f43d105 100644
--- a/grpc/federation/cel/uuid.go
+++ b/grpc/federation/cel/uuid.go
@@ -78,7 +78,7 @@ func (lib *UUIDLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, _ ...ref.Val) ref.Val {
 					id, err := uuid.NewRandom()
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return &UUID{UUID: id}
 				},
@@ -90,7 +90,7 @@ func (lib *UUIDLibrary) CompileOptions() []cel.EnvOption {
 				func(_ context.Context, args ...ref.Val) ref.Val {
 					id, err := uuid.NewRandomFromReader(args[0].(*Rand))
 					if err != nil {
-						return types.NewErr(err.Error())
+						return types.WrapErr(err)
 					}
 					return &UUID{UUID: id}
 				},
-- 
2.43.0


From fdcd679d8a4d5e930650f4d53cc5761f8ab29d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:51 +0000
Subject: [PATCH 12/43] fix: let member functions share their name with
 functions of packages

The macro of a package function also expanded calls of member functions of
the same name and dropped their receiver, so that URL.parse and Time.add
could not be used.
---
 grpc/federation/cel/bind.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/grpc/federation/cel/bind.go b/grpc/federation/cel/bind.go
index 030d404..536078c 100644
--- a/grpc/federation/cel/bind.go
+++ b/grpc/federation/cel/bind.go
@@ -26,18 +26,15 @@ func BindFunction(name string, opts ...BindFunctionOpt) []cel.EnvOption {
 	}
 	return []cel.EnvOption{
 		cel.Macros(cel.ReceiverVarArgMacro(funcName, func(mef cel.MacroExprFactory, target ast.Expr, args []ast.Expr) (ast.Expr, *cel.Error) {
-			sel := toSelectorName(target)
-			fqdn := funcName
-			if sel != "" {
-				fqdn = sel + "." + funcName
-			}
 			var argsWithCtx []ast.Expr
 			if len(args) > 0 && args[0].AsIdent() == ContextVariableName {
 				argsWithCtx = args
 			} else {
 				argsWithCtx = append([]ast.Expr{mef.NewIdent(ContextVariableName)}, args...)
 			}
-			return mef.NewCall(fqdn, argsWithCtx...), nil
+			// This macro also expands the calls of member functions of the same name.
+			// The type checker turns it into a call of the package function if target is the name of the package.
+			return mef.NewMemberCall(funcName, target, argsWithCtx...), nil
 		})),
 		cel.Function(name, celOpts...),
 	}
-- 
2.43.0


From 2f46f074189603645ab83098d13014b1090a9aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:44 +0000
Subject: [PATCH 13/43] fix: join URL paths without escaping them twice

URL.joinPath joined the decoded path as if it was a URL, so that escapes and
special characters in it changed.
---
 grpc/federation/cel/url.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/grpc/federation/cel/url.go b/grpc/federation/cel/url.go
index 0c4454b..ce7609e 100644
--- a/grpc/federation/cel/url.go
+++ b/grpc/federation/cel/url.go
@@ -344,13 +344,7 @@ func (lib *URLLibrary) CompileOptions() []cel.EnvOption {
 						paths = append(paths, string(pathElem.(types.String)))
 					}
 
-					var err error
-					v.Path, err = url.JoinPath(v.Path, paths...)
-					if err != nil {
-						return types.WrapErr(err)
-					}
-
-					return lib.toURLValue(v)
+					return lib.toURLValue(*v.JoinPath(paths...))
 				},
 			),
 		),
-- 
2.43.0


From e36242d11b700bf80390be64edbe210c832dd519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:56 +0000
Subject: [PATCH 14/43] fix: do not write into the argument of appendFormat

---
 grpc/federation/cel/time.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/cel/time.go b/grpc/federation/cel/time.go
index cb3caac..bf77dc7 100644
--- a/grpc/federation/cel/time.go
+++ b/grpc/federation/cel/time.go
@@ -1,6 +1,7 @@
 package cel
 
 import (
+	"bytes"
 	"context"
 	"time"
 
@@ -603,7 +604,7 @@ func (lib *TimeLibrary) CompileOptions() []cel.EnvOption {
 					}
 					return types.Bytes(
 						v.AppendFormat(
-							[]byte(args[0].(types.Bytes)),
+							bytes.Clone([]byte(args[0].(types.Bytes))),
 							string(args[1].(types.String)),
 						),
 					)
-- 
2.43.0


From a0b81db3ca40feb7420634f4927c35cb3fc54372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:09 +0000
Subject: [PATCH 15/43] fix: int31n rejects bounds which are not positive
 32-bit numbers

---
 grpc/federation/cel/rand.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/cel/rand.go b/grpc/federation/cel/rand.go
index dd160f5..0c9f95e 100644
--- a/grpc/federation/cel/rand.go
+++ b/grpc/federation/cel/rand.go
@@ -2,6 +2,7 @@ package cel
 
 import (
 	"context"
+	"math"
 	"math/rand"
 	"reflect"
 
@@ -173,7 +174,11 @@ func (lib *RandLibrary) CompileOptions() []cel.EnvOption {
 			"int31n",
 			MemberOverloadFunc(createRandID("int31n_rand_int"), RandType, []*cel.Type{cel.IntType}, cel.IntType,
 				func(_ context.Context, self ref.Val, args ...ref.Val) ref.Val {
-					return types.Int(self.(*Rand).Int31n(int32(args[0].(types.Int)))) //nolint:gosec
+					n := args[0].(types.Int)
+					if n <= 0 || n > math.MaxInt32 {
+						return types.NewErr("grpc.federation.rand: int31n argument must be in the range [1, %d]: %d", math.MaxInt32, n)
+					}
+					return types.Int(self.(*Rand).Int31n(int32(n))) //nolint:gosec
 				},
 			),
 		),
-- 
2.43.0


From 265ecb4b8854c4da2698b6354e14a3faeca9b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:20 +0000
Subject: [PATCH 16/43] fix: plugin arguments which do not fit into 32 bits are
 errors

---
 grpc/federation/cel_plugin.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/grpc/federation/cel_plugin.go b/grpc/federation/cel_plugin.go
index 2932231..9f5e069 100644
--- a/grpc/federation/cel_plugin.go
+++ b/grpc/federation/cel_plugin.go
@@ -60,13 +60,17 @@ func ToFloat64List(v *celplugin.CELPluginValue) ([]float64, error) {
 }
 
 func ToInt32(v *celplugin.CELPluginValue) (int32, error) {
-	return int32(v.GetInt64()), nil //nolint:gosec
+	return Int64ToInt32(v.GetInt64())
 }
 
 func ToInt32List(v *celplugin.CELPluginValue) ([]int32, error) {
 	ret := make([]int32, 0, len(v.GetList().GetValues()))
 	for _, vv := range v.GetList().GetValues() {
-		ret = append(ret, int32(vv.GetInt64())) //nolint:gosec
+		i32, err := ToInt32(vv)
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, i32)
 	}
 	return ret, nil
 }
@@ -84,13 +88,17 @@ func ToInt64List(v *celplugin.CELPluginValue) ([]int64, error) {
 }
 
 func ToUint32(v *celplugin.CELPluginValue) (uint32, error) {
-	return uint32(v.GetUint64()), nil //nolint:gosec
+	return Uint64ToUint32(v.GetUint64())
 }
 
 func ToUint32List(v *celplugin.CELPluginValue) ([]uint32, error) {
 	ret := make([]uint32, 0, len(v.GetList().GetValues()))
 	for _, vv := range v.GetList().GetValues() {
-		ret = append(ret, uint32(vv.GetUint64())) //nolint:gosec
+		u32, err := ToUint32(vv)
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, u32)
 	}
 	return ret, nil
 }
@@ -144,13 +152,18 @@ func ToBoolList(v *celplugin.CELPluginValue) ([]bool, error) {
 }
 
 func ToEnum[T ~int32](v *celplugin.CELPluginValue) (T, error) {
-	return T(v.GetInt64()), nil
+	i32, err := ToInt32(v)
+	return T(i32), err
 }
 
 func ToEnumList[T ~int32](v *celplugin.CELPluginValue) ([]T, error) {
 	ret := make([]T, 0, len(v.GetList().GetValues()))
 	for _, vv := range v.GetList().GetValues() {
-		ret = append(ret, T(vv.GetInt64()))
+		enum, err := ToEnum[T](vv)
+		if err != nil {
+			return nil, err
+		}
+		ret = append(ret, enum)
 	}
 	return ret, nil
 }
-- 
2.43.0


From 9e1c1e05ec3b9c7331401bf111430017a8380f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:54 +0000
Subject: [PATCH 17/43] fix: closing a plugin again or collecting garbage after
 closing does not panic

---
 grpc/federation/cel/plugin.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index 4e7c988..6860f06 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -161,6 +161,8 @@ type CELPluginInstance struct {
 	closed           bool
 	mu               sync.Mutex
 	gcQueue          chan struct{}
+	gcQueueMu        sync.RWMutex
+	gcQueueClosed    bool
 }
 
 const PluginProtocolVersion = 1
@@ -242,12 +244,11 @@ func (i *CELPluginInstance) Close(ctx context.Context) error {
 	i.mu.Lock()
 	defer i.mu.Unlock()
 
-	defer func() { i.closed = true }()
-	if err := i.write([]byte(exitCommand)); err != nil {
-		return err
-	}
-	close(i.gcQueue)
-	return nil
+	defer func() {
+		i.closed = true
+		i.closeGCQueue()
+	}()
+	return i.write([]byte(exitCommand))
 }
 
 func (i *CELPluginInstance) LibraryName() string {
@@ -261,6 +262,12 @@ func (i *CELPluginInstance) GC() {
 }
 
 func (i *CELPluginInstance) enqueueGC() {
+	i.gcQueueMu.RLock()
+	defer i.gcQueueMu.RUnlock()
+
+	if i.gcQueueClosed {
+		return
+	}
 	select {
 	case i.gcQueue <- struct{}{}:
 	default:
@@ -268,6 +275,17 @@ func (i *CELPluginInstance) enqueueGC() {
 	}
 }
 
+func (i *CELPluginInstance) closeGCQueue() {
+	i.gcQueueMu.Lock()
+	defer i.gcQueueMu.Unlock()
+
+	if i.gcQueueClosed {
+		return
+	}
+	i.gcQueueClosed = true
+	close(i.gcQueue)
+}
+
 func (i *CELPluginInstance) startGC() {
 	i.mu.Lock()
 	defer i.mu.Unlock()
-- 
2.43.0


From 89e24760e9e64c861c24d33706063666ddf1df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:54 +0000
Subject: [PATCH 18/43] fix: calls of a terminated plugin fail instead of
 blocking forever

---
 grpc/federation/cel/plugin.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index 6860f06..f6460d7 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -409,6 +409,11 @@ func (i *CELPluginInstance) recvContent() (string, error) {
 	}()
 	select {
 	case err := <-i.instanceModErrCh:
+		// If the module instance is terminated, it no longer receives any commands.
+		i.closed = true
+		if err == nil {
+			err = errors.New("grpc-federation: plugin has already been closed")
+		}
 		return "", err
 	case result := <-readCh:
 		return result.response, result.err
-- 
2.43.0


From 29cf19783bd8b17811c55f600d078972a6415a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:44 +0000
Subject: [PATCH 19/43] fix: pass repeated message fields to plugin functions
 as lists

---
 grpc/federation/cel/plugin.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index f6460d7..fef592c 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -11,12 +11,12 @@ import (
 	"io"
 	"os"
 	"path/filepath"
-	"reflect"
 	"sync"
 
 	"github.com/google/cel-go/cel"
 	"github.com/google/cel-go/common/types"
 	"github.com/google/cel-go/common/types/ref"
+	"github.com/google/cel-go/common/types/traits"
 	"github.com/tetratelabs/wazero"
 	"github.com/tetratelabs/wazero/imports/wasi_snapshot_preview1"
 	"google.golang.org/grpc/metadata"
@@ -424,13 +424,15 @@ func (i *CELPluginInstance) refToCELPluginValue(typ *cel.Type, v ref.Val) (*plug
 	switch typ.Kind() {
 	case types.ListKind:
 		elemType := typ.Parameters()[0]
-		slice := reflect.ValueOf(v.Value())
+		src, ok := v.(traits.Lister)
+		if !ok {
+			return nil, fmt.Errorf("grpc-federation: expected list value but got %T", v)
+		}
 		list := &plugin.CELPluginListValue{}
-		for idx := 0; idx < slice.Len(); idx++ {
-			src := slice.Index(idx).Interface()
-			val := i.celRegistry.NativeToValue(src)
+		for iter := src.Iterator(); iter.HasNext() == types.True; {
+			val := iter.Next()
 			if types.IsError(val) {
-				return nil, fmt.Errorf("failed to convert %T to CEL value: %v", src, val.Value())
+				return nil, fmt.Errorf("failed to convert list element to CEL value: %v", val.Value())
 			}
 			value, err := i.refToCELPluginValue(elemType, val)
 			if err != nil {
-- 
2.43.0


From 39d0d95299b978b63ea33eadb369cbd40b2f4642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:03 +0000
Subject: [PATCH 20/43] fix: definitions depend on what their error messages,
 retry conditions, argument conditions and enum iterators refer to

---
 resolver/def.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resolver/def.go b/resolver/def.go
index 76ba0a4..8f4a0da 100644
--- a/resolver/def.go
+++ b/resolver/def.go
@@ -238,6 +238,8 @@ func (e *GRPCError) ReferenceNames() []string {
 	for _, def := range e.DefSet.Definitions() {
 		names = append(names, def.ReferenceNames()...)
 	}
+	names = append(names, e.Message.ReferenceNames()...)
+	names = append(names, e.IgnoreAndResponse.ReferenceNames()...)
 	for _, detail := range e.Details {
 		names = append(names, detail.ReferenceNames()...)
 	}
@@ -281,6 +283,10 @@ func (e *CallExpr) ReferenceNames() []string {
 	var names []string
 	for _, arg := range e.Request.Args {
 		names = append(names, arg.Value.ReferenceNames()...)
+		names = append(names, arg.If.ReferenceNames()...)
+	}
+	if e.Retry != nil {
+		names = append(names, e.Retry.If.ReferenceNames()...)
 	}
 	for _, grpcErr := range e.Errors {
 		names = append(names, grpcErr.ReferenceNames()...)
@@ -317,6 +323,8 @@ func (e *MapIteratorExpr) ReferenceNames() []string {
 		names = append(names, e.By.ReferenceNames()...)
 	case e.Message != nil:
 		names = append(names, e.Message.ReferenceNames()...)
+	case e.Enum != nil:
+		names = append(names, e.Enum.ReferenceNames()...)
 	}
 	return toUniqueReferenceNames(names)
 }
-- 
2.43.0


From 735f3a9b146c161d0ca7919a38125987a70ceac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:33 +0000
Subject: [PATCH 21/43] fix: report cycles of messages that no other message
 leads to, in a fixed order

---
 resolver/graph.go | 49 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/resolver/graph.go b/resolver/graph.go
index 31e3489..5a05bb5 100644
--- a/resolver/graph.go
+++ b/resolver/graph.go
@@ -26,15 +26,24 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 		newAllMessageDependencyGraphNodeReferenceBuilder(msgToNode, msg).Build(ctx)
 	}
 	var roots []*AllMessageDependencyGraphNode
-	for _, node := range msgToNode {
+	// Follows the order of msgs rather than that of msgToNode so that the result is always the same.
+	var nodes []*AllMessageDependencyGraphNode
+	added := make(map[*Message]struct{})
+	for _, msg := range msgs {
+		node, exists := msgToNode[msg]
+		if !exists {
+			continue
+		}
+		if _, exists := added[msg]; exists {
+			continue
+		}
+		added[msg] = struct{}{}
+		nodes = append(nodes, node)
 		if len(node.Parent) == 0 {
 			roots = append(roots, node)
 		}
 	}
-	if len(roots) == 0 {
-		return nil
-	}
-	sort.Slice(roots, func(i, j int) bool {
+	sort.SliceStable(roots, func(i, j int) bool {
 		return roots[i].Message.Name < roots[j].Message.Name
 	})
 	graph := &AllMessageDependencyGraph{Roots: roots}
@@ -42,9 +51,39 @@ func CreateAllMessageDependencyGraph(ctx *context, msgs []*Message) *AllMessageD
 		ctx.addError(err)
 		return nil
 	}
+	// A node that cannot be reached from any root is part of a cycle or depends on one.
+	reached := graph.reachableNodes()
+	for _, node := range nodes {
+		if _, exists := reached[node]; exists {
+			continue
+		}
+		if err := validateAllMessageGraphNode(node); err != nil {
+			ctx.addError(err)
+			return nil
+		}
+	}
+	if len(roots) == 0 {
+		return nil
+	}
 	return graph
 }
 
+func (g *AllMessageDependencyGraph) reachableNodes() map[*AllMessageDependencyGraphNode]struct{} {
+	reached := make(map[*AllMessageDependencyGraphNode]struct{})
+	var visit func(nodes []*AllMessageDependencyGraphNode)
+	visit = func(nodes []*AllMessageDependencyGraphNode) {
+		for _, node := range nodes {
+			if _, exists := reached[node]; exists {
+				continue
+			}
+			reached[node] = struct{}{}
+			visit(node.Children)
+		}
+	}
+	visit(g.Roots)
+	return reached
+}
+
 func (n *AllMessageDependencyGraphNode) childMessages() []*Message {
 	messages := []*Message{n.Message}
 	for _, child := range n.Children {
-- 
2.43.0


From 31ac2d39e2095e98875bcec764dbd010b4c72c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:11 +0000
Subject: [PATCH 22/43] fix: give definitions, groups, graphs and plugins of
 the same name distinct IDs for code generation plugins

---
 grpc/federation/generator/encode.go | 34 +++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/grpc/federation/generator/encode.go b/grpc/federation/generator/encode.go
index 5f73210..bb24973 100644
--- a/grpc/federation/generator/encode.go
+++ b/grpc/federation/generator/encode.go
@@ -13,10 +13,15 @@ import (
 
 type encoder struct {
 	ref *plugin.Reference
+	// ids holds the ID of every value whose name alone does not identify it.
+	ids     map[any]string
+	usedIDs map[string]struct{}
 }
 
 func newEncoder() *encoder {
 	return &encoder{
+		ids:     make(map[any]string),
+		usedIDs: make(map[string]struct{}),
 		ref: &plugin.Reference{
 			FileMap:                    make(map[string]*plugin.File),
 			EnumMap:                    make(map[string]*plugin.Enum),
@@ -1281,6 +1286,10 @@ func (e *encoder) toFieldID(field *resolver.Field) string {
 	if field == nil {
 		return ""
 	}
+	if field.Message == nil {
+		// The name of a message argument's field is not qualified.
+		return e.uniqueID("field", field, field.Name)
+	}
 	return field.FQDN()
 }
 
@@ -1309,7 +1318,7 @@ func (e *encoder) toCELPluginID(celPlugin *resolver.CELPlugin) string {
 	if celPlugin == nil {
 		return ""
 	}
-	return celPlugin.Name
+	return e.uniqueID("plugin", celPlugin, celPlugin.Name)
 }
 
 func (e *encoder) toDependencyGraphID(graph *resolver.MessageDependencyGraph) string {
@@ -1320,14 +1329,14 @@ func (e *encoder) toDependencyGraphID(graph *resolver.MessageDependencyGraph) st
 	for _, root := range graph.Roots {
 		roots = append(roots, root.FQDN())
 	}
-	return strings.Join(roots, ":")
+	return e.uniqueID("graph", graph, strings.Join(roots, ":"))
 }
 
 func (e *encoder) toVariableDefinitionID(def *resolver.VariableDefinition) string {
 	if def == nil {
 		return ""
 	}
-	return def.Name
+	return e.uniqueID("def", def, def.Name)
 }
 
 func (e *encoder) toVariableDefinitionGroupID(group resolver.VariableDefinitionGroup) string {
@@ -1338,5 +1347,22 @@ func (e *encoder) toVariableDefinitionGroupID(group resolver.VariableDefinitionG
 	for _, def := range group.VariableDefinitions() {
 		defIDs = append(defIDs, e.toVariableDefinitionID(def))
 	}
-	return fmt.Sprintf("%s/%s", group.Type(), strings.Join(defIDs, ":"))
+	return e.uniqueID("group", group, fmt.Sprintf("%s/%s", group.Type(), strings.Join(defIDs, ":")))
+}
+
+// uniqueID returns the ID of the value: its name, with a number appended if another value of the kind has the same name.
+func (e *encoder) uniqueID(kind string, value any, name string) string {
+	if id, exists := e.ids[value]; exists {
+		return id
+	}
+	id := name
+	for n := 2; ; n++ {
+		if _, used := e.usedIDs[kind+":"+id]; !used {
+			break
+		}
+		id = fmt.Sprintf("%s#%d", name, n)
+	}
+	e.ids[value] = id
+	e.usedIDs[kind+":"+id] = struct{}{}
+	return id
 }
-- 
2.43.0


From 588f82cc31976b8300ae9d0fd877008a11d44626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:12 +0000
Subject: [PATCH 23/43] fix: keep a node of the dependency graph with several
 parents a single node for code generation plugins

---
 grpc/federation/generator/decode.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/grpc/federation/generator/decode.go b/grpc/federation/generator/decode.go
index f996591..6bf5ad0 100644
--- a/grpc/federation/generator/decode.go
+++ b/grpc/federation/generator/decode.go
@@ -754,7 +754,7 @@ func (d *decoder) toMessageDependencyGraph(id string) (*resolver.MessageDependen
 	ret := &resolver.MessageDependencyGraph{}
 	d.graphMap[id] = ret
 
-	roots, err := d.toMessageDependencyGraphNodes(graph.GetRoots())
+	roots, err := d.toMessageDependencyGraphNodes(graph.GetRoots(), make(map[string]*resolver.MessageDependencyGraphNode))
 	if err != nil {
 		return nil, err
 	}
@@ -762,13 +762,13 @@ func (d *decoder) toMessageDependencyGraph(id string) (*resolver.MessageDependen
 	return ret, nil
 }
 
-func (d *decoder) toMessageDependencyGraphNodes(nodes []*plugin.MessageDependencyGraphNode) ([]*resolver.MessageDependencyGraphNode, error) {
+func (d *decoder) toMessageDependencyGraphNodes(nodes []*plugin.MessageDependencyGraphNode, nodeMap map[string]*resolver.MessageDependencyGraphNode) ([]*resolver.MessageDependencyGraphNode, error) {
 	if nodes == nil {
 		return nil, nil
 	}
 	ret := make([]*resolver.MessageDependencyGraphNode, 0, len(nodes))
 	for _, node := range nodes {
-		n, err := d.toMessageDependencyGraphNode(node)
+		n, err := d.toMessageDependencyGraphNode(node, nodeMap)
 		if err != nil {
 			return nil, err
 		}
@@ -780,15 +780,21 @@ func (d *decoder) toMessageDependencyGraphNodes(nodes []*plugin.MessageDependenc
 	return ret, nil
 }
 
-func (d *decoder) toMessageDependencyGraphNode(node *plugin.MessageDependencyGraphNode) (*resolver.MessageDependencyGraphNode, error) {
+func (d *decoder) toMessageDependencyGraphNode(node *plugin.MessageDependencyGraphNode, nodeMap map[string]*resolver.MessageDependencyGraphNode) (*resolver.MessageDependencyGraphNode, error) {
 	if node == nil {
 		return nil, nil
 	}
+	// A node with several parents is encoded once for each of them.
+	if n, exists := nodeMap[node.GetVariableDefinitionId()]; exists {
+		return n, nil
+	}
 	ret := &resolver.MessageDependencyGraphNode{
 		ParentMap:   make(map[*resolver.MessageDependencyGraphNode]struct{}),
 		ChildrenMap: make(map[*resolver.MessageDependencyGraphNode]struct{}),
 	}
-	children, err := d.toMessageDependencyGraphNodes(node.GetChildren())
+	nodeMap[node.GetVariableDefinitionId()] = ret
+
+	children, err := d.toMessageDependencyGraphNodes(node.GetChildren(), nodeMap)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5e65907d56946172339879dbc985947feaa1c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:12 +0000
Subject: [PATCH 24/43] fix: pass call errors, error definitions, validation
 names and request options to code generation plugins

---
 grpc/federation/generator/decode.go | 32 ++++++++++++++++++++++++++++-
 grpc/federation/generator/encode.go | 27 ++++++++++++++++++++++++
 2 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/generator/decode.go b/grpc/federation/generator/decode.go
index 6bf5ad0..bdd0c19 100644
--- a/grpc/federation/generator/decode.go
+++ b/grpc/federation/generator/decode.go
@@ -72,6 +72,8 @@ func (d *decoder) toCodeGeneratorRequest(req *plugin.CodeGeneratorRequest) (*Cod
 		return nil, err
 	}
 	return &CodeGeneratorRequest{
+		ProtoPath:           req.GetProtoPath(),
+		OutDir:              req.GetOutDir(),
 		Files:               req.GetFiles(),
 		GRPCFederationFiles: grpcFederationFiles,
 	}, nil
@@ -1067,9 +1069,14 @@ func (d *decoder) toCallExpr(expr *plugin.CallExpr) (*resolver.CallExpr, error)
 		timeout := expr.GetTimeout().AsDuration()
 		ret.Timeout = &timeout
 	}
+	errs, err := d.toGRPCErrors(expr.GetErrors())
+	if err != nil {
+		return nil, err
+	}
 	ret.Method = mtd
 	ret.Request = req
 	ret.Retry = retry
+	ret.Errors = errs
 	return ret, nil
 }
 
@@ -1217,7 +1224,7 @@ func (d *decoder) toValidationExpr(expr *plugin.ValidationExpr) (*resolver.Valid
 	if expr == nil {
 		return nil, nil
 	}
-	ret := &resolver.ValidationExpr{}
+	ret := &resolver.ValidationExpr{Name: expr.GetName()}
 
 	grpcErr, err := d.toGRPCError(expr.GetError())
 	if err != nil {
@@ -1227,6 +1234,24 @@ func (d *decoder) toValidationExpr(expr *plugin.ValidationExpr) (*resolver.Valid
 	return ret, nil
 }
 
+func (d *decoder) toGRPCErrors(errs []*plugin.GRPCError) ([]*resolver.GRPCError, error) {
+	if errs == nil {
+		return nil, nil
+	}
+	ret := make([]*resolver.GRPCError, 0, len(errs))
+	for _, e := range errs {
+		v, err := d.toGRPCError(e)
+		if err != nil {
+			return nil, err
+		}
+		if v == nil {
+			continue
+		}
+		ret = append(ret, v)
+	}
+	return ret, nil
+}
+
 func (d *decoder) toGRPCError(e *plugin.GRPCError) (*resolver.GRPCError, error) {
 	if e == nil {
 		return nil, nil
@@ -1236,6 +1261,10 @@ func (d *decoder) toGRPCError(e *plugin.GRPCError) (*resolver.GRPCError, error)
 		Ignore: e.GetIgnore(),
 	}
 
+	defSet, err := d.toVariableDefinitionSet(e.GetDefSet())
+	if err != nil {
+		return nil, err
+	}
 	ifValue, err := d.toCELValue(e.GetIf())
 	if err != nil {
 		return nil, err
@@ -1252,6 +1281,7 @@ func (d *decoder) toGRPCError(e *plugin.GRPCError) (*resolver.GRPCError, error)
 	if err != nil {
 		return nil, err
 	}
+	ret.DefSet = defSet
 	ret.If = ifValue
 	ret.Message = msgValue
 	ret.Details = details
diff --git a/grpc/federation/generator/encode.go b/grpc/federation/generator/encode.go
index bb24973..54207cb 100644
--- a/grpc/federation/generator/encode.go
+++ b/grpc/federation/generator/encode.go
@@ -63,8 +63,10 @@ func CreateCodeGeneratorRequest(cfg *CodeGeneratorRequestConfig) *plugin.CodeGen
 
 func (e *encoder) toCodeGeneratorRequest(cfg *CodeGeneratorRequestConfig) *plugin.CodeGeneratorRequest {
 	ret := &plugin.CodeGeneratorRequest{
+		Type:      e.toActionType(cfg.Type),
 		ProtoPath: cfg.ProtoPath,
 		OutDir:    cfg.OutDir,
+		Files:     cfg.Files,
 		Reference: e.ref,
 	}
 	for _, file := range e.toFiles(cfg.GRPCFederationFiles) {
@@ -73,6 +75,20 @@ func (e *encoder) toCodeGeneratorRequest(cfg *CodeGeneratorRequestConfig) *plugi
 	return ret
 }
 
+func (e *encoder) toActionType(typ ActionType) plugin.ActionType {
+	switch typ {
+	case KeepAction:
+		return plugin.ActionType_KEEP_ACTION
+	case CreateAction:
+		return plugin.ActionType_CREATE_ACTION
+	case DeleteAction:
+		return plugin.ActionType_DELETE_ACTION
+	case UpdateAction:
+		return plugin.ActionType_UPDATE_ACTION
+	}
+	return plugin.ActionType_GENERATE_ACTION
+}
+
 func (e *encoder) toFile(file *resolver.File) *plugin.File {
 	if file == nil {
 		return nil
@@ -1015,6 +1031,7 @@ func (e *encoder) toCallExpr(expr *resolver.CallExpr) *plugin.CallExpr {
 		Request:  e.toRequest(expr.Request),
 		Timeout:  timeout,
 		Retry:    e.toRetryPolicy(expr.Retry),
+		Errors:   e.toGRPCErrors(expr.Errors),
 	}
 }
 
@@ -1124,15 +1141,25 @@ func (e *encoder) toValidationExpr(expr *resolver.ValidationExpr) *plugin.Valida
 		return nil
 	}
 	return &plugin.ValidationExpr{
+		Name:  expr.Name,
 		Error: e.toGRPCError(expr.Error),
 	}
 }
 
+func (e *encoder) toGRPCErrors(errs []*resolver.GRPCError) []*plugin.GRPCError {
+	ret := make([]*plugin.GRPCError, 0, len(errs))
+	for _, err := range errs {
+		ret = append(ret, e.toGRPCError(err))
+	}
+	return ret
+}
+
 func (e *encoder) toGRPCError(err *resolver.GRPCError) *plugin.GRPCError {
 	if err == nil {
 		return nil
 	}
 	return &plugin.GRPCError{
+		DefSet:            e.toVariableDefinitionSet(err.DefSet),
 		Code:              err.Code,
 		If:                e.toCELValue(err.If),
 		Message:           e.toCELValue(err.Message),
-- 
2.43.0


From a221913cd1ca7fd5e649acecb5e8112337bfe744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:13 +0000
Subject: [PATCH 25/43] fix: encode enum aliases and iterator sources which are
 referred to by code generation plugins, and allow absent env and retry kind

---
 grpc/federation/generator/decode.go | 5 ++++-
 grpc/federation/generator/encode.go | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/grpc/federation/generator/decode.go b/grpc/federation/generator/decode.go
index bdd0c19..8137050 100644
--- a/grpc/federation/generator/decode.go
+++ b/grpc/federation/generator/decode.go
@@ -253,6 +253,9 @@ func (d *decoder) toServiceRule(rule *plugin.ServiceRule) (*resolver.ServiceRule
 }
 
 func (d *decoder) toEnv(env *plugin.Env) (*resolver.Env, error) {
+	if env == nil {
+		return nil, nil
+	}
 	vars, err := d.toEnvVars(env.GetVars())
 	if err != nil {
 		return nil, err
@@ -1178,7 +1181,7 @@ func (d *decoder) toRetryPolicy(retry *plugin.RetryPolicy) (*resolver.RetryPolic
 		}
 		return ret, nil
 	}
-	return nil, fmt.Errorf("unexpected retry policy")
+	return ret, nil
 }
 
 func (d *decoder) toMessageExpr(expr *plugin.MessageExpr) (*resolver.MessageExpr, error) {
diff --git a/grpc/federation/generator/encode.go b/grpc/federation/generator/encode.go
index 54207cb..2002a8b 100644
--- a/grpc/federation/generator/encode.go
+++ b/grpc/federation/generator/encode.go
@@ -426,7 +426,7 @@ func (e *encoder) toEnumRule(rule *resolver.EnumRule) *plugin.EnumRule {
 	}
 	var aliasIDs []string
 	for _, alias := range rule.Aliases {
-		aliasIDs = append(aliasIDs, e.toEnumID(alias))
+		aliasIDs = append(aliasIDs, e.toEnum(alias).GetId())
 	}
 	return &plugin.EnumRule{
 		AliasIds: aliasIDs,
@@ -475,10 +475,10 @@ func (e *encoder) toEnumValueAlias(alias *resolver.EnumValueAlias) *plugin.EnumV
 	}
 	var valueIDs []string
 	for _, valueAlias := range alias.Aliases {
-		valueIDs = append(valueIDs, e.toEnumValueID(valueAlias))
+		valueIDs = append(valueIDs, e.toEnumValue(valueAlias).GetId())
 	}
 	return &plugin.EnumValueAlias{
-		EnumAliasId: e.toEnumID(alias.EnumAlias),
+		EnumAliasId: e.toEnum(alias.EnumAlias).GetId(),
 		AliasIds:    valueIDs,
 	}
 }
@@ -990,7 +990,7 @@ func (e *encoder) toIterator(iter *resolver.Iterator) *plugin.Iterator {
 	}
 	return &plugin.Iterator{
 		Name:     iter.Name,
-		SourceId: e.toVariableDefinitionID(iter.Source),
+		SourceId: e.toVariableDefinition(iter.Source).GetId(),
 	}
 }
 
-- 
2.43.0


From 988d0fc9ce21d882506dc515e779332593ff3aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:13 +0000
Subject: [PATCH 26/43] fix: keep message and enum types of oneof fields for
 code generation plugins

---
 grpc/federation/generator/decode.go | 19 +++++++++++++++++--
 grpc/federation/generator/encode.go | 21 ++++++++++++++++-----
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/grpc/federation/generator/decode.go b/grpc/federation/generator/decode.go
index 8137050..fb0d6ba 100644
--- a/grpc/federation/generator/decode.go
+++ b/grpc/federation/generator/decode.go
@@ -45,6 +45,8 @@ type decoder struct {
 	graphMap       map[string]*resolver.MessageDependencyGraph
 	varDefMap      map[string]*resolver.VariableDefinition
 	varDefGroupMap map[string]resolver.VariableDefinitionGroup
+	// oneofTypes are the types which refer to a field of oneof. Their message and enum are those of the field.
+	oneofTypes []*resolver.Type
 }
 
 func newDecoder(ref *plugin.Reference) *decoder {
@@ -71,6 +73,12 @@ func (d *decoder) toCodeGeneratorRequest(req *plugin.CodeGeneratorRequest) (*Cod
 	if err != nil {
 		return nil, err
 	}
+	for _, typ := range d.oneofTypes {
+		if fieldType := typ.OneofField.Type; fieldType != nil {
+			typ.Message = fieldType.Message
+			typ.Enum = fieldType.Enum
+		}
+	}
 	return &CodeGeneratorRequest{
 		ProtoPath:           req.GetProtoPath(),
 		OutDir:              req.GetOutDir(),
@@ -525,6 +533,9 @@ func (d *decoder) toField(id string) (*resolver.Field, error) {
 	if err != nil {
 		return nil, err
 	}
+	if typ != nil && oneof != nil {
+		typ.OneofField = &resolver.OneofField{Field: ret}
+	}
 	ret.Type = typ
 	ret.Oneof = oneof
 	ret.Message = msg
@@ -1896,14 +1907,18 @@ func (d *decoder) toType(t *plugin.Type) (*resolver.Type, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &resolver.Type{
+	ret := &resolver.Type{
 		Kind:       d.toTypeKind(t.GetKind()),
 		Repeated:   t.GetRepeated(),
 		IsNull:     t.GetIsNull(),
 		Message:    msg,
 		Enum:       enum,
 		OneofField: oneofField,
-	}, nil
+	}
+	if oneofField != nil {
+		d.oneofTypes = append(d.oneofTypes, ret)
+	}
+	return ret, nil
 }
 
 func (d *decoder) toTypeKind(kind plugin.TypeKind) types.Kind {
diff --git a/grpc/federation/generator/encode.go b/grpc/federation/generator/encode.go
index 2002a8b..f3f23c7 100644
--- a/grpc/federation/generator/encode.go
+++ b/grpc/federation/generator/encode.go
@@ -544,13 +544,24 @@ func (e *encoder) toField(field *resolver.Field) *plugin.Field {
 	ret := &plugin.Field{Id: id, Name: field.Name}
 	e.ref.FieldMap[id] = ret
 
-	ret.Type = e.toType(field.Type)
+	ret.Type = e.toFieldType(field)
 	ret.OneofId = e.toOneof(field.Oneof).GetId()
 	ret.Rule = e.toFieldRule(field.Rule)
 	ret.MessageId = e.toMessage(field.Message).GetId()
 	return ret
 }
 
+// toFieldType returns the type of the field.
+// The type of a field of oneof refers to the field itself, which the decoder restores from the oneof.
+func (e *encoder) toFieldType(field *resolver.Field) *plugin.Type {
+	typ := field.Type
+	if typ != nil && typ.OneofField != nil && typ.OneofField.Field == field {
+		typ = typ.Clone()
+		typ.OneofField = nil
+	}
+	return e.toType(typ)
+}
+
 func (e *encoder) toFieldRule(rule *resolver.FieldRule) *plugin.FieldRule {
 	if rule == nil {
 		return nil
@@ -741,6 +752,10 @@ func (e *encoder) toType(t *resolver.Type) *plugin.Type {
 		IsNull:   t.IsNull,
 	}
 	switch {
+	case t.OneofField != nil:
+		ret.Ref = &plugin.Type_OneofFieldId{
+			OneofFieldId: e.toField(t.OneofField.Field).GetId(),
+		}
 	case t.Message != nil:
 		ret.Ref = &plugin.Type_MessageId{
 			MessageId: e.toMessage(t.Message).GetId(),
@@ -749,10 +764,6 @@ func (e *encoder) toType(t *resolver.Type) *plugin.Type {
 		ret.Ref = &plugin.Type_EnumId{
 			EnumId: e.toEnum(t.Enum).GetId(),
 		}
-	case t.OneofField != nil:
-		ret.Ref = &plugin.Type_OneofFieldId{
-			OneofFieldId: e.toField(t.OneofField.Field).GetId(),
-		}
 	}
 	return ret
 }
-- 
2.43.0


From 91e6ec31974867d9f60046f2c50a7f629cd552aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:39 +0000
Subject: [PATCH 27/43] fix: generate compiling code for exclusive fields
 filled from another message without a cast

Autobind or alias of a oneof member whose type needs no cast function produced
a nil comparison on a scalar and an unwrapped value.
---
 generator/code_generator.go      | 63 ++++++++++++++++++++++----------
 generator/templates/cast.go.tmpl |  4 +-
 grpc/federation/lib.go           |  6 +++
 3 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index eb04e6d..50958ca 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2227,6 +2227,9 @@ type CastStructField struct {
 	FromFieldName string
 	CastName      string
 	RequiredCast  bool
+	// OneofCondition and OneofValue are available only if the field belongs to oneof.
+	OneofCondition string
+	OneofValue     string
 }
 
 func (f *CastField) ToStruct() *CastStruct {
@@ -2256,6 +2259,8 @@ func (f *CastField) ToStruct() *CastStruct {
 			if field == nil {
 				continue
 			}
+			field.OneofCondition = f.file.oneofCaseCondition("from", f.fromStructField(toField, fromMsg))
+			field.OneofValue = f.file.oneofWrapperValue(toField, fmt.Sprintf("from.Get%s()", field.FromFieldName))
 			fields = append(fields, field)
 		}
 		castOneofStructs = append(castOneofStructs, &CastOneofStruct{
@@ -2282,24 +2287,7 @@ func (f *CastField) ToStruct() *CastStruct {
 }
 
 func (f *CastField) toStructField(toField *resolver.Field, fromMsg *resolver.Message) *CastStructField {
-	if toField.HasRule() && len(toField.Rule.Aliases) != 0 {
-		for _, alias := range toField.Rule.Aliases {
-			if fromMsg != alias.Message {
-				continue
-			}
-			fromField := alias
-			fromType := fromField.Type
-			toType := toField.Type
-			requiredCast := requiredCast(fromType, toType)
-			return &CastStructField{
-				ToFieldName:   util.ToPublicGoVariable(toField.Name),
-				FromFieldName: util.ToPublicGoVariable(fromField.Name),
-				RequiredCast:  requiredCast,
-				CastName:      castFuncName(fromType, toType),
-			}
-		}
-	}
-	fromField := fromMsg.Field(toField.Name)
+	fromField := f.fromStructField(toField, fromMsg)
 	if fromField == nil {
 		return nil
 	}
@@ -2314,6 +2302,38 @@ func (f *CastField) toStructField(toField *resolver.Field, fromMsg *resolver.Mes
 	}
 }
 
+// fromStructField returns the field of fromMsg from which the value of toField is taken.
+func (f *CastField) fromStructField(toField *resolver.Field, fromMsg *resolver.Message) *resolver.Field {
+	if toField.HasRule() {
+		for _, alias := range toField.Rule.Aliases {
+			if fromMsg == alias.Message {
+				return alias
+			}
+		}
+	}
+	return fromMsg.Field(toField.Name)
+}
+
+// oneofCaseCondition returns the condition whether the field of the owner has been set.
+func (f *File) oneofCaseCondition(owner string, field *resolver.Field) string {
+	if field.Type.Kind != types.Message && field.Type.OneofField != nil {
+		// The getter cannot tell whether a value which is not a message has been set.
+		return fmt.Sprintf(
+			"grpcfed.IsOneofField[%s](%s.Get%s())",
+			f.oneofTypeToText(field.Type.OneofField), owner, util.ToPublicGoVariable(field.Type.OneofField.Oneof.Name),
+		)
+	}
+	return fmt.Sprintf("%s.Get%s() != nil", owner, util.ToPublicGoVariable(field.Name))
+}
+
+// oneofWrapperValue returns the expression to assign the value to the oneof to which the field belongs.
+func (f *File) oneofWrapperValue(field *resolver.Field, value string) string {
+	return fmt.Sprintf(
+		"&%s{%s: %s}",
+		strings.TrimPrefix(f.oneofTypeToText(field.Type.OneofField), "*"), util.ToPublicGoVariable(field.Name), value,
+	)
+}
+
 type CastOneof struct {
 	Name         string
 	FieldName    string
@@ -2602,13 +2622,16 @@ func (m *Message) oneofValueToReturnField(oneof *resolver.Oneof) (*OneofReturnFi
 				return nil, err
 			}
 			var castValue string
+			value := m.file.oneofWrapperValue(field, autoBind.Value)
 			if autoBind.CastFunc != "" {
 				castValue = fmt.Sprintf("s.%s(%s)", autoBind.CastFunc, autoBind.Value)
+				value = autoBind.Value
 			}
+			owner := strings.TrimSuffix(autoBind.Value, fmt.Sprintf(".Get%s()", util.ToPublicGoVariable(field.Name)))
 			caseFields = append(caseFields, &OneofField{
-				Condition: fmt.Sprintf("%s != nil", autoBind.Value),
+				Condition: m.file.oneofCaseCondition(owner, rule.AutoBindField.Field),
 				Name:      autoBind.Name,
-				Value:     autoBind.Value,
+				Value:     value,
 				CastValue: castValue,
 			})
 		case rule.Oneof != nil:
diff --git a/generator/templates/cast.go.tmpl b/generator/templates/cast.go.tmpl
index deb92ea..168960c 100644
--- a/generator/templates/cast.go.tmpl
+++ b/generator/templates/cast.go.tmpl
@@ -49,14 +49,14 @@ switch {
 	{{ $name := .Name }}
 	{{- $localName := toLocalVariable $name }}
 	{{- range .Fields }}
-	case from.Get{{ .FromFieldName }}() != nil:
+	case {{ .OneofCondition }}:
 	{{- if .RequiredCast }}
 	{{ $localName }}, err := s.{{ .CastName }}(from.Get{{ .FromFieldName }}())
 	if err != nil {
 		return nil, err
 	}
 	{{- else }}
-	{{ $localName }} := from.Get{{ .FromFieldName }}()
+	{{ $localName }} := {{ .OneofValue }}
 	{{- end }}
 	ret.{{ $name }} = {{ $localName }}
 	{{- end }}
diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index 208eb86..ff82b24 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -127,3 +127,9 @@ func WithRetry[T any](ctx context.Context, param *RetryParam[T]) (*T, error) {
 func ToLogAttrKey(v any) string {
 	return fmt.Sprint(v)
 }
+
+// IsOneofField reports whether the value of oneof is the field whose wrapper type is T.
+func IsOneofField[T any](v any) bool {
+	_, ok := v.(T)
+	return ok
+}
-- 
2.43.0


From 910986f9379579fe254a0627736825367b46ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:39 +0000
Subject: [PATCH 28/43] fix: keep service variables that have an if condition

resolveServiceVariable returned nil whenever the type of the condition was
known, so the variable silently disappeared.
---
 resolver/resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver/resolver.go b/resolver/resolver.go
index d25fee1..fd94abb 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -2183,8 +2183,8 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 						builder.WithIf().Location(),
 					),
 				)
+				return nil
 			}
-			return nil
 		}
 	}
 
-- 
2.43.0


From 0007b92f12fca61fb6e44780de78a8e448e90411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:52 +0000
Subject: [PATCH 29/43] fix: do not take a number outside the enum's range for
 one of its values

name and attr of an enum truncated the 64 bit number to 32 bits, so that
4294967299 was named like 3.
---
 grpc/federation/cel.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 6c54451..0e22345 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"math"
 	"reflect"
 	"sort"
 	"strings"
@@ -214,7 +215,11 @@ func EnumAccessorOptions(enumName string, nameToValue map[string]int32, valueToN
 			fmt.Sprintf("%s.name", enumName),
 			cel.Overload(fmt.Sprintf("%s_name_int_string", enumName), []*cel.Type{cel.IntType}, cel.StringType,
 				cel.UnaryBinding(func(self ref.Val) ref.Val {
-					return celtypes.String(valueToName[int32(self.(celtypes.Int))]) //nolint:gosec
+					n := self.(celtypes.Int)
+					if n < math.MinInt32 || n > math.MaxInt32 {
+						return celtypes.String("")
+					}
+					return celtypes.String(valueToName[int32(n)])
 				}),
 			),
 		),
@@ -246,8 +251,9 @@ func EnumAttrOption[T ~int32](enumName string, enumAttrMap EnumAttributeMap[T])
 		fmt.Sprintf("%s.attr", enumName),
 		cel.Overload(fmt.Sprintf("%s_attr", enumName), []*cel.Type{cel.IntType, cel.StringType}, cel.StringType,
 			cel.BinaryBinding(func(enumValue, key ref.Val) ref.Val {
-				enumValueAttrMap := enumAttrMap[T(enumValue.(celtypes.Int))]
-				if enumValueAttrMap == nil {
+				n := enumValue.(celtypes.Int)
+				enumValueAttrMap := enumAttrMap[T(n)]
+				if enumValueAttrMap == nil || n < math.MinInt32 || n > math.MaxInt32 {
 					return celtypes.NewErr(fmt.Sprintf(`could not find enum value attribute map from %q`, enumName))
 				}
 				return celtypes.String(enumValueAttrMap[string(key.(celtypes.String))])
-- 
2.43.0


From 961c1cc2ffc74536e35cbc7d6b48ede2663bcf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:52 +0000
Subject: [PATCH 30/43] fix: keep message arguments when a definition has the
 same name

The generated code stores definitions in the argument structure for custom
resolvers, which changed the value of $.name for later expressions.
---
 grpc/federation/cel.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 0e22345..0c5947b 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -340,10 +340,23 @@ func NewLocalValue(ctx context.Context, envOpts []cel.EnvOption, argName string,
 			resultMap: make(map[string]*singleflightCacheResult),
 		},
 		envOpts:    newEnvOpts,
-		evalValues: map[string]any{MessageArgumentVariableName: arg},
+		evalValues: map[string]any{MessageArgumentVariableName: copyMessageArgument(arg)},
 	}
 }
 
+// copyMessageArgument copies the message argument.
+// The generated code assigns variables to the original one to pass them to the custom resolver,
+// which must not change the value of "$" if an argument has the same name.
+func copyMessageArgument(arg any) any {
+	rv := reflect.ValueOf(arg)
+	if rv.Kind() != reflect.Pointer || rv.IsNil() || rv.Elem().Kind() != reflect.Struct {
+		return arg
+	}
+	copied := reflect.New(rv.Type().Elem())
+	copied.Elem().Set(rv.Elem())
+	return copied.Interface()
+}
+
 func NewServiceVariableLocalValue(envOpts []cel.EnvOption) *LocalValue {
 	newEnvOpts := append([]cel.EnvOption{}, envOpts...)
 	return &LocalValue{
-- 
2.43.0


From 2165c6853c8ca6adb73f14e2d8fa1afea4b071b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:40 +0000
Subject: [PATCH 31/43] fix: do not show the error of a concurrent method call
 to the error handling of another one

---
 grpc/federation/cel.go | 54 ++++++++++++++++++++++++++++++++++++++++--
 grpc/federation/lib.go |  8 ++++++-
 2 files changed, 59 insertions(+), 3 deletions(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 0c5947b..6373792 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -10,6 +10,7 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"sync/atomic"
 
 	"github.com/google/cel-go/cel"
 	"github.com/google/cel-go/common/operators"
@@ -386,6 +387,44 @@ type localValue interface {
 	getEvalValues(context.Context) map[string]any
 	setEnvOptValue(string, *cel.Type)
 	setEvalValue(string, any)
+	root() *LocalValue
+}
+
+// grpcErrorScope keeps the value of the "error" variable for one evaluation of a definition.
+// Definitions of a message are evaluated concurrently,
+// so the error of a method call must be visible only to the definition which calls the method.
+type grpcErrorScope struct {
+	parent *grpcErrorScope
+	value  *LocalValue
+	err    atomic.Pointer[grpcfedcel.Error]
+}
+
+type grpcErrorScopeKey struct{}
+
+func getGRPCErrorScope(ctx context.Context) *grpcErrorScope {
+	scope, _ := ctx.Value(grpcErrorScopeKey{}).(*grpcErrorScope)
+	return scope
+}
+
+func withGRPCErrorScope(ctx context.Context, value *LocalValue) context.Context {
+	return context.WithValue(ctx, grpcErrorScopeKey{}, &grpcErrorScope{
+		parent: getGRPCErrorScope(ctx),
+		value:  value,
+	})
+}
+
+// scopedGRPCError returns the error of the nearest scope which belongs to the value.
+func scopedGRPCError(ctx context.Context, value *LocalValue) *grpcfedcel.Error {
+	for scope := getGRPCErrorScope(ctx); scope != nil && scope.value == value; scope = scope.parent {
+		if err := scope.err.Load(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (v *LocalValue) root() *LocalValue {
+	return v
 }
 
 func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
@@ -461,6 +500,10 @@ type MapIteratorValue struct {
 	evalValues map[string]any
 }
 
+func (v *MapIteratorValue) root() *LocalValue {
+	return v.localValue.root()
+}
+
 func (v *MapIteratorValue) do(name string, cb func() (any, error)) (any, error) {
 	return v.localValue.do(name, cb)
 }
@@ -575,7 +618,7 @@ func evalDef[T any, U localValue](ctx context.Context, value U, def Def[T, U]) e
 					CacheIndex: def.ByCacheIndex,
 				})
 			case def.Message != nil:
-				return def.Message(ctx, value)
+				return def.Message(withGRPCErrorScope(ctx, value.root()), value)
 			case def.Enum != nil:
 				return def.Enum(ctx, value)
 			case def.Validation != nil:
@@ -755,7 +798,11 @@ func EvalCEL(ctx context.Context, req *EvalCELRequest) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	out, _, err := program.ContextEval(ctx, req.Value.getEvalValues(ctx))
+	evalValues := req.Value.getEvalValues(ctx)
+	if grpcErr := scopedGRPCError(ctx, req.Value.root()); grpcErr != nil {
+		evalValues["error"] = grpcErr
+	}
+	out, _, err := program.ContextEval(ctx, evalValues)
 	if err != nil {
 		return nil, err
 	}
@@ -927,6 +974,9 @@ func SetGRPCError(ctx context.Context, value localValue, err error) {
 			grpcErr.CustomMessages = append(grpcErr.CustomMessages, anyValue)
 		}
 	}
+	if scope := getGRPCErrorScope(ctx); scope != nil && scope.value == value.root() {
+		scope.err.Store(grpcErr)
+	}
 	value.lock()
 	value.setEvalValue("error", grpcErr)
 	value.unlock()
diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index ff82b24..0ac5c57 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -17,6 +17,12 @@ func WithTimeout[T any](ctx context.Context, method string, timeout time.Duratio
 	ctx, cancel := context.WithTimeout(ctx, timeout)
 	defer cancel()
 
+	// fn may go on after the timeout. The error found by it then must not be visible to the caller.
+	fnCtx := ctx
+	if scope := getGRPCErrorScope(ctx); scope != nil {
+		fnCtx = withGRPCErrorScope(ctx, scope.value)
+	}
+
 	var (
 		ret *T
 
@@ -33,7 +39,7 @@ func WithTimeout[T any](ctx context.Context, method string, timeout time.Duratio
 			}
 		}()
 
-		res, err := fn(ctx)
+		res, err := fn(fnCtx)
 		ret = res
 		errch <- err
 	}()
-- 
2.43.0


From a31e153c5f7b8e6d25e3131a0061a3ab0d422968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:44 +0000
Subject: [PATCH 32/43] fix: do not lose the failure of a method call which is
 no gRPC status in the error handling

---
 grpc/federation/alias.go | 1 -
 grpc/federation/cel.go   | 2 +-
 grpc/federation/lib.go   | 9 +++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/grpc/federation/alias.go b/grpc/federation/alias.go
index 9c17c5e..f88d890 100644
--- a/grpc/federation/alias.go
+++ b/grpc/federation/alias.go
@@ -38,7 +38,6 @@ var (
 	Getenv                = os.Getenv
 	GRPCErrorf            = status.Errorf
 	NewGRPCStatus         = status.New
-	GRPCStatusFromError   = status.FromError
 	ErrorGroupWithContext = errgroup.WithContext
 	NewCELEnv             = cel.NewCustomEnv
 	NewCELVariable        = cel.Variable
diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 6373792..2f3b88d 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -921,7 +921,7 @@ func setCELProgramCache(ctx context.Context, cacheIndex int, program cel.Program
 }
 
 func SetGRPCError(ctx context.Context, value localValue, err error) {
-	stat, ok := grpcstatus.FromError(err)
+	stat, ok := GRPCStatusFromError(err)
 	if !ok {
 		return
 	}
diff --git a/grpc/federation/lib.go b/grpc/federation/lib.go
index 0ac5c57..c4c0bb5 100644
--- a/grpc/federation/lib.go
+++ b/grpc/federation/lib.go
@@ -139,3 +139,12 @@ func IsOneofField[T any](v any) bool {
 	_, ok := v.(T)
 	return ok
 }
+
+// GRPCStatusFromError returns the gRPC status of the error.
+// An error which is no gRPC status is converted to the one which the gRPC server creates from it.
+func GRPCStatusFromError(err error) (*Status, bool) {
+	if stat, ok := grpcstatus.FromError(err); ok {
+		return stat, true
+	}
+	return grpcstatus.FromContextError(err), true
+}
-- 
2.43.0


From 80f7dd8acd3d4c1a3c306bfd4f8dc50a0ad7facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:52 +0000
Subject: [PATCH 33/43] fix: generate casts for enums of service variables

---
 generator/code_generator.go | 14 ++++++++++++++
 resolver/service.go         | 17 +++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 50958ca..179acb2 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -3638,6 +3638,20 @@ func (s *Service) CastFields() []*CastField {
 			}
 		}
 	}
+	if s.Rule != nil {
+		for _, svcVar := range s.Rule.Vars {
+			for _, decl := range svcVar.TypeConversionDecls() {
+				fnName := castFuncName(decl.From, decl.To)
+				castFieldMap[fnName] = &CastField{
+					Name:     fnName,
+					service:  s.Service,
+					fromType: decl.From,
+					toType:   decl.To,
+					file:     s.file,
+				}
+			}
+		}
+	}
 	ret := make([]*CastField, 0, len(castFieldMap))
 	for _, field := range castFieldMap {
 		ret = append(ret, field)
diff --git a/resolver/service.go b/resolver/service.go
index 18d9890..18c6dd3 100644
--- a/resolver/service.go
+++ b/resolver/service.go
@@ -187,6 +187,23 @@ func (sv *ServiceVariable) MessageExprs() []*MessageExpr {
 	return nil
 }
 
+func (sv *ServiceVariable) TypeConversionDecls() []*TypeConversionDecl {
+	if sv.Expr == nil || sv.Expr.Type == nil {
+		return nil
+	}
+	var fromType *Type
+	switch {
+	case sv.Expr.Enum != nil:
+		fromType = sv.Expr.Enum.By.Out
+	case sv.Expr.Map != nil && sv.Expr.Map.Expr.Enum != nil:
+		fromType = sv.Expr.Map.Expr.Enum.By.Out.Clone()
+		fromType.Repeated = true
+	default:
+		return nil
+	}
+	return uniqueTypeConversionDecls(typeConversionDecls(fromType, sv.Expr.Type, make(map[string]struct{})))
+}
+
 func (sv *ServiceVariable) ToVariableDefinition() *VariableDefinition {
 	def := &VariableDefinition{
 		Name: sv.Name,
-- 
2.43.0


From b5f9ee906e735f7daf623394230d4899315cd325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:52 +0000
Subject: [PATCH 34/43] fix: allow several validations without name in service
 variables and respect their if condition

---
 generator/code_generator.go        | 15 +++++++++++
 generator/templates/server.go.tmpl | 43 +++++++++++++++++++++---------
 resolver/resolver.go               |  2 +-
 3 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 179acb2..8eae13f 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -468,6 +468,21 @@ type ServiceVariables struct {
 	svc  *Service
 }
 
+// Fields returns the variables without those that have the same name as a preceding one.
+// Since the name is optional, there can be multiple variables without name.
+func (v *ServiceVariables) Fields() []*ServiceVariable {
+	ret := make([]*ServiceVariable, 0, len(v.Vars))
+	nameMap := make(map[string]struct{})
+	for _, svcVar := range v.Vars {
+		if _, exists := nameMap[svcVar.ProtoName()]; exists {
+			continue
+		}
+		nameMap[svcVar.ProtoName()] = struct{}{}
+		ret = append(ret, svcVar)
+	}
+	return ret
+}
+
 func (v *ServiceVariables) Defs() []*VariableDefinition {
 	ret := make([]*VariableDefinition, 0, len(v.Vars))
 	for _, svcVar := range v.Vars {
diff --git a/generator/templates/server.go.tmpl b/generator/templates/server.go.tmpl
index b7369fd..c87a028 100644
--- a/generator/templates/server.go.tmpl
+++ b/generator/templates/server.go.tmpl
@@ -162,7 +162,7 @@ func with{{ $serviceName }}Env(ctx context.Context, env *{{ $serviceName }}Env)
 {{- if $svcVars }}
 // {{ $serviceName }}Variable keeps the initial values.
 type {{ $serviceName }}Variable struct {
-	{{- range $svcVars.Vars }}
+	{{- range $svcVars.Fields }}
 	{{ .Name }} {{ .Type }}
 	{{- end }}
 }
@@ -297,7 +297,7 @@ func New{{ $serviceName }}(cfg {{ $serviceName }}Config) (*{{ $serviceName }}, e
 
 		{{- if $svcVars }}
 		"grpc.federation.private.ServiceVariable": {
-			{{- range $svcVars.Vars }}
+			{{- range $svcVars.Fields }}
 			"{{ .ProtoName }}": grpcfed.NewCELFieldType({{ .CELType }}, "{{ .Name }}"),
 			{{- end }}
 		},
@@ -424,26 +424,23 @@ func (s *{{ $serviceName }}) initServiceVariables() error {
 
 	{{ range $svcVars.Defs }}
 	{{- if .IsValidation }}
+	{{- if .UseIf }}
 	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 		Value: value,
-		Expr: `{{ .Expr.Validation.Error.If.Expr }}`,
+		Expr: `{{ .If }}`,
 		CacheIndex: {{ .CELCacheIndex }},
 		Body: func(value *localValueType) error {
-			errmsg, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
-				Value: value,
-				Expr: `{{ .Expr.Validation.Error.Message.Expr }}`,
-				OutType: reflect.TypeOf(""),
-				CacheIndex: {{ .CELCacheIndex }},
-			})
-			if err != nil {
-				return err
-			}
-			return grpcfed.NewGRPCStatus(grpcfed.InternalCode, errmsg.(string)).Err()
+			return {{ template "serviceVariableValidation" . }}
 		},
 	}); err != nil {
 		return err
 	}
 	{{- else }}
+	if err := {{ template "serviceVariableValidation" . }}; err != nil {
+		return err
+	}
+	{{- end }}
+	{{- else }}
 	{{- template "declDef" . }}
 	if err := def_{{ .Key }}(ctx); err != nil {
 		return err
@@ -820,3 +817,23 @@ var {{ $dst }} {{ $enumSelector.Type }}
 {{- template "setEnumValueByEnumSelector" (map "Dst" $dst "EnumSelector" $enumSelector) }}
 ret.{{ .Name }} = {{ $dst }}
 {{- end -}}
+
+{{- define "serviceVariableValidation" -}}
+grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
+	Value: value,
+	Expr: `{{ .Expr.Validation.Error.If.Expr }}`,
+	CacheIndex: {{ .CELCacheIndex }},
+	Body: func(value *localValueType) error {
+		errmsg, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
+			Value: value,
+			Expr: `{{ .Expr.Validation.Error.Message.Expr }}`,
+			OutType: reflect.TypeOf(""),
+			CacheIndex: {{ .CELCacheIndex }},
+		})
+		if err != nil {
+			return err
+		}
+		return grpcfed.NewGRPCStatus(grpcfed.InternalCode, errmsg.(string)).Err()
+	},
+})
+{{- end }}
diff --git a/resolver/resolver.go b/resolver/resolver.go
index fd94abb..3ec217b 100644
--- a/resolver/resolver.go
+++ b/resolver/resolver.go
@@ -2154,7 +2154,7 @@ func (r *Resolver) resolveServiceVariable(ctx *context, env *cel.Env, def *feder
 		)
 		return nil
 	}
-	if _, exists := nameMap[name]; exists {
+	if _, exists := nameMap[name]; exists && name != "" {
 		ctx.addError(
 			ErrWithLocation(
 				fmt.Sprintf("found duplicated variable name %q", name),
-- 
2.43.0


From e747e01f4027e37b1aca0764dc71ca4b330fb8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:34 +0000
Subject: [PATCH 35/43] fix: generate valid code for texts which have a back
 quote or the end of a comment

---
 generator/code_generator.go               |  5 +++-
 generator/funcs.go                        | 16 ++++++++++++
 generator/templates/error_handler.go.tmpl | 24 ++++++++---------
 generator/templates/eval.go.tmpl          | 32 +++++++++++------------
 generator/templates/server.go.tmpl        | 14 +++++-----
 generator/templates/validation.go.tmpl    |  8 +++---
 6 files changed, 59 insertions(+), 40 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 8eae13f..6ddae98 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -460,7 +460,8 @@ func (v *EnvVar) Tag() string {
 	if v.EnvVar.Option.Ignored {
 		opts = append(opts, `ignored:"true"`)
 	}
-	return strings.Join(opts, " ")
+	// Since the tag is written as a raw string, it must not have a back quote.
+	return strings.ReplaceAll(strings.Join(opts, " "), "`", `\x60`)
 }
 
 type ServiceVariables struct {
@@ -3681,8 +3682,10 @@ func loadTemplate() (*template.Template, error) {
 	tmpl, err := template.New("server.go.tmpl").Funcs(
 		map[string]any{
 			"add":             Add,
+			"blockComment":    BlockComment,
 			"map":             CreateMap,
 			"parentCtx":       ParentCtx,
+			"raw":             RawString,
 			"toLocalVariable": LocalVariable,
 		},
 	).ParseFS(tmpls, "templates/*.tmpl")
diff --git a/generator/funcs.go b/generator/funcs.go
index 8397254..0fe25df 100644
--- a/generator/funcs.go
+++ b/generator/funcs.go
@@ -3,6 +3,8 @@ package generator
 import (
 	"errors"
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/mercari/grpc-federation/util"
 )
@@ -47,3 +49,17 @@ func Add(n1, n2 int) int {
 func LocalVariable(v string) string {
 	return util.ToPrivateGoVariable(v) + "Value"
 }
+
+// RawString creates a raw string literal. If v cannot be represented as a raw string literal, it creates an interpreted one.
+func RawString(v any) string {
+	s := fmt.Sprint(v)
+	if strings.ContainsAny(s, "`\r\x00\uFEFF") {
+		return strconv.Quote(s)
+	}
+	return "`" + s + "`"
+}
+
+// BlockComment creates the text of a block comment, which must not have the end of the comment.
+func BlockComment(s string) string {
+	return strings.ReplaceAll(s, "*/", "* /")
+}
diff --git a/generator/templates/error_handler.go.tmpl b/generator/templates/error_handler.go.tmpl
index f856eaf..b7e0d68 100644
--- a/generator/templates/error_handler.go.tmpl
+++ b/generator/templates/error_handler.go.tmpl
@@ -38,7 +38,7 @@ stat, handleErr := func() (*localStatusType, error) {
 	{{- end }}
 	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 		Value: value,
-		Expr: `{{ .If.Expr }}`,
+		Expr: {{ raw .If.Expr }},
 		CacheIndex: {{ $def.CELCacheIndex }},
 		Body: func(value *localValueType) error {
 			{{- if .Ignore }}
@@ -53,7 +53,7 @@ stat, handleErr := func() (*localStatusType, error) {
 					ret = v // assign customized response to the result value.
 					return nil
 				},
-				By: `{{ .IgnoreAndResponse.Expr }}`,
+				By: {{ raw .IgnoreAndResponse.Expr }},
 				ByCacheIndex: {{ $def.CELCacheIndex }},
 			}); err != nil {
 				grpcfed.Logger(ctx).ErrorContext(ctx, "failed to set response when ignored", slog.String("error", err.Error()))
@@ -65,7 +65,7 @@ stat, handleErr := func() (*localStatusType, error) {
 			{{- if .Message }}
 			errmsg, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 				Value: value,
-				Expr: `{{ .Message.Expr }}`,
+				Expr: {{ raw .Message.Expr }},
 				OutType: reflect.TypeOf(""),
 				CacheIndex: {{ $def.CELCacheIndex }},
 			})
@@ -96,7 +96,7 @@ stat, handleErr := func() (*localStatusType, error) {
 			{{- end }}
 			if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 				Value: value,
-				Expr: `{{ .If.Expr }}`,
+				Expr: {{ raw .If.Expr }},
 				CacheIndex: {{ $def.CELCacheIndex }},
 				Body: func(value *localValueType) error {
 					{{- if .MessageSet }}
@@ -122,7 +122,7 @@ stat, handleErr := func() (*localStatusType, error) {
 					{
 						detail, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 							Value: value,
-							Expr: `{{ .Expr }}`,
+							Expr: {{ raw .Expr }},
 							OutType: reflect.TypeOf({{ .Type }}),
 							CacheIndex: {{ $def.CELCacheIndex }},
 						})
@@ -262,9 +262,9 @@ func(){
 if detail := grpcfed.PreconditionFailure(ctx, value, []*grpcfed.PreconditionFailureViolation{
 	{{- range .Violations }}
 	{
-		Type:    `{{ .Type.Expr }}`,
-		Subject: `{{ .Subject.Expr }}`,
-		Desc:    `{{ .Description.Expr }}`,
+		Type:    {{ raw .Type.Expr }},
+		Subject: {{ raw .Subject.Expr }},
+		Desc:    {{ raw .Description.Expr }},
 		TypeCacheIndex: {{ .CELCacheIndex }},
 		SubjectCacheIndex: {{ .CELCacheIndex }},
 		DescCacheIndex: {{ .CELCacheIndex }},
@@ -279,8 +279,8 @@ if detail := grpcfed.PreconditionFailure(ctx, value, []*grpcfed.PreconditionFail
 if detail := grpcfed.BadRequest(ctx, value, []*grpcfed.BadRequestFieldViolation{
 	{{- range .FieldViolations }}
 	{
-		Field: `{{ .Field.Expr }}`,
-		Desc:  `{{ .Description.Expr }}`,
+		Field: {{ raw .Field.Expr }},
+		Desc:  {{ raw .Description.Expr }},
 		FieldCacheIndex: {{ .CELCacheIndex }},
 		DescCacheIndex: {{ .CELCacheIndex }},
 	},
@@ -293,8 +293,8 @@ if detail := grpcfed.BadRequest(ctx, value, []*grpcfed.BadRequestFieldViolation{
 {{- define "localizedMessage" }}
 if detail := grpcfed.LocalizedMessage(ctx, &grpcfed.LocalizedMessageParam{
 	Value: value,
-	Locale: "{{ .Locale }}",
-	Message: `{{ .Message.Expr }}`,
+	Locale: {{ printf "%q" .Locale }},
+	Message: {{ raw .Message.Expr }},
 	CacheIndex: {{ .CELCacheIndex }},
 }); detail != nil {
 	details = append(details, detail)
diff --git a/generator/templates/eval.go.tmpl b/generator/templates/eval.go.tmpl
index e45d19c..645dfe0 100644
--- a/generator/templates/eval.go.tmpl
+++ b/generator/templates/eval.go.tmpl
@@ -1,23 +1,23 @@
 {{- define "declDef" }}
 {{- $def := . }}
 /*
-{{ .ProtoComment }}
+{{ blockComment .ProtoComment }}
 */
 def_{{ .Key }} := func(ctx context.Context) error {
 	{{- if .IsMap -}}
 	{{- $mapResolver := .MapResolver -}}
 	return grpcfed.EvalDefMap(ctx, value, grpcfed.DefMap[{{ .Type }}, {{ $mapResolver.IteratorSourceType }}, *localValueType]{
 		{{- if .UseIf }}
-		If: `{{ .If }}`,
+		If: {{ raw .If }},
 		IfCacheIndex: {{ .CELCacheIndex }},
 		{{- end }}
-		Name:   `{{ .Key }}`,
+		Name:   {{ raw .Key }},
 		Type:   {{ .CELType }},
 		Setter: func(value *localValueType, v {{ .Type }}) error {
 			value.vars.{{ .VarFieldName }} = v
 			return nil
 		},
-		IteratorName: `{{ $mapResolver.IteratorName }}`,
+		IteratorName: {{ raw $mapResolver.IteratorName }},
 		IteratorType: {{ $mapResolver.IteratorCELType }},
 		IteratorSource: func(value *localValueType) []{{ $mapResolver.IteratorSourceType }}{ return {{ $mapResolver.IteratorSource }} },
 		Iterator: func(ctx context.Context, value *grpcfed.MapIteratorValue) (any, error) {
@@ -25,7 +25,7 @@ def_{{ .Key }} := func(ctx context.Context) error {
 			{{- $by := $mapResolver.MapExpr.Expr.By }}
 			return grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 				Value: value,
-				Expr: `{{ $by.Expr }}`,
+				Expr: {{ raw $by.Expr }},
 				OutType: reflect.TypeOf({{ $mapResolver.IteratorZeroValue }}),
 				CacheIndex: {{ .CELCacheIndex }},
 			})
@@ -34,7 +34,7 @@ def_{{ .Key }} := func(ctx context.Context) error {
 			{{- $enumSelector := $mapResolver.EnumSelector }}
 			src, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 				Value: value,
-				Expr: `{{ $mapResolver.MapExpr.Expr.Enum.By.Expr }}`,
+				Expr: {{ raw $mapResolver.MapExpr.Expr.Enum.By.Expr }},
 				OutType: reflect.TypeOf({{ $mapResolver.EnumSrcZeroValue }}),
 				CacheIndex: {{ .CELCacheIndex }},
 			})
@@ -73,17 +73,17 @@ def_{{ .Key }} := func(ctx context.Context) error {
 	{{- else -}}
 	return grpcfed.EvalDef(ctx, value, grpcfed.Def[{{ .Type }}, *localValueType]{
 		{{- if .UseIf }}
-		If: `{{ .If }}`,
+		If: {{ raw .If }},
 		IfCacheIndex: {{ .CELCacheIndex }},
 		{{- end }}
-		Name:   `{{ .Key }}`,
+		Name:   {{ raw .Key }},
 		Type:   {{ .CELType }},
 		Setter: func(value *localValueType, v {{ .Type }}) error {
 			value.vars.{{ .VarFieldName }} = v
 			return nil
 		},
 		{{- if .IsBy }}
-		By:     `{{ .By.Expr }}`,
+		By:     {{ raw .By.Expr }},
 		ByCacheIndex: {{ .CELCacheIndex }},
 		{{- else if .IsValidation }}
 		Validation:  func(ctx context.Context, value *localValueType) error {
@@ -94,7 +94,7 @@ def_{{ .Key }} := func(ctx context.Context) error {
 			{{- $enumSelector := .EnumSelector }}
 			src, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 				Value: value,
-				Expr: `{{ .Enum.By.Expr }}`,
+				Expr: {{ raw .Enum.By.Expr }},
 				OutType: reflect.TypeOf({{ .EnumSrcZeroValue }}),
 				CacheIndex: {{ .CELCacheIndex }},
 			})
@@ -139,7 +139,7 @@ def_{{ .Key }} := func(ctx context.Context) error {
 				{{- template "retry" (map "Retry" .Retry) }}
 				return grpcfed.WithRetry(ctx, &grpcfed.RetryParam[{{ .ReturnType }}]{
 					Value: value,
-					If: `{{ .Retry.If.Expr }}`,
+					If: {{ raw .Retry.If.Expr }},
 					CacheIndex: {{ .CELCacheIndex }},
 					BackOff: b,
 					Body: func() (*{{ .ReturnType }}, error) {
@@ -154,7 +154,7 @@ def_{{ .Key }} := func(ctx context.Context) error {
 			{{- template "retry" (map "Retry" .Retry) }}
 			ret, err := grpcfed.WithRetry(ctx, &grpcfed.RetryParam[{{ .ReturnType }}]{
 				Value: value,
-				If: `{{ .Retry.If.Expr }}`,
+				If: {{ raw .Retry.If.Expr }},
 				CacheIndex: {{ .CELCacheIndex }},
 				BackOff: b,
 				Body: func() (*{{ .ReturnType }}, error) {
@@ -254,12 +254,12 @@ if err := eg.Wait(); err != nil {
 {{ $arg.ProtoComment }}
 if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 	Value: value,
-	Expr: `{{ $arg.If.Expr }}`,
+	Expr: {{ raw $arg.If.Expr }},
 	CacheIndex: {{ $def.CELCacheIndex }},
 	Body: func(value *localValueType) error {
 		return grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $arg.Type }}]{
 			Value: value,
-			Expr: `{{ $arg.CEL.Expr }}`,
+			Expr: {{ raw $arg.CEL.Expr }},
 			CacheIndex: {{ $def.CELCacheIndex }},
 			Setter: func(v {{ $arg.Type }}) error {
 				{{- template "setArgumentBySetter" $arg }}
@@ -273,7 +273,7 @@ if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 {{ $arg.ProtoComment }}
 if err := grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $arg.Type }}]{
 	Value: value,
-	Expr: `{{ $arg.CEL.Expr }}`,
+	Expr: {{ raw $arg.CEL.Expr }},
 	CacheIndex: {{ $def.CELCacheIndex }},
 	Setter: func(v {{ $arg.Type }}) error {
 		{{- template "setArgumentBySetter" $arg }}
@@ -292,7 +292,7 @@ if err := grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $arg.Type }}]{
 
 if err := grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $arg.Type }}]{
 	Value: value,
-	Expr: `{{ $arg.CEL.Expr }}`,
+	Expr: {{ raw $arg.CEL.Expr }},
 	CacheIndex: {{ $def.CELCacheIndex }},
 	Setter: func(v {{ $arg.Type }}) error {
 		{{- template "setArgumentBySetter" $arg }}
diff --git a/generator/templates/server.go.tmpl b/generator/templates/server.go.tmpl
index c87a028..8a6a106 100644
--- a/generator/templates/server.go.tmpl
+++ b/generator/templates/server.go.tmpl
@@ -34,7 +34,7 @@ var {{ .Name }}_attrMap = grpcfed.EnumAttributeMap[{{ .Name }}]{
 	{{- range .Values }}
 	{{ .Name }}: grpcfed.EnumValueAttributeMap{
 		{{- range .Attrs }}
-		`{{ .Name }}`: `{{ .Value }}`,
+		{{ raw .Name }}: {{ raw .Value }},
 		{{- end }}
 	},
 	{{- end }}
@@ -427,7 +427,7 @@ func (s *{{ $serviceName }}) initServiceVariables() error {
 	{{- if .UseIf }}
 	if err := grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 		Value: value,
-		Expr: `{{ .If }}`,
+		Expr: {{ raw .If }},
 		CacheIndex: {{ .CELCacheIndex }},
 		Body: func(value *localValueType) error {
 			return {{ template "serviceVariableValidation" . }}
@@ -709,7 +709,7 @@ func (s *{{ $serviceName }}) {{ .Name }}(v {{ .ValueType }}) slog.Value {
 {{- range $oneofFields }}
 oneof_{{ .Name }}, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 	Value: value,
-	Expr: `{{ .Expr }}`,
+	Expr: {{ raw .Expr }},
 	OutType: reflect.TypeOf(true),
 	CacheIndex: {{ $msg.CELCacheIndex }},
 })
@@ -739,7 +739,7 @@ default:
 {{- if $value.By }}
 if err := grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $value.Type }}]{
 	Value: value,
-	Expr: `{{ $value.By }}`,
+	Expr: {{ raw $value.By }},
 	CacheIndex: {{ $msg.CELCacheIndex }},
 	Setter: func(v {{ $value.Type }}) error {
 		{{- template "setReturnValueBySetter" $value.SetterParam }}
@@ -766,7 +766,7 @@ ret.{{ $name }} = {{ $value.Value }}
 {{ $value.ProtoComment }}
 if err := grpcfed.SetCELValue(ctx, &grpcfed.SetCELValueParam[{{ $value.Type }}]{
 	Value: value,
-	Expr: `{{ $value.CEL.Expr }}`,
+	Expr: {{ raw $value.CEL.Expr }},
 	CacheIndex: {{ $msg.CELCacheIndex }},
 	Setter: func(v {{ $value.Type }}) error {
 		{{- template "setReturnValueBySetter" $value.SetterParam }}
@@ -821,12 +821,12 @@ ret.{{ .Name }} = {{ $dst }}
 {{- define "serviceVariableValidation" -}}
 grpcfed.If(ctx, &grpcfed.IfParam[*localValueType]{
 	Value: value,
-	Expr: `{{ .Expr.Validation.Error.If.Expr }}`,
+	Expr: {{ raw .Expr.Validation.Error.If.Expr }},
 	CacheIndex: {{ .CELCacheIndex }},
 	Body: func(value *localValueType) error {
 		errmsg, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 			Value: value,
-			Expr: `{{ .Expr.Validation.Error.Message.Expr }}`,
+			Expr: {{ raw .Expr.Validation.Error.Message.Expr }},
 			OutType: reflect.TypeOf(""),
 			CacheIndex: {{ .CELCacheIndex }},
 		})
diff --git a/generator/templates/validation.go.tmpl b/generator/templates/validation.go.tmpl
index 6add04c..9f09c22 100644
--- a/generator/templates/validation.go.tmpl
+++ b/generator/templates/validation.go.tmpl
@@ -12,13 +12,13 @@ if _, err := func() (any, error) {
 {{- end }}
 if err := grpcfed.If({{ $ctx }}, &grpcfed.IfParam[*localValueType]{
 	Value: value,
-	Expr: `{{ $error.If.Expr }}`,
+	Expr: {{ raw $error.If.Expr }},
 	CacheIndex: {{ $error.CELCacheIndex }},
 	Body: func(value *localValueType) error {
 		{{- if $error.Message }}
 		errmsg, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 			Value: value,
-			Expr: `{{ $error.Message.Expr }}`,
+			Expr: {{ raw $error.Message.Expr }},
 			OutType: reflect.TypeOf(""),
 			CacheIndex: {{ $error.CELCacheIndex }},
 		})
@@ -43,7 +43,7 @@ if err := grpcfed.If({{ $ctx }}, &grpcfed.IfParam[*localValueType]{
 		{{- end }}
 		if err := grpcfed.If({{ $ctx }}, &grpcfed.IfParam[*localValueType]{
 			Value: value,
-			Expr: `{{ .If.Expr }}`,
+			Expr: {{ raw .If.Expr }},
 			CacheIndex: {{ $error.CELCacheIndex }},
 			Body: func(value *localValueType) error {
 				{{- if .MessageSet }}
@@ -69,7 +69,7 @@ if err := grpcfed.If({{ $ctx }}, &grpcfed.IfParam[*localValueType]{
 				{
 					detail, err := grpcfed.EvalCEL(ctx, &grpcfed.EvalCELRequest{
 						Value: value,
-						Expr: `{{ .Expr }}`,
+						Expr: {{ raw .Expr }},
 						OutType: reflect.TypeOf({{ .Type }}),
 						CacheIndex: {{ $error.CELCacheIndex }},
 					})
-- 
2.43.0


From 08ca1764773ac1960bac9b0d5562495f86e44bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:28 +0000
Subject: [PATCH 36/43] fix: convert the response of a method which has both
 timeout and response options

---
 generator/code_generator.go        |  9 +++++++--
 generator/templates/server.go.tmpl | 12 +++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 6ddae98..7bca5d0 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -1710,8 +1710,13 @@ func (m *Method) ReturnType() string {
 	return m.file.toTypeText(resolver.NewMessageType(m.Response, false))
 }
 
-func (m *Method) ReturnTypeWithoutPtr() string {
-	return strings.TrimPrefix(m.ReturnType(), "*")
+// ResolverReturnType returns the type of the message which is used to create the response value.
+func (m *Method) ResolverReturnType() string {
+	return m.file.toTypeText(resolver.NewMessageType(m.FederationResponse(), false))
+}
+
+func (m *Method) ResolverReturnTypeWithoutPtr() string {
+	return strings.TrimPrefix(m.ResolverReturnType(), "*")
 }
 
 func (m *Method) ReturnTypeArguments() []string {
diff --git a/generator/templates/server.go.tmpl b/generator/templates/server.go.tmpl
index 8a6a106..f94f835 100644
--- a/generator/templates/server.go.tmpl
+++ b/generator/templates/server.go.tmpl
@@ -481,7 +481,7 @@ func (s *{{ $serviceName }}) {{ .Name }}(ctx context.Context, req {{ .RequestTyp
 	}()
 
 	{{- if .UseTimeout }}
-	res, err := grpcfed.WithTimeout[{{ .ReturnTypeWithoutPtr }}](ctx, "{{ .ProtoFQDN }}", {{ .Timeout }}, func(ctx context.Context) ({{ .ReturnType }}, error) {
+	{{ if .CustomResponse }}customRes{{ else }}res{{ end }}, err := grpcfed.WithTimeout[{{ .ResolverReturnTypeWithoutPtr }}](ctx, "{{ .ProtoFQDN }}", {{ .Timeout }}, func(ctx context.Context) ({{ .ResolverReturnType }}, error) {
 		return s.{{ .ResolverName }}(ctx, &{{ .ArgumentName }}{
 			{{- range .ReturnTypeArguments }}
 			{{ . }}: req.Get{{ . }}(),
@@ -493,7 +493,17 @@ func (s *{{ $serviceName }}) {{ .Name }}(ctx context.Context, req {{ .RequestTyp
 		grpcfed.OutputErrorLog(ctx, err)
 		return nil, err
 	}
+	{{- if .CustomResponse }}
+	ret, err := s.{{ .ResponseCastFuncName }}(customRes)
+	if err != nil {
+		grpcfed.RecordErrorToSpan(ctx, err)
+		grpcfed.OutputErrorLog(ctx, err)
+		return nil, err
+	}
+	return ret, nil
+	{{- else }}
 	return res, nil
+	{{- end }}
 	{{- else if .CustomResponse }}
 	customRes, err := s.{{ .ResolverName }}(ctx, &{{ .ArgumentName }}{
 		{{- range .ReturnTypeArguments }}
-- 
2.43.0


From 1c0a096b9c6d62cc808cd4863bd150c3c9773854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:55 +0000
Subject: [PATCH 37/43] fix: do not evaluate a definition again after it
 panicked

---
 grpc/federation/cel.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/cel.go b/grpc/federation/cel.go
index 2f3b88d..0f741e1 100644
--- a/grpc/federation/cel.go
+++ b/grpc/federation/cel.go
@@ -7,6 +7,7 @@ import (
 	"log/slog"
 	"math"
 	"reflect"
+	"runtime/debug"
 	"sort"
 	"strings"
 	"sync"
@@ -443,7 +444,8 @@ func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
 		if exists {
 			return cache.result, cache.err
 		}
-		ret, err := cb()
+		// A panic is a result too. Otherwise, another goroutine would evaluate it again.
+		ret, err := doWithRecover(cb)
 		v.sgCache.mu.Lock()
 		v.sgCache.resultMap[name] = &singleflightCacheResult{
 			result: ret,
@@ -455,6 +457,15 @@ func (v *LocalValue) do(name string, cb func() (any, error)) (any, error) {
 	return ret, err
 }
 
+func doWithRecover(cb func() (any, error)) (ret any, e error) {
+	defer func() {
+		if r := recover(); r != nil {
+			ret, e = nil, RecoverError(r, debug.Stack())
+		}
+	}()
+	return cb()
+}
+
 func (v *LocalValue) rlock() {
 	v.mu.RLock()
 }
-- 
2.43.0


From 610d7c232d864962df97a42fa46be3732b75b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:46 +0000
Subject: [PATCH 38/43] fix: generate compiling code for exclusive fields of
 enums which are converted

---
 generator/code_generator.go      | 2 ++
 generator/templates/cast.go.tmpl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 7bca5d0..2b242c9 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2360,6 +2360,7 @@ type CastOneof struct {
 	FieldName    string
 	CastName     string
 	RequiredCast bool
+	IsMessage    bool
 }
 
 func (f *CastField) ToOneof() *CastOneof {
@@ -2388,6 +2389,7 @@ func (f *CastField) ToOneof() *CastOneof {
 		FieldName:    util.ToPublicGoVariable(toField.Name),
 		RequiredCast: requiredCast,
 		CastName:     castFuncName(fromType, toType),
+		IsMessage:    fromType.Kind == types.Message,
 	}
 }
 
diff --git a/generator/templates/cast.go.tmpl b/generator/templates/cast.go.tmpl
index 168960c..9c1b348 100644
--- a/generator/templates/cast.go.tmpl
+++ b/generator/templates/cast.go.tmpl
@@ -95,9 +95,11 @@ return ret, nil
 {{- end }}
 
 {{- define "castOneof" }}
+{{- if .IsMessage }}
 if from == nil {
 	return nil, nil
 }
+{{- end }}
 {{ $fieldName := toLocalVariable .FieldName }}
 {{- if .RequiredCast }}
 {{ $fieldName }}, err := s.{{ .CastName }}(from)
-- 
2.43.0


From c5b1a04981a765437decb6710059001d0c688448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:48 +0000
Subject: [PATCH 39/43] fix: respect the alias of a field when its message is
 converted for a request

---
 generator/code_generator.go | 16 ++--------------
 resolver/type_conversion.go | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index 2b242c9..f658b13 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -2280,7 +2280,7 @@ func (f *CastField) ToStruct() *CastStruct {
 			if field == nil {
 				continue
 			}
-			field.OneofCondition = f.file.oneofCaseCondition("from", f.fromStructField(toField, fromMsg))
+			field.OneofCondition = f.file.oneofCaseCondition("from", toField.ConversionSource(fromMsg))
 			field.OneofValue = f.file.oneofWrapperValue(toField, fmt.Sprintf("from.Get%s()", field.FromFieldName))
 			fields = append(fields, field)
 		}
@@ -2308,7 +2308,7 @@ func (f *CastField) ToStruct() *CastStruct {
 }
 
 func (f *CastField) toStructField(toField *resolver.Field, fromMsg *resolver.Message) *CastStructField {
-	fromField := f.fromStructField(toField, fromMsg)
+	fromField := toField.ConversionSource(fromMsg)
 	if fromField == nil {
 		return nil
 	}
@@ -2323,18 +2323,6 @@ func (f *CastField) toStructField(toField *resolver.Field, fromMsg *resolver.Mes
 	}
 }
 
-// fromStructField returns the field of fromMsg from which the value of toField is taken.
-func (f *CastField) fromStructField(toField *resolver.Field, fromMsg *resolver.Message) *resolver.Field {
-	if toField.HasRule() {
-		for _, alias := range toField.Rule.Aliases {
-			if fromMsg == alias.Message {
-				return alias
-			}
-		}
-	}
-	return fromMsg.Field(toField.Name)
-}
-
 // oneofCaseCondition returns the condition whether the field of the owner has been set.
 func (f *File) oneofCaseCondition(owner string, field *resolver.Field) string {
 	if field.Type.Kind != types.Message && field.Type.OneofField != nil {
diff --git a/resolver/type_conversion.go b/resolver/type_conversion.go
index 007adc5..e1b8363 100644
--- a/resolver/type_conversion.go
+++ b/resolver/type_conversion.go
@@ -70,7 +70,7 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 		}
 		decls = append(decls, &TypeConversionDecl{From: fromType, To: toType})
 		for _, field := range toType.Message.Fields {
-			fromField := fromType.Message.Field(field.Name)
+			fromField := field.ConversionSource(fromType.Message)
 			if fromField == nil {
 				continue
 			}
@@ -82,6 +82,38 @@ func typeConversionDecls(fromType, toType *Type, convertedFQDNMap map[string]str
 	return decls
 }
 
+// ConversionSource returns the field of fromMsg from which the value of f is taken
+// when fromMsg is converted to the message to which f belongs.
+func (f *Field) ConversionSource(fromMsg *Message) *Field {
+	for _, alias := range f.aliases() {
+		if fromMsg == alias.Message {
+			return alias
+		}
+	}
+	// If the fields of fromMsg are the aliases, the value is taken from the field which refers to f.
+	for _, field := range fromMsg.Fields {
+		for _, alias := range field.aliases() {
+			if alias.Message == f.Message && alias.Name == f.Name {
+				return field
+			}
+		}
+	}
+	field := fromMsg.Field(f.Name)
+	for _, alias := range field.aliases() {
+		if alias.Message == f.Message {
+			return nil
+		}
+	}
+	return field
+}
+
+func (f *Field) aliases() []*Field {
+	if !f.HasRule() {
+		return nil
+	}
+	return f.Rule.Aliases
+}
+
 func enumSelectorTypeConversionDecls(msg *Message, toType *Type, convertedFQDNMap map[string]struct{}) []*TypeConversionDecl {
 	var decls []*TypeConversionDecl
 	if msg.IsEnumSelector() {
-- 
2.43.0


From 7553505ab93b1693f7ad7926522acd1d9605f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:50 +0000
Subject: [PATCH 40/43] fix: convert the elements of repeated enums which are
 referred to from CEL

---
 resolver/cel.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resolver/cel.go b/resolver/cel.go
index 3c1fe7c..60e7f69 100644
--- a/resolver/cel.go
+++ b/resolver/cel.go
@@ -55,9 +55,15 @@ func (r *CELRegistry) FindStructFieldType(structType, fieldName string) (*celtyp
 				// HACK: cel-go currently does not support enum types, so it will always be an int type.
 				// Therefore, in case of enum type, copy the *Type of int type, and then map the created *Type to the enum type.
 				// Finally, at `fromCELType` phase, lookup enum type from *Type address.
+				// In case of repeated field, the type of the element is mapped.
 				copiedType := *fieldType.Type
-				fieldType.Type = &copiedType
-				r.enumTypeMap[fieldType.Type] = field.Type.Enum
+				if field.Type.Repeated {
+					copiedType = *fieldType.Type.Parameters()[0]
+					fieldType.Type = cel.ListType(&copiedType)
+				} else {
+					fieldType.Type = &copiedType
+				}
+				r.enumTypeMap[&copiedType] = field.Type.Enum
 			}
 		}
 		oneof := msg.Oneof(fieldName)
-- 
2.43.0


From 8add7add215e3b8e90ab4eefecacfc7f9bbbfe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:24 +0000
Subject: [PATCH 41/43] fix: convert the values of maps of enums which are
 referred to from CEL

---
 resolver/cel.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/resolver/cel.go b/resolver/cel.go
index 60e7f69..01977dc 100644
--- a/resolver/cel.go
+++ b/resolver/cel.go
@@ -51,19 +51,20 @@ func (r *CELRegistry) FindStructFieldType(structType, fieldName string) (*celtyp
 	fieldType, found := r.Registry.FindStructFieldType(structType, fieldName)
 	if msg := r.messageMap[structType]; msg != nil {
 		if field := msg.Field(fieldName); field != nil {
-			if field.Type.Kind == types.Enum {
-				// HACK: cel-go currently does not support enum types, so it will always be an int type.
-				// Therefore, in case of enum type, copy the *Type of int type, and then map the created *Type to the enum type.
-				// Finally, at `fromCELType` phase, lookup enum type from *Type address.
-				// In case of repeated field, the type of the element is mapped.
-				copiedType := *fieldType.Type
-				if field.Type.Repeated {
-					copiedType = *fieldType.Type.Parameters()[0]
-					fieldType.Type = cel.ListType(&copiedType)
-				} else {
-					fieldType.Type = &copiedType
+			// HACK: cel-go currently does not support enum types, so it will always be an int type.
+			// Therefore, in case of enum type, copy the *Type of int type, and then map the created *Type to the enum type.
+			// Finally, at `fromCELType` phase, lookup enum type from *Type address.
+			// In case of repeated and map fields, the type of the element and of the value are mapped.
+			switch {
+			case field.Type.Kind == types.Enum && field.Type.Repeated:
+				fieldType.Type = cel.ListType(r.copyAsEnumType(fieldType.Type.Parameters()[0], field.Type.Enum))
+			case field.Type.Kind == types.Enum:
+				fieldType.Type = r.copyAsEnumType(fieldType.Type, field.Type.Enum)
+			case field.Type.Kind == types.Message && field.Type.Message != nil && field.Type.Message.IsMapEntry:
+				if value := field.Type.Message.Field("value"); value != nil && value.Type.Kind == types.Enum {
+					params := fieldType.Type.Parameters()
+					fieldType.Type = cel.MapType(params[0], r.copyAsEnumType(params[1], value.Type.Enum))
 				}
-				r.enumTypeMap[&copiedType] = field.Type.Enum
 			}
 		}
 		oneof := msg.Oneof(fieldName)
@@ -85,6 +86,12 @@ func (r *CELRegistry) FindStructFieldType(structType, fieldName string) (*celtyp
 	return fieldType, found
 }
 
+func (r *CELRegistry) copyAsEnumType(t *celtypes.Type, enum *Enum) *celtypes.Type {
+	copied := *t
+	r.enumTypeMap[&copied] = enum
+	return &copied
+}
+
 func (r *CELRegistry) LookupEnum(t *celtypes.Type) (*Enum, bool) {
 	enum, found := r.enumTypeMap[t]
 	return enum, found
-- 
2.43.0


From 90567c54e0a5a77cbfd37ddc82f7c857ec061af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:02 +0000
Subject: [PATCH 42/43] fix: enums as arguments and results of plugin functions

A plugin function with an enum as its result was refused by cel-go, as its
overloads differed in nothing but the result type, and the code of the plugin
did not compile; a repeated enum as an argument was declared as a single
number as well.
---
 generator/code_generator.go   |  8 ++++++--
 grpc/federation/cel_plugin.go | 12 ++++++++++++
 resolver/cel.go               | 17 +++++++++++++++--
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/generator/code_generator.go b/generator/code_generator.go
index f658b13..631c886 100644
--- a/generator/code_generator.go
+++ b/generator/code_generator.go
@@ -253,8 +253,10 @@ func (r *CELFunctionReturn) Converter() string {
 			return "ToFloat64ListCELPluginResponse"
 		case types.Float:
 			return "ToFloat32ListCELPluginResponse"
-		case types.Int32, types.Sint32, types.Sfixed32, types.Enum:
+		case types.Int32, types.Sint32, types.Sfixed32:
 			return "ToInt32ListCELPluginResponse"
+		case types.Enum:
+			return "ToEnumListCELPluginResponse"
 		case types.Int64, types.Sint64, types.Sfixed64:
 			return "ToInt64ListCELPluginResponse"
 		case types.Uint32, types.Fixed32:
@@ -279,8 +281,10 @@ func (r *CELFunctionReturn) Converter() string {
 		return "ToFloat64CELPluginResponse"
 	case types.Float:
 		return "ToFloat32CELPluginResponse"
-	case types.Int32, types.Sint32, types.Sfixed32, types.Enum:
+	case types.Int32, types.Sint32, types.Sfixed32:
 		return "ToInt32CELPluginResponse"
+	case types.Enum:
+		return "ToEnumCELPluginResponse"
 	case types.Int64, types.Sint64, types.Sfixed64:
 		return "ToInt64CELPluginResponse"
 	case types.Uint32, types.Fixed32:
diff --git a/grpc/federation/cel_plugin.go b/grpc/federation/cel_plugin.go
index 9f5e069..0afc5d1 100644
--- a/grpc/federation/cel_plugin.go
+++ b/grpc/federation/cel_plugin.go
@@ -265,6 +265,18 @@ func ToInt32ListCELPluginResponse(v []int32) (*celplugin.CELPluginResponse, erro
 	return ToInt64ListCELPluginResponse(i64)
 }
 
+func ToEnumCELPluginResponse[T ~int32](v T) (*celplugin.CELPluginResponse, error) {
+	return ToInt32CELPluginResponse(int32(v))
+}
+
+func ToEnumListCELPluginResponse[T ~int32](v []T) (*celplugin.CELPluginResponse, error) {
+	i32 := make([]int32, 0, len(v))
+	for _, vv := range v {
+		i32 = append(i32, int32(vv))
+	}
+	return ToInt32ListCELPluginResponse(i32)
+}
+
 func ToInt64CELPluginResponse(v int64) (*celplugin.CELPluginResponse, error) {
 	return &celplugin.CELPluginResponse{Value: toInt64CELPluginValue(v)}, nil
 }
diff --git a/resolver/cel.go b/resolver/cel.go
index 01977dc..d880985 100644
--- a/resolver/cel.go
+++ b/resolver/cel.go
@@ -257,14 +257,14 @@ func (f *CELFunction) signatures(args []*Type, ret *Type) []*CELPluginFunctionSi
 		if arg.Kind == types.Enum {
 			sigs = append(sigs,
 				f.signatures(
-					append(append(append([]*Type{}, args[:idx]...), Int32Type), args[idx+1:]...),
+					append(append(append([]*Type{}, args[:idx]...), enumNumberType(arg)), args[idx+1:]...),
 					ret,
 				)...,
 			)
 		}
 	}
 	if ret.Kind == types.Enum {
-		sigs = append(sigs, f.signatures(args, Int32Type)...)
+		sigs = append(sigs, f.signatures(args, enumNumberType(ret))...)
 	}
 	var celArgs []*cel.Type
 	for _, arg := range args {
@@ -278,6 +278,14 @@ func (f *CELFunction) signatures(args []*Type, ret *Type) []*CELPluginFunctionSi
 	return sigs
 }
 
+// enumNumberType returns the number type that stands for the (repeated) enum type.
+func enumNumberType(enum *Type) *Type {
+	if enum.Repeated {
+		return Int32RepeatedType
+	}
+	return Int32Type
+}
+
 func (f *CELFunction) toSignatureID(t []*Type) string {
 	var typeNames []string
 	for _, tt := range t {
@@ -296,7 +304,12 @@ func (plugin *CELPlugin) CompileOptions() []cel.EnvOption {
 			overload cel.FunctionOpt
 			bindFunc = cel.FunctionBinding(func(args ...ref.Val) ref.Val { return nil })
 		)
+		retType := ToCELType(fn.Return)
 		for _, sig := range fn.Signatures() {
+			// cel-go refuses overloads which differ only in their result type.
+			if !sig.Return.IsExactType(retType) {
+				continue
+			}
 			if fn.Receiver != nil {
 				overload = cel.MemberOverload(sig.ID, sig.Args, sig.Return, bindFunc)
 			} else {
-- 
2.43.0


From a5ef46e2809c2832a8b95def802736377b1d4ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:02 +0000
Subject: [PATCH 43/43] fix: durations and timestamps as arguments and results
 of plugin functions

A function with a duration or timestamp could be declared and was generated,
but every call of it failed with an unexpected argument or result type.
---
 grpc/federation/cel/plugin.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/grpc/federation/cel/plugin.go b/grpc/federation/cel/plugin.go
index fef592c..82eaf6e 100644
--- a/grpc/federation/cel/plugin.go
+++ b/grpc/federation/cel/plugin.go
@@ -23,6 +23,8 @@ import (
 	"google.golang.org/protobuf/encoding/protojson"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/anypb"
+	"google.golang.org/protobuf/types/known/durationpb"
+	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/mercari/grpc-federation/grpc/federation/cel/plugin"
 )
@@ -487,6 +489,25 @@ func (i *CELPluginInstance) refToCELPluginValue(typ *cel.Type, v ref.Val) (*plug
 				Uint64: uint64(vv),
 			},
 		}, nil
+	case types.DurationKind, types.TimestampKind:
+		var msg proto.Message
+		switch vv := v.(type) {
+		case types.Duration:
+			msg = durationpb.New(vv.Duration)
+		case types.Timestamp:
+			msg = timestamppb.New(vv.Time)
+		default:
+			return nil, fmt.Errorf("grpc-federation: expected %s value but got %T", typ, v)
+		}
+		anyValue, err := anypb.New(msg)
+		if err != nil {
+			return nil, fmt.Errorf("grpc-federation: failed to create any instance: %w", err)
+		}
+		return &plugin.CELPluginValue{
+			Value: &plugin.CELPluginValue_Message{
+				Message: anyValue,
+			},
+		}, nil
 	case types.StructKind:
 		switch vv := v.Value().(type) {
 		case proto.Message:
@@ -541,7 +562,7 @@ func (i *CELPluginInstance) celPluginValueToRef(fn *CELFunction, typ *cel.Type,
 		return types.String(v.GetString_())
 	case types.UintKind:
 		return types.Uint(v.GetUint64())
-	case types.StructKind:
+	case types.StructKind, types.DurationKind, types.TimestampKind:
 		return i.celRegistry.NativeToValue(v.GetMessage())
 	}
 	return types.NewErr("grpc-federation: unknown result type %s from %s function", typ, fn.Name)
-- 
2.43.0

