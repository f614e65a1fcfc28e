From e353b31910f6c609f72c9c55a09c9525c7d248fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 01/27] fix: object Seq matched although an element differed

---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index 128ed79..4773af8 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -53,7 +53,7 @@ func Seq(seq ...interface{}) ParserFn {
 			w := ctx.Slice.Reslice(ctx.Position, ctx.Position+length)
 			for i := 0; i < length; i++ {
 				if !w.ItemEquals(w.Get(i), seq[i]) {
-					break
+					return ctx, nil
 				}
 			}
 			ctx.AstStack = append(ctx.AstStack, Ast{
-- 
2.43.0


From a99722f97d49468b931bb2ca9b5f1a2f59db15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 02/27] fix: ObjClassN declared its node as a string

---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index 4773af8..f1d9977 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -113,7 +113,7 @@ func ObjClassN(oc ...interface{}) ParserFn {
 
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
-				Type:           AstType_String,
+				Type:           AstType_Any,
 				Value:          w,
 				SourcePosition: ctx.SourcePosition,
 			})
-- 
2.43.0


From b0a4ff7c2c820d8fd64b0500a64041330ae031a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 03/27] fix: Exchange indexed beyond the length of its result
 and panicked

---
 base/transformers.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index e0085d5..534d3fe 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -152,8 +152,7 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 	if 2 <= length {
 		w := make(AstSlice, 0, length)
 		w = append(w, asts[:length-2]...)
-		w[length-2] = asts[length-1]
-		w[length-1] = asts[length-2]
+		w = append(w, asts[length-1], asts[length-2])
 		return w, nil
 	} else {
 		return asts, nil
-- 
2.43.0


From 1ba8fc9654a975d7f0f06013839272904965ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 04/27] fix: Roll did not roll

---
 base/transformers.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index 534d3fe..40ac0ff 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -174,19 +174,16 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 func Roll(n int) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
 		length := len(asts)
-		if 0 <= n {
-			if n < length {
-				return asts, nil
-			} else {
-				return asts, nil
-			}
-		} else {
-			m := -n
-			if m < length {
-				return asts, nil
-			} else {
-				return asts, nil
-			}
+		if length == 0 {
+			return asts, nil
 		}
+		m := n % length
+		if m < 0 {
+			m += length
+		}
+		w := make(AstSlice, 0, length)
+		w = append(w, asts[m:]...)
+		w = append(w, asts[:m]...)
+		return w, nil
 	}
 }
-- 
2.43.0


From d0f9aed5071fcef37a611a93ad4ba7afa3772844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 05/27] fix: ParseUint panicked on empty text

---
 string/transformers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/transformers.go b/string/transformers.go
index e141100..4ff94e3 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -109,7 +109,7 @@ func parseUintImpl(base int, ctx ParserContext, asts AstSlice) (AstSlice, error)
 	}
 	str := asts[0].Value.(string)
 	str2 := str
-	if str2[0] == '+' {
+	if 0 < len(str2) && str2[0] == '+' {
 		str2 = str2[1:]
 	}
 	num, err := strconv.ParseUint(str2, base, 64)
-- 
2.43.0


From 5830f9931c95a1105de2868d56e4d0f73dca1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 06/27] fix: RuneFromInt and IntFromRune declared a type their
 value does not have

---
 string/transformers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/transformers.go b/string/transformers.go
index 4ff94e3..e1497c6 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -157,7 +157,7 @@ func ParseFloat(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 func RuneFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
-		Type:           AstType_Any,
+		Type:           AstType_Rune,
 		Value:          rune(asts[0].Value.(int64)),
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
@@ -168,7 +168,7 @@ func RuneFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 func IntFromRune(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
-		Type:           AstType_String,
+		Type:           AstType_Int,
 		Value:          int64(asts[0].Value.(rune)),
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
-- 
2.43.0


From 8a74d08aa1da4fd91dd91c216b865bb3fa673320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 07/27] fix: Prepend and Push changed the node they were built
 with on every use

---
 base/transformers.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index 40ac0ff..5f7d5ce 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -111,11 +111,11 @@ func SetValue(typ AstType, v interface{}) TransformerFn {
 // Prepend a AST to the AST slice.
 func Prepend(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
-		if 0 < len(asts) {
-			ast.SourcePosition = asts[0].SourcePosition
-		}
 		w := make(AstSlice, 1, len(asts)+1)
 		w[0] = ast
+		if 0 < len(asts) {
+			w[0].SourcePosition = asts[0].SourcePosition
+		}
 		w = append(w, asts...)
 		return w, nil
 	}
@@ -125,12 +125,12 @@ func Prepend(ast Ast) TransformerFn {
 // Append a AST to the AST slice.
 func Push(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
-		if 0 < len(asts) {
-			ast.SourcePosition = asts[len(asts)-1].SourcePosition
-		}
 		w := make(AstSlice, 0, len(asts)+1)
 		w = append(w, asts...)
 		w = append(w, ast)
+		if 0 < len(asts) {
+			w[len(asts)].SourcePosition = asts[len(asts)-1].SourcePosition
+		}
 		return w, nil
 	}
 }
-- 
2.43.0


From 97b331f1200b38769d145374c38753898993d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 08/27] fix: data race in the first use of an Indirect parser

---
 base/parsers.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index 5cef4de..761dbc4 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -2,6 +2,8 @@ package parser
 
 import (
 	"errors"
+	"sync"
+	"sync/atomic"
 
 	clsz "github.com/shellyln/takenoco/base/classes"
 )
@@ -10,10 +12,22 @@ import (
 // but by delaying them at runtime.
 func Indirect(fn func() ParserFn) ParserFn {
 	const ClassName = clsz.Indirect
-	var parser ParserFn
-	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
-		if parser == nil {
+	var mu sync.Mutex
+	var expanded atomic.Value
+	expand := func() ParserFn {
+		mu.Lock()
+		defer mu.Unlock()
+		parser, ok := expanded.Load().(ParserFn)
+		if !ok {
 			parser = fn()
+			expanded.Store(parser)
+		}
+		return parser
+	}
+	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
+		parser, ok := expanded.Load().(ParserFn)
+		if !ok {
+			parser = expand()
 		}
 		return parser(ctx)
 	})
-- 
2.43.0


From a9c064285f498ce17117b8b8848950892b0932db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 09/27] fix: Match panicked when fewer nodes exist than
 requested

---
 base/match.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/match.go b/base/match.go
index bdaef15..f0bb343 100644
--- a/base/match.go
+++ b/base/match.go
@@ -17,6 +17,9 @@ func Match(n int) func(cases ...Case) ParserFn {
 	return func(cases ...Case) ParserFn {
 		return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
 			sp := len(ctx.AstStack) - n
+			if sp < 0 {
+				sp = 0
+			}
 			ctx.Length = 0
 			ctx.MatchStatus = MatchStatus_Unmatched
 
-- 
2.43.0


From c7a355bd978bec74d44a1c02d81f923a4e91d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 10/27] fix: Match rewrote nodes that are seen again after
 backtracking

---
 base/base.go  |  2 ++
 base/match.go | 10 ++++++++--
 base/types.go |  2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/base/base.go b/base/base.go
index b714567..5ef744a 100644
--- a/base/base.go
+++ b/base/base.go
@@ -59,6 +59,7 @@ func BaseParser(
 	PARENT:
 		for ; qty.Max < 0 || count < qty.Max; count++ {
 			saved := out
+			out.savedDepth = len(out.AstStack)
 			numChildrenMatched := 0
 
 		CHILDREN:
@@ -162,6 +163,7 @@ func BaseParser(
 			out.AstStack = append(out.AstStack[:len(ctx.AstStack)], asts...)
 		}
 
+		out.savedDepth = ctx.savedDepth
 		return out, nil
 	}
 
diff --git a/base/match.go b/base/match.go
index f0bb343..4509f97 100644
--- a/base/match.go
+++ b/base/match.go
@@ -25,7 +25,13 @@ func Match(n int) func(cases ...Case) ParserFn {
 
 			for _, c := range cases {
 				if c.If(ctx.AstStack) {
-					var asts []Ast = ctx.AstStack[sp:]
+					stack := ctx.AstStack
+					if sp < ctx.savedDepth {
+						// The nodes are seen again when an enclosing parser backtracks.
+						stack = append(AstSlice(nil), stack...)
+					}
+
+					var asts []Ast = stack[sp:]
 					var err error
 
 					for _, transform := range c.Let {
@@ -35,7 +41,7 @@ func Match(n int) func(cases ...Case) ParserFn {
 							return ctx, err
 						}
 					}
-					ctx.AstStack = append(ctx.AstStack[:sp], asts...)
+					ctx.AstStack = append(stack[:sp], asts...)
 
 					ctx.MatchStatus = MatchStatus_Matched
 					return ctx, nil
diff --git a/base/types.go b/base/types.go
index b824e5a..f68b6b2 100644
--- a/base/types.go
+++ b/base/types.go
@@ -79,6 +79,8 @@ type ParserContext struct {
 	ClassName string
 	// User-defined tag
 	Tag interface{}
+	// Length of the AST stack that an enclosing parser returns to when it backtracks.
+	savedDepth int
 }
 
 // Quantifier property of BaseParser().
-- 
2.43.0


From 430d3cf50a98cd96be8ea3abe3389ae8d766cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 11/27] fix: word boundaries judged the wrong character before
 some 4-byte characters

---
 extra/extra.go    | 15 +--------------
 string/parsers.go | 15 +--------------
 2 files changed, 2 insertions(+), 28 deletions(-)

diff --git a/extra/extra.go b/extra/extra.go
index 4d50ad7..cebda4a 100644
--- a/extra/extra.go
+++ b/extra/extra.go
@@ -253,20 +253,7 @@ func UnicodeWordBoundary() ParserFn {
 			return ctx, nil
 		}
 
-		// Finds the UTF-8 leading byte of the previous character.
-		var prevCh rune
-		var prevChLength int
-		for i := ctx.Position - 1; 0 <= i; i-- {
-			b := ctx.Str[i]
-
-			// TODO: BUG: Valid range is `b <= 0x7f || 0xc2 <= b && b <= 0xf4`
-			// https://github.com/golang/go/blob/0a86cd6857b9fb12a798b3dbcfb6974384aa07d6/src/unicode/utf8/utf8.go#L65-L84
-
-			if b <= 0x7f || 0xc2 <= b && b <= 0xf0 || b == 0xf3 {
-				prevCh, prevChLength = utf8.DecodeRuneInString(ctx.Str[i:])
-				break
-			}
-		}
+		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
 
 		if ctx.Position == len(ctx.Str) {
 			if 0 < prevChLength && isUnicodeWord(prevCh) {
diff --git a/string/parsers.go b/string/parsers.go
index bac8378..89805c0 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -509,20 +509,7 @@ func WordBoundary() ParserFn {
 			return ctx, nil
 		}
 
-		// Finds the UTF-8 leading byte of the previous character.
-		var prevCh rune
-		var prevChLength int
-		for i := ctx.Position - 1; 0 <= i; i-- {
-			b := ctx.Str[i]
-
-			// TODO: BUG: Valid range is `b <= 0x7f || 0xc2 <= b && b <= 0xf4`
-			// https://github.com/golang/go/blob/0a86cd6857b9fb12a798b3dbcfb6974384aa07d6/src/unicode/utf8/utf8.go#L65-L84
-
-			if b <= 0x7f || 0xc2 <= b && b <= 0xf0 || b == 0xf3 {
-				prevCh, prevChLength = utf8.DecodeRuneInString(ctx.Str[i:])
-				break
-			}
-		}
+		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
 
 		if ctx.Position == len(ctx.Str) {
 			if 0 < prevChLength && isWord(prevCh) {
-- 
2.43.0


From 34fd8483f1febf5d4915759d9b29f705c59fb22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 12/27] fix: the dollar sign was no word character for
 UnicodeWordBoundary

---
 extra/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/util.go b/extra/util.go
index 44fedc3..1d59949 100644
--- a/extra/util.go
+++ b/extra/util.go
@@ -6,7 +6,7 @@ import "unicode"
 func isUnicodeWord(r rune) bool {
 	// ID_Continue + '$' + U+200C + U+200D
 	// Alnum(), '_', '$', and ...
-	return (unicode.Is(unicode.L, r) ||
+	return r == '$' || (unicode.Is(unicode.L, r) ||
 		unicode.Is(unicode.Nl, r) ||
 		unicode.Is(unicode.Other_ID_Start, r) ||
 		unicode.Is(unicode.Mn, r) ||
@@ -14,7 +14,7 @@ func isUnicodeWord(r rune) bool {
 		unicode.Is(unicode.Nd, r) ||
 		unicode.Is(unicode.Pc, r) ||
 		unicode.Is(unicode.Other_ID_Continue, r) ||
-		r == '$' || r == 0x0200c || r == 0x0200d) &&
+		r == 0x0200c || r == 0x0200d) &&
 		!unicode.Is(unicode.Pattern_Syntax, r) &&
 		!unicode.Is(unicode.Pattern_White_Space, r)
 }
-- 
2.43.0


From 1f8d02410eb3b46aefa4b8511578eb3977b5888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 13/27] fix: number recognisers accepted a decimal point with
 underscores but no digit

---
 extra/extra.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/extra/extra.go b/extra/extra.go
index cebda4a..befd778 100644
--- a/extra/extra.go
+++ b/extra/extra.go
@@ -126,7 +126,10 @@ func FloatNumberStr() ParserFn {
 					ZeroOrOnce(exponentStr()),
 				),
 				FlatGroup(
-					CharClass("."), OneOrMoreTimes(First(Number(), erase(CharClass("_")))),
+					CharClass("."),
+					ZeroOrMoreTimes(erase(CharClass("_"))),
+					Number(),
+					ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
 					ZeroOrOnce(exponentStr()),
 				),
 				FlatGroup(
@@ -169,7 +172,10 @@ func NumericStr() ParserFn {
 					ZeroOrOnce(CharClass("."), ZeroOrMoreTimes(First(Number(), erase(CharClass("_"))))),
 				),
 				FlatGroup(
-					CharClass("."), OneOrMoreTimes(First(Number(), erase(CharClass("_")))),
+					CharClass("."),
+					ZeroOrMoreTimes(erase(CharClass("_"))),
+					Number(),
+					ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
 				),
 			),
 			ZeroOrOnce(exponentStr()),
-- 
2.43.0


From 8bf001d03b77dc256163217617c1532d7b9c3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 14/27] fix: the error of the final hook call was dropped

---
 base/base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.go b/base/base.go
index 5ef744a..00f2d89 100644
--- a/base/base.go
+++ b/base/base.go
@@ -144,7 +144,7 @@ func BaseParser(
 		}
 
 		if MatchStatus_Unmatched <= out.MatchStatus {
-			return out, nil
+			return out, err
 		}
 
 		if rewind {
-- 
2.43.0


From debf48312eef5ce3cab355ce35e49f1fe30e3418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 15/27] fix: look-around reported the status it was called with
 instead of a match

---
 base/base.go    | 1 +
 base/parsers.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/base.go b/base/base.go
index 00f2d89..ac72a06 100644
--- a/base/base.go
+++ b/base/base.go
@@ -149,6 +149,7 @@ func BaseParser(
 
 		if rewind {
 			out = ctx
+			out.MatchStatus = MatchStatus_Matched
 		}
 
 		if tr != nil {
diff --git a/base/parsers.go b/base/parsers.go
index 761dbc4..4910996 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -159,7 +159,7 @@ func lookBehindBase(negative bool, minN, maxN int, children ...ParserFn) ParserF
 				} else {
 					out = ctx
 					out.MatchStatus = MatchStatus_Matched
-					return ctx, nil
+					return out, nil
 				}
 			}
 		}
-- 
2.43.0


From a9f3c4dd03733d78b0f36ff704c925cb4d6e62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 16/27] fix: nodes recorded the length of the previous token
 instead of their own

---
 base/parsers.go   |  2 +-
 object/parsers.go | 10 +++++-----
 string/parsers.go | 34 +++++++++++++++++-----------------
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index 4910996..a123567 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -69,7 +69,7 @@ func Zero(astsToInsert ...Ast) ParserFn {
 		savedLen := len(ctx.AstStack)
 		ctx.AstStack = append(ctx.AstStack, astsToInsert...)
 		for i := 0; i < len(astsToInsert); i++ {
-			ctx.AstStack[savedLen+i].SourcePosition = ctx.SourcePosition
+			ctx.AstStack[savedLen+i].SourcePosition = SourcePosition{Position: ctx.Position}
 		}
 		ctx.Length = 0
 		ctx.MatchStatus = MatchStatus_Matched
diff --git a/object/parsers.go b/object/parsers.go
index f1d9977..8e4bfc4 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -17,7 +17,7 @@ func Any() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_Any,
 				Value:          w,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: 1},
 			})
 			ctx.Position += 1
 			ctx.Length = 1
@@ -60,7 +60,7 @@ func Seq(seq ...interface{}) ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_ListOfAny,
 				Value:          w,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -84,7 +84,7 @@ func ObjClass(oc ...interface{}) ParserFn {
 						ClassName:      ClassName,
 						Type:           AstType_Any,
 						Value:          w,
-						SourcePosition: ctx.SourcePosition,
+						SourcePosition: SourcePosition{Position: ctx.Position, Length: 1},
 					})
 					ctx.Position += 1
 					ctx.Length = 1
@@ -115,7 +115,7 @@ func ObjClassN(oc ...interface{}) ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_Any,
 				Value:          w,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: 1},
 			})
 			ctx.Position += 1
 			ctx.Length = 1
@@ -139,7 +139,7 @@ func ObjClassFn(fn func(c interface{}) bool) ParserFn {
 					ClassName:      ClassName,
 					Type:           AstType_Any,
 					Value:          w,
-					SourcePosition: ctx.SourcePosition,
+					SourcePosition: SourcePosition{Position: ctx.Position, Length: 1},
 				})
 				ctx.Position += 1
 				ctx.Length = 1
diff --git a/string/parsers.go b/string/parsers.go
index 89805c0..60460c0 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -24,7 +24,7 @@ func Any() ParserFn {
 			ClassName:      ClassName,
 			Type:           AstType_String,
 			Value:          s,
-			SourcePosition: ctx.SourcePosition,
+			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 		})
 		ctx.Position += length
 		ctx.Length = length
@@ -63,7 +63,7 @@ func Seq(s string) ParserFn {
 					ClassName:      ClassName,
 					Type:           AstType_String,
 					Value:          w,
-					SourcePosition: ctx.SourcePosition,
+					SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 				})
 				ctx.Position += length
 				ctx.Length = length
@@ -88,7 +88,7 @@ func SeqI(s string) ParserFn {
 					ClassName:      ClassName,
 					Type:           AstType_String,
 					Value:          w,
-					SourcePosition: ctx.SourcePosition,
+					SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 				})
 				ctx.Position += length
 				ctx.Length = length
@@ -117,7 +117,7 @@ func CharRange(cr ...RuneRange) ParserFn {
 					ClassName:      ClassName,
 					Type:           AstType_String,
 					Value:          s,
-					SourcePosition: ctx.SourcePosition,
+					SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 				})
 				ctx.Position += length
 				ctx.Length = length
@@ -150,7 +150,7 @@ func CharRangeN(cr ...RuneRange) ParserFn {
 			ClassName:      ClassName,
 			Type:           AstType_String,
 			Value:          s,
-			SourcePosition: ctx.SourcePosition,
+			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 		})
 		ctx.Position += length
 		ctx.Length = length
@@ -174,7 +174,7 @@ func CharClass(cc ...string) ParserFn {
 						ClassName:      ClassName,
 						Type:           AstType_String,
 						Value:          w,
-						SourcePosition: ctx.SourcePosition,
+						SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 					})
 					ctx.Position += length
 					ctx.Length = length
@@ -213,7 +213,7 @@ func CharClassN(cc ...string) ParserFn {
 			ClassName:      ClassName,
 			Type:           AstType_String,
 			Value:          s,
-			SourcePosition: ctx.SourcePosition,
+			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 		})
 		ctx.Position += length
 		ctx.Length = length
@@ -240,7 +240,7 @@ func CharClassFn(fn func(c rune) bool) ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -267,7 +267,7 @@ func Whitespace() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -294,7 +294,7 @@ func WhitespaceNoLineBreak() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -321,7 +321,7 @@ func LineBreak() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -348,7 +348,7 @@ func Alpha() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -375,7 +375,7 @@ func Number() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -402,7 +402,7 @@ func Alnum() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -429,7 +429,7 @@ func BinNumber() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -456,7 +456,7 @@ func OctNumber() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -483,7 +483,7 @@ func HexNumber() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
-- 
2.43.0


From ba12cb7bc7488f2c73559ce8ebf5c5e75ec4897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 17/27] fix: csv example dropped doubled quotes inside quoted
 cells

---
 _examples/csv/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/_examples/csv/parser.go b/_examples/csv/parser.go
index 2bb5259..bd2e927 100644
--- a/_examples/csv/parser.go
+++ b/_examples/csv/parser.go
@@ -39,7 +39,7 @@ func quotedCell() ParserFn {
 				erase(Seq("\"")),
 				ZeroOrMoreTimes(
 					First(
-						erase(Seq("\"\"")),
+						FlatGroup(erase(Seq("\"")), Seq("\"")),
 						CharClassN("\""),
 					),
 				),
-- 
2.43.0


From 2c0da10a176cb762f30103ca2be5e82ddd10afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 18/27] fix: csv example wrote cells with quotes or surrounding
 blanks unquoted

---
 _examples/csv/marshal.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 4493d3d..e94548a 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -7,18 +7,17 @@ import (
 	"strings"
 )
 
+// Whitespace characters that the parser trims off both ends of an unquoted cell.
+const cellPadding = "\u0009\u000a\u000b\u000c\u000d\u0020\u0085\u00a0"
+
 // toCsvRow writes a CSV row to the strings.Builder.
 func toCsvRow(sb *strings.Builder, row []string) {
 	for i := 0; i < len(row); i++ {
 		if i != 0 {
 			sb.WriteString(",")
 		}
-		if 0 <= strings.IndexRune(row[i], ',') ||
-			0 <= strings.IndexRune(row[i], '\u000a') ||
-			0 <= strings.IndexRune(row[i], '\u000b') ||
-			0 <= strings.IndexRune(row[i], '\u000c') ||
-			0 <= strings.IndexRune(row[i], '\u000d') ||
-			0 <= strings.IndexRune(row[i], '\u0085') {
+		if strings.ContainsAny(row[i], "\",\u000a\u000b\u000c\u000d\u0085") ||
+			strings.Trim(row[i], cellPadding) != row[i] {
 			sb.WriteString("\"")
 			sb.WriteString(strings.ReplaceAll(row[i], "\"", "\"\""))
 			sb.WriteString("\"")
-- 
2.43.0


From 778cff973b46f605869234161057cce88de15045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 19/27] fix: csv example marshalled fields without a column
 into the first column

---
 _examples/csv/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index e94548a..78ea4e6 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -96,7 +96,10 @@ func Marshal(cols []string, a interface{}) (string, error) {
 		}
 		for k, v := range mapping {
 			rvf := rvi.FieldByName(k)
-			index := columns[v]
+			index, ok := columns[v]
+			if !ok {
+				continue
+			}
 			switch colTypes[k] {
 			case reflect.String:
 				rowBuf[index] = rvf.String()
-- 
2.43.0


From 9f4f5eda5f0e4734ec677b40d9729b1e43fbfe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 20/27] fix: csv example unmarshalled unnamed columns into
 untagged fields and panicked on unexported ones

---
 _examples/csv/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 78ea4e6..8ab73ec 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -173,7 +173,10 @@ func Unmarshal(pa interface{}, s string) error {
 		for j := 0; j < rti.NumField(); j++ {
 			rtf := rti.Field(j)
 			tag := rtf.Tag.Get("csv")
-			if _, ok := columns[tag]; ok {
+			if rtf.PkgPath != "" {
+				continue // unexported
+			}
+			if _, ok := columns[tag]; ok && tag != "" {
 				mapping[tag] = rtf.Name
 				colTypes[tag] = rtf.Type.Kind()
 			} else if _, ok := columns[rtf.Name]; ok {
-- 
2.43.0


From bd541e33a8a2284517456a36aa1833c0707be8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 21/27] fix: csv example panicked when unmarshalling a row
 shorter than the header

---
 _examples/csv/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 8ab73ec..ab446f4 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -194,7 +194,10 @@ func Unmarshal(pa interface{}, s string) error {
 		rvi := slice.Index(i)
 		for k, v := range mapping {
 			rvf := rvi.FieldByName(v)
-			w := data[i+1][columns[k]] // TODO: check slice length
+			if len(data[i+1]) <= columns[k] {
+				return errors.New("Row " + strconv.Itoa(i+1) + " has no cell for the column " + k)
+			}
+			w := data[i+1][columns[k]]
 			switch colTypes[k] {
 			case reflect.String:
 				rvf.SetString(w)
-- 
2.43.0


From cb1b0693d0eea3cb952ebf475eaead0f09082a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 22/27] fix: csv example silently truncated numbers that do not
 fit the field

---
 _examples/csv/marshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index ab446f4..d3274c1 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -202,19 +202,19 @@ func Unmarshal(pa interface{}, s string) error {
 			case reflect.String:
 				rvf.SetString(w)
 			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
-				z, err := strconv.ParseInt(w, 10, 64)
+				z, err := strconv.ParseInt(w, 10, rvf.Type().Bits())
 				if err != nil {
 					return err
 				}
 				rvf.SetInt(z)
 			case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
-				z, err := strconv.ParseUint(w, 10, 64)
+				z, err := strconv.ParseUint(w, 10, rvf.Type().Bits())
 				if err != nil {
 					return err
 				}
 				rvf.SetUint(z)
 			case reflect.Float64, reflect.Float32:
-				z, err := strconv.ParseFloat(w, 64)
+				z, err := strconv.ParseFloat(w, rvf.Type().Bits())
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From f19086cb8ab97a880e5bde774caed2165f44b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 23/27] fix: formula example panicked on division by zero

---
 _examples/formula/precedence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/_examples/formula/precedence.go b/_examples/formula/precedence.go
index 2c73dff..5ca596e 100644
--- a/_examples/formula/precedence.go
+++ b/_examples/formula/precedence.go
@@ -1,6 +1,8 @@
 package formula
 
 import (
+	"errors"
+
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
 )
@@ -52,6 +54,9 @@ var expressionRule2 = Precedence{
 				case "*":
 					v = op1 * op2
 				case "/":
+					if op2 == 0 {
+						return nil, errors.New("Division by zero")
+					}
 					v = op1 / op2
 				}
 
-- 
2.43.0


From 6c00065ddcfc34a64d1818df001b3c22591fdb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 24/27] fix: boxes could not store nil nor read typed values
 back from any-typed places

---
 base/box.go | 58 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/base/box.go b/base/box.go
index ee6fdd6..ea8bb1f 100644
--- a/base/box.go
+++ b/base/box.go
@@ -49,6 +49,22 @@ type Box interface {
 	ComplexMapIndex(k interface{}) Box
 }
 
+// Get the content of the value if it is held in an interface.
+func contentOf(v reflect.Value) reflect.Value {
+	if v.Kind() == reflect.Interface {
+		return v.Elem()
+	}
+	return v
+}
+
+// Get the reflect.Value of v to be stored in the place of the type typ.
+func storableOf(v interface{}, typ reflect.Type) reflect.Value {
+	if v == nil {
+		return reflect.Zero(typ)
+	}
+	return reflect.ValueOf(v)
+}
+
 // Implements the interface Box. Abstraction of reflect.Value.
 type ReflectionBox struct {
 	Val reflect.Value
@@ -61,32 +77,32 @@ func (s ReflectionBox) GetAny() interface{} {
 
 //
 func (s ReflectionBox) GetInt() int64 {
-	return s.Val.Int()
+	return contentOf(s.Val).Int()
 }
 
 //
 func (s ReflectionBox) GetUint() uint64 {
-	return s.Val.Uint()
+	return contentOf(s.Val).Uint()
 }
 
 //
 func (s ReflectionBox) GetFloat() float64 {
-	return s.Val.Float()
+	return contentOf(s.Val).Float()
 }
 
 //
 func (s ReflectionBox) GetBool() bool {
-	return s.Val.Bool()
+	return contentOf(s.Val).Bool()
 }
 
 //
 func (s ReflectionBox) GetString() string {
-	return s.Val.String()
+	return contentOf(s.Val).String()
 }
 
 //
 func (s ReflectionBox) GetBytes() []byte {
-	return s.Val.Bytes()
+	return contentOf(s.Val).Bytes()
 }
 
 //
@@ -96,7 +112,7 @@ func (s ReflectionBox) GetBytes() []byte {
 
 //
 func (s ReflectionBox) SetAny(v interface{}) {
-	s.Val.Set(reflect.ValueOf(v))
+	s.Val.Set(storableOf(v, s.Val.Type()))
 }
 
 //
@@ -162,32 +178,32 @@ func (s MapContainerReflectionBox) GetAny() interface{} {
 
 //
 func (s MapContainerReflectionBox) GetInt() int64 {
-	return s.Container.MapIndex(s.Key).Int()
+	return contentOf(s.Container.MapIndex(s.Key)).Int()
 }
 
 //
 func (s MapContainerReflectionBox) GetUint() uint64 {
-	return s.Container.MapIndex(s.Key).Uint()
+	return contentOf(s.Container.MapIndex(s.Key)).Uint()
 }
 
 //
 func (s MapContainerReflectionBox) GetFloat() float64 {
-	return s.Container.MapIndex(s.Key).Float()
+	return contentOf(s.Container.MapIndex(s.Key)).Float()
 }
 
 //
 func (s MapContainerReflectionBox) GetBool() bool {
-	return s.Container.MapIndex(s.Key).Bool()
+	return contentOf(s.Container.MapIndex(s.Key)).Bool()
 }
 
 //
 func (s MapContainerReflectionBox) GetString() string {
-	return s.Container.MapIndex(s.Key).String()
+	return contentOf(s.Container.MapIndex(s.Key)).String()
 }
 
 //
 func (s MapContainerReflectionBox) GetBytes() []byte {
-	return s.Container.MapIndex(s.Key).Bytes()
+	return contentOf(s.Container.MapIndex(s.Key)).Bytes()
 }
 
 //
@@ -197,7 +213,7 @@ func (s MapContainerReflectionBox) GetBytes() []byte {
 
 //
 func (s MapContainerReflectionBox) SetAny(v interface{}) {
-	s.Container.SetMapIndex(s.Key, reflect.ValueOf(v))
+	s.Container.SetMapIndex(s.Key, storableOf(v, s.Container.Type().Elem()))
 }
 
 //
@@ -273,7 +289,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetInt() int64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Int()
+	return contentOf(p.Container.MapIndex(p.Key)).Int()
 }
 
 //
@@ -281,7 +297,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetUint() uint64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Uint()
+	return contentOf(p.Container.MapIndex(p.Key)).Uint()
 }
 
 //
@@ -289,7 +305,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetFloat() float64 {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Float()
+	return contentOf(p.Container.MapIndex(p.Key)).Float()
 }
 
 //
@@ -297,7 +313,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBool() bool {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Bool()
+	return contentOf(p.Container.MapIndex(p.Key)).Bool()
 }
 
 //
@@ -305,7 +321,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetString() string {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).String()
+	return contentOf(p.Container.MapIndex(p.Key)).String()
 }
 
 //
@@ -313,7 +329,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
 	if !p.Initialized {
 		panic(msgReferencedNonInitializedVariable)
 	}
-	return p.Container.MapIndex(p.Key).Bytes()
+	return contentOf(p.Container.MapIndex(p.Key)).Bytes()
 }
 
 //
@@ -326,7 +342,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
 
 //
 func (p *NotInitializedMapContainerReflectionBox) SetAny(v interface{}) {
-	p.Container.SetMapIndex(p.Key, reflect.ValueOf(v))
+	p.Container.SetMapIndex(p.Key, storableOf(v, p.Container.Type().Elem()))
 	p.Initialized = true
 }
 
-- 
2.43.0


From e793f3431b556531b8fa607c4acb8d096ed6ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:22 +0000
Subject: [PATCH 25/27] fix: SeqI matched part of a character (SeqI("k\ufffd")
 on "\u212a\ufffd")

---
 string/parsers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/string/parsers.go b/string/parsers.go
index 60460c0..82f5755 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -83,6 +83,10 @@ func SeqI(s string) ParserFn {
 		length := len(s)
 		if ctx.Position+length <= len(ctx.Str) {
 			w := ctx.Str[ctx.Position : ctx.Position+length]
+			if utf8.ValidString(w) != utf8.ValidString(s) {
+				// NOTE: It would end inside a character.
+				return ctx, nil
+			}
 			if strings.EqualFold(w, s) {
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
-- 
2.43.0


From 2dc0242676c00274bf6e9d0a82bafa83ed122d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:50 +0000
Subject: [PATCH 26/27] fix: LookBehind with a large maximum went on far beyond
 the start of the source

---
 base/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/parsers.go b/base/parsers.go
index a123567..37edd05 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -146,7 +146,7 @@ func lookBehindBase(negative bool, minN, maxN int, children ...ParserFn) ParserF
 			out := ctx
 			out.Position -= i
 			if out.Position < 0 {
-				continue
+				break
 			}
 			out, err := parser(out)
 			if err != nil {
-- 
2.43.0


From a812c669357826676c81b19469cb22e6e01b9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:36 +0000
Subject: [PATCH 27/27] fix: look-behind swallowed an error status that came
 without an error value

---
 base/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/parsers.go b/base/parsers.go
index 37edd05..07a3c8f 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -149,7 +149,7 @@ func lookBehindBase(negative bool, minN, maxN int, children ...ParserFn) ParserF
 				break
 			}
 			out, err := parser(out)
-			if err != nil {
+			if err != nil || out.MatchStatus == MatchStatus_Error {
 				return out, err
 			}
 			if out.MatchStatus == MatchStatus_Matched {
-- 
2.43.0

