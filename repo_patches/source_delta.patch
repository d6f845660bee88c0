From 7a0efd07dcca2970551420bc26dfcaef7c0aec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:17 +0000
Subject: [PATCH 01/37] fix: reject a ? bindvar after a $n one in the same
 fragment

Dollar is the zero BindVarStyle, so the parser could not tell "no style yet"
from "dollar style" and accepted "$1, ?" (but not "?, $1").
---
 syntax/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index add16a3..05a3803 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -21,7 +21,7 @@ type parser struct {
 	*scanner
 
 	bindVarIndex int
-	bindVarStyle BindVarStyle
+	bindVarStyle BindVarStyle // style of the first bindvar, valid if bindVarIndex > 0
 	// buf []token
 
 	c *Clause
@@ -84,7 +84,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "$":
 		t = Dollar
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
@@ -93,7 +93,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "?":
 		t = Question
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
-- 
2.43.0


From 9f1b7025bec2d18fe20cb7a44b2cbca064dbffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 02/37] fix: parse the token after a function value

The token following a function value like #f was always taken as plain text,
so '#f?' lost its bindvar and '#f#arg' was a syntax error.
---
 syntax/parser.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index 05a3803..45197f0 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -44,6 +44,11 @@ func (p *parser) got(tok TokenType) bool {
 	return false
 }
 
+// unreadToken makes the current token the next one to read.
+func (p *parser) unreadToken() {
+	p.tokens = append([]*token{p.token}, p.tokens...)
+}
+
 func (p *parser) syntaxError(msg string) error {
 	return fmt.Errorf("%d: syntax error: %s", p.token.start, msg)
 }
@@ -190,18 +195,16 @@ func (p *parser) funcExpr() error {
 			},
 		)
 	default:
-		// EOF or _Plain
 		p.c.ExprList = append(
 			p.c.ExprList,
 			&FuncExpr{
 				Name: nameToken.lit,
 				expr: expr{node{pos}},
 			},
-			&PlainExpr{
-				Text: p.token.lit,
-				expr: expr{node{p.token.pos}},
-			},
 		)
+		// the token is not part of the function expression, it may be a
+		// plain text, the EOF, or the start of another reference.
+		p.unreadToken()
 	}
 
 	return nil
-- 
2.43.0


From 3a16bb8571e63d7dc09a709e9186f745d0248127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 03/37] fix: do not take a NUL in the input as its end

Everything from the first NUL byte on was silently dropped from the query.
---
 syntax/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syntax/lexer.go b/syntax/lexer.go
index 285bdc6..10268f7 100644
--- a/syntax/lexer.go
+++ b/syntax/lexer.go
@@ -5,8 +5,9 @@ import (
 	"unicode/utf8"
 )
 
-// EOF is the EOF rune
-const EOF rune = 0
+// EOF is the EOF rune, it's not a valid rune so that it never
+// equals to one of the input.
+const EOF rune = -1
 
 // lexerHelper is the lexical analyzer
 type lexerHelper struct {
-- 
2.43.0


From edeb2210889d986c443c015843f761b7b6d06215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 04/37] fix: accept args that can't be map keys with dollar
 bindvars

[]byte and other unhashable args panicked (or failed inside #arg).
---
 context_args.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/context_args.go b/context_args.go
index 7a7d6e9..fa8819a 100644
--- a/context_args.go
+++ b/context_args.go
@@ -55,11 +55,28 @@ func (s *dollarArgStore) Args() []any {
 }
 
 func (s *dollarArgStore) CommitArg(arg any) string {
-	if i, ok := s.dict[arg]; ok {
-		return "$" + strconv.Itoa(i)
+	mergeable := hashable(arg)
+	if mergeable {
+		if i, ok := s.dict[arg]; ok {
+			return "$" + strconv.Itoa(i)
+		}
 	}
 	i := len(s.args) + 1
-	s.dict[arg] = i
+	if mergeable {
+		s.dict[arg] = i
+	}
 	s.args = append(s.args, arg)
 	return "$" + strconv.Itoa(i)
 }
+
+// hashable reports whether v can be used as a map key. Values like []byte,
+// or structs and arrays holding such values in an interface, can not.
+func hashable(v any) (ok bool) {
+	defer func() {
+		if recover() != nil {
+			ok = false
+		}
+	}()
+	_ = map[any]struct{}{v: {}}
+	return true
+}
-- 
2.43.0


From 269a1681fa14ed4cb280ea940e8a067a0780cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 05/37] fix: report a number passed to a string or bool
 parameter

It panicked out of the build instead of being an error like the other
mismatches. Also convert to named string and bool types, which are accepted
for function parameters but could not be called.
---
 func_exec.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/func_exec.go b/func_exec.go
index bbd6399..25a0d40 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -116,16 +116,18 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		uint, uint8, uint16, uint32, uint64,
 		float32, float64:
 		argType = "number"
-		v = reflect.ValueOf(arg).Convert(typ)
+		if numberType(typ.Kind()) {
+			v = reflect.ValueOf(arg).Convert(typ)
+		}
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case string:
 		argType = "string"
 		if typ.Kind() == reflect.String {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case nil:
 		argType = "nil"
-- 
2.43.0


From 8715ec479208189e2bb7468db6f756195ba6533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:58 +0000
Subject: [PATCH 06/37] fix: report number literals a parameter can't represent

#f(1.9) silently built fragment 1, and #fn(300) passed 44 to an int8
parameter.
---
 func_exec.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/func_exec.go b/func_exec.go
index 25a0d40..713db88 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -2,6 +2,7 @@ package sqlf
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -118,6 +119,9 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		argType = "number"
 		if numberType(typ.Kind()) {
 			v = reflect.ValueOf(arg).Convert(typ)
+			if f, ok := arg.(float64); ok && !keepsNumber(f, v) {
+				return v, fmt.Errorf("can't represent %v as %s", f, typ)
+			}
 		}
 	case bool:
 		argType = "bool"
@@ -143,6 +147,20 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 	return v, fmt.Errorf("can't assign %s to %s", argType, typ)
 }
 
+// keepsNumber reports whether v, which is converted from the number literal f,
+// still has the value of f, apart from the rounding to float32.
+func keepsNumber(f float64, v reflect.Value) bool {
+	switch v.Kind() {
+	case reflect.Float32, reflect.Float64:
+		return !math.IsInf(v.Float(), 0) || math.IsInf(f, 0)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		// 2^64 is out of range, but float64(math.MaxUint64) rounds to it
+		return f < 1<<64 && float64(v.Uint()) == f
+	default:
+		return f < 1<<63 && float64(v.Int()) == f
+	}
+}
+
 func convertString(v reflect.Value) (string, error) {
 	any := unwrap(v).Interface()
 	val, ok := any.(string)
-- 
2.43.0


From 54063807344fc725227bea613f1c0a8866f515ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 07/37] fix: don't take errors inside an item as the end of
 #join

An invalid index inside of a joined fragment ended the #join as if the list
was over, so that a malformed condition, and all of the WHERE clause that
followed, was dropped without any error.
---
 build.go        |  2 +-
 errors.go       | 18 ++++++++++++++++++
 func.go         |  2 +-
 func_builtin.go |  3 +--
 properties.go   |  6 +++++-
 5 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/build.go b/build.go
index e6cb984..f311bf1 100644
--- a/build.go
+++ b/build.go
@@ -32,7 +32,7 @@ func (f *Fragment) BuildFragment(ctx *Context) (string, error) {
 	ctx = contextWithFragment(ctx, f)
 	body, err := build(ctx, f)
 	if err != nil {
-		return "", err
+		return "", &nestedError{err}
 	}
 	fc, err := ctx.mustFragment()
 	if err != nil {
diff --git a/errors.go b/errors.go
index d99120b..73bf99c 100644
--- a/errors.go
+++ b/errors.go
@@ -7,3 +7,21 @@ var (
 	// It's a required behaviour for a custom #func to be compatible with #join.
 	ErrInvalidIndex = errors.New("invalid index")
 )
+
+// nestedError is an error of building a fragment that a reference refers to,
+// while the reference itself is valid.
+type nestedError struct {
+	error
+}
+
+// Unwrap makes the error work with errors.Is() / errors.As().
+func (e *nestedError) Unwrap() error {
+	return e.error
+}
+
+// isIndexError reports whether err tells that the index of a reference itself
+// is invalid, but not a reference inside the fragment it refers to.
+func isIndexError(err error) bool {
+	var nested *nestedError
+	return errors.Is(err, ErrInvalidIndex) && !errors.As(err, &nested)
+}
diff --git a/func.go b/func.go
index 62b6f38..13b26c6 100644
--- a/func.go
+++ b/func.go
@@ -227,7 +227,7 @@ func joinCompatibility(f *funcInfo) error {
 	// #join() Assume that the index starts from 1, so 0 is an invalid index,
 	// a compatible function should return ErrInvalidIndex
 	_, err := evalCall(ctx, f, []any{0})
-	if err == nil || !errors.Is(err, ErrInvalidIndex) {
+	if err == nil || !isIndexError(err) {
 		return errors.New("not reports ErrInvalidIndex")
 	}
 	return nil
diff --git a/func_builtin.go b/func_builtin.go
index f2b8b85..6381b14 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -1,7 +1,6 @@
 package sqlf
 
 import (
-	"errors"
 	"fmt"
 	"strings"
 
@@ -70,7 +69,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 			call.Args = []any{i}
 		}
 		s, err := buildClause(ctx, c)
-		if errors.Is(err, ErrInvalidIndex) {
+		if isIndexError(err) {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
 				// report index error only if explicitly specified
diff --git a/properties.go b/properties.go
index cde4a8a..4f65bef 100644
--- a/properties.go
+++ b/properties.go
@@ -15,7 +15,11 @@ func (p Properties) Build(ctx *Context, i int) (string, error) {
 	if i < 1 || i > len(p) {
 		return "", fmt.Errorf("%w: %d", ErrInvalidIndex, i)
 	}
-	return p[i-1].BuildFragment(ctx)
+	built, err := p[i-1].BuildFragment(ctx)
+	if err != nil {
+		return "", &nestedError{err}
+	}
+	return built, nil
 }
 
 // checkUsage checks if all properties are used.
-- 
2.43.0


From 860a1b1f7de8d9f7c4ef551f2bccf9e079c94764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 08/37] fix: report bad fixed references in #join templates

An invalid fixed index like the #f9 of #join('#f9=#arg', ', ') was taken as
the end of the list, and the #join silently built to nothing.
---
 func_builtin.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/func_builtin.go b/func_builtin.go
index 6381b14..98baa8f 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -68,7 +68,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		for _, call := range calls {
 			call.Args = []any{i}
 		}
-		s, err := buildClause(ctx, c)
+		s, err := buildJoinItem(ctx, c, calls)
 		if isIndexError(err) {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
@@ -93,6 +93,27 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 	return b.String(), nil
 }
 
+// buildJoinItem builds the join template for one index, which is already
+// assigned to the calls. Index errors from the rest of the template, e.g. the
+// #f1 of '#f1=#arg', don't tell anything about the index of the item.
+func buildJoinItem(ctx *Context, tmpl *syntax.Clause, calls []*syntax.FuncCallExpr) (string, error) {
+	b := new(strings.Builder)
+	for _, expr := range tmpl.ExprList {
+		s, err := buildClause(ctx, &syntax.Clause{ExprList: []syntax.Expr{expr}})
+		if err != nil {
+			if len(calls) == 0 || expr != syntax.Expr(calls[0]) {
+				err = &nestedError{err}
+			}
+			return "", err
+		}
+		if len(calls) > 0 && expr == syntax.Expr(calls[0]) {
+			calls = calls[1:]
+		}
+		b.WriteString(s)
+	}
+	return b.String(), nil
+}
+
 func funcArg(ctx *Context, i int) (string, error) {
 	c, err := ctx.mustFragment()
 	if err != nil {
-- 
2.43.0


From db34e81bb7d87dcece5de1f543bf98d2788225ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 09/37] fix: leave no traces of the incomplete last item of
 #join

#join notices the end of a list only while building the item after the last
one. What that item had built until then was left in the args, which did not
match the bindvars any more, e.g. for #join('?+#arg', ','), and was marked as
used, so that a surplus fragment in #join('#f=#arg', ',') went unnoticed.
---
 context.go      | 30 ++++++++++++++++++++++++++++++
 context_args.go | 15 +++++++++++++++
 func_builtin.go | 13 +++++++++++--
 property.go     |  8 +++++++-
 4 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index 7a65ee6..bd31a60 100644
--- a/context.go
+++ b/context.go
@@ -8,6 +8,7 @@ import (
 type Context struct {
 	bindVarStyle syntax.BindVarStyle
 	argStore     argStore
+	used         []*defaultProperty // properties in the order of their first use
 
 	parent *Context
 	funcs  map[string]*funcInfo
@@ -38,3 +39,32 @@ func newEmptyContext(bindVarStyle syntax.BindVarStyle) *Context {
 		argStore: argStore,
 	}
 }
+
+// checkpoint is the state of a build to return to with rollback().
+type checkpoint struct {
+	args, used int
+}
+
+func (c *Context) checkpoint() checkpoint {
+	root := c.root()
+	return checkpoint{
+		args: len(root.argStore.Args()),
+		used: len(root.used),
+	}
+}
+
+// rollback undoes the effects of what is built since the checkpoint.
+func (c *Context) rollback(to checkpoint) {
+	root := c.root()
+	root.argStore.Truncate(to.args)
+	for _, p := range root.used[to.used:] {
+		p.used = false
+	}
+	root.used = root.used[:to.used]
+}
+
+// keepUsed excludes the properties used since the checkpoint from rollback().
+func (c *Context) keepUsed(since checkpoint) {
+	root := c.root()
+	root.used = root.used[:since.used]
+}
diff --git a/context_args.go b/context_args.go
index fa8819a..3bf7026 100644
--- a/context_args.go
+++ b/context_args.go
@@ -20,6 +20,8 @@ func (c *Context) CommitArg(arg any) string {
 type argStore interface {
 	Args() []any
 	CommitArg(arg any) string
+	// Truncate drops all args but the first n ones.
+	Truncate(n int)
 }
 
 type questionArgStore struct {
@@ -39,6 +41,10 @@ func (s *questionArgStore) CommitArg(arg any) string {
 	return "?"
 }
 
+func (s *questionArgStore) Truncate(n int) {
+	s.args = s.args[:n:n]
+}
+
 type dollarArgStore struct {
 	args []any
 	dict map[any]int
@@ -69,6 +75,15 @@ func (s *dollarArgStore) CommitArg(arg any) string {
 	return "$" + strconv.Itoa(i)
 }
 
+func (s *dollarArgStore) Truncate(n int) {
+	for _, arg := range s.args[n:] {
+		if hashable(arg) {
+			delete(s.dict, arg)
+		}
+	}
+	s.args = s.args[:n:n]
+}
+
 // hashable reports whether v can be used as a map key. Values like []byte,
 // or structs and arrays holding such values in an interface, can not.
 func hashable(v any) (ok bool) {
diff --git a/func_builtin.go b/func_builtin.go
index 98baa8f..c7df67c 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -68,6 +68,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		for _, call := range calls {
 			call.Args = []any{i}
 		}
+		checkpoint := ctx.checkpoint()
 		s, err := buildJoinItem(ctx, c, calls)
 		if isIndexError(err) {
 			if (from > 0 && i == from) ||
@@ -75,6 +76,9 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 				// report index error only if explicitly specified
 				return "", err
 			}
+			// the incomplete last item is not built, neither its args
+			// nor what it references.
+			ctx.rollback(checkpoint)
 			break
 		}
 		if err != nil {
@@ -99,15 +103,20 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 func buildJoinItem(ctx *Context, tmpl *syntax.Clause, calls []*syntax.FuncCallExpr) (string, error) {
 	b := new(strings.Builder)
 	for _, expr := range tmpl.ExprList {
+		isCall := len(calls) > 0 && expr == syntax.Expr(calls[0])
+		checkpoint := ctx.checkpoint()
 		s, err := buildClause(ctx, &syntax.Clause{ExprList: []syntax.Expr{expr}})
 		if err != nil {
-			if len(calls) == 0 || expr != syntax.Expr(calls[0]) {
+			if !isCall {
 				err = &nestedError{err}
 			}
 			return "", err
 		}
-		if len(calls) > 0 && expr == syntax.Expr(calls[0]) {
+		if isCall {
 			calls = calls[1:]
+		} else {
+			// it's used even if there is no item at all
+			ctx.keepUsed(checkpoint)
 		}
 		b.WriteString(s)
 	}
diff --git a/property.go b/property.go
index 7bd51b5..e1cd193 100644
--- a/property.go
+++ b/property.go
@@ -35,6 +35,12 @@ func (p *defaultProperty) Used() bool {
 
 // BuildFragment builds the fragment.
 func (p *defaultProperty) BuildFragment(ctx *Context) (string, error) {
-	p.used = true
+	if !p.used {
+		p.used = true
+		if ctx != nil {
+			root := ctx.root()
+			root.used = append(root.used, p)
+		}
+	}
 	return p.value.BuildFragment(ctx)
 }
-- 
2.43.0


From acfbac9c915a3928a8c9dde4e924d68be3e17ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 10/37] fix: report bindvars without an arg in Interpolate

It panicked, also in the error path of Count(), where a mismatch of bindvars
and args is a likely cause of the error to report.
---
 util/interpolate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 7149284..c58c29d 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -54,6 +54,9 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 		case *syntax.PlainExpr:
 			b.WriteString(decl.Text)
 		case *syntax.BindVarExpr:
+			if decl.Index < 1 || decl.Index > len(args) {
+				return "", fmt.Errorf("%s: no arg for bindvar index %d", decl.Pos(), decl.Index)
+			}
 			v, err := encodeValue(args[decl.Index-1], opts)
 			if err != nil {
 				return "", err
-- 
2.43.0


From 65fe822c35920ac6fdae4874dae87db449bd63e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 11/37] fix: interpolate floats without loss of precision

Floats were cut to 6 decimal places, 1e-7 was shown as 0.000000.
---
 util/interpolate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index c58c29d..ede4aff 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"time"
 
@@ -110,7 +111,8 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			buf.WriteString(fmt.Sprintf("%d", primative.Uint()))
 		case reflect.Float32, reflect.Float64:
-			buf.WriteString(fmt.Sprintf("%f", primative.Float()))
+			bits := primative.Type().Bits()
+			buf.WriteString(strconv.FormatFloat(primative.Float(), 'f', -1, bits))
 		case reflect.String:
 			buf.Write(quoteStringValue(primative.String()))
 		default:
-- 
2.43.0


From cdd321c157a2c26d54486f77b6db234ea90ed93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:37 +0000
Subject: [PATCH 12/37] fix: interpolate nil pointers as NULL

A nil pointer to a driver.Valuer or fmt.Stringer with value receiver, e.g.
(*sql.NullInt64)(nil) or (*time.Time)(nil), panicked.
---
 util/interpolate.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index ede4aff..1a1df8a 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -72,6 +72,9 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 
 func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	buf := bytes.NewBuffer(nil)
+	if isNilPointer(arg) {
+		arg = nil
+	}
 	switch v := arg.(type) {
 	case nil:
 		buf.WriteString("NULL")
@@ -122,6 +125,20 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+var valuerType = reflect.TypeOf((*driver.Valuer)(nil)).Elem()
+
+// isNilPointer reports whether arg is a nil pointer which stands for NULL.
+// Like in database/sql, those are all but the ones with a Value() method
+// declared on the pointer, which can tell the value of a nil pointer.
+func isNilPointer(arg any) bool {
+	rv := reflect.ValueOf(arg)
+	if rv.Kind() != reflect.Pointer || !rv.IsNil() {
+		return false
+	}
+	typ := rv.Type()
+	return !typ.Implements(valuerType) || typ.Elem().Implements(valuerType)
+}
+
 func quoteStringValue(s string) []byte {
 	buf := bytes.NewBuffer(nil)
 	buf.WriteRune('\'')
-- 
2.43.0


From 6a5bef921437e666450cc0e467235e4e64eb884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 13/37] fix: report errors of the row iteration in Scan

A connection lost while fetching ended the iteration like the last row does,
and the rows scanned so far were returned as the complete result.
---
 util/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/scan.go b/util/scan.go
index 0df3e6e..7d23223 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -46,6 +46,9 @@ func Scan[T any](db QueryAble, query string, args []any, fn NewScanDestFunc[T])
 		}
 		results = append(results, dest)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return results, nil
 }
 
-- 
2.43.0


From 6545dd9131c090a8dd7beb5047dc65161a48fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 14/37] fix: don't write to the caller's slice in ScanRow

Destinations for the extra columns were appended to the variadic slice of the
caller, overwriting the elements after it if there are any.
---
 util/scan.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/scan.go b/util/scan.go
index 7d23223..096e3eb 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -61,6 +61,8 @@ func ScanRow(rows *sql.Rows, dest ...any) error {
 	}
 	nBlacholes := len(cols) - len(dest)
 	bh := &blackhole{}
+	// never write to the spare capacity of the caller's slice
+	dest = dest[:len(dest):len(dest)]
 	for i := 0; i < nBlacholes; i++ {
 		dest = append(dest, &bh)
 	}
-- 
2.43.0


From 9ea8f71b205a50c951022809216c48d8ea5abe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 15/37] fix: don't append to the slice a fragment was created
 from

Fragments created from one slice with spare capacity (Fa(raw, base...))
overwrote each other's args on AppendArgs(), same with fragments.
---
 fragment.go | 4 ++--
 shortcut.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fragment.go b/fragment.go
index 6b407fa..1142994 100644
--- a/fragment.go
+++ b/fragment.go
@@ -24,13 +24,13 @@ func (f *Fragment) WithSuffix(suffix string) *Fragment {
 
 // WithArgs sets the args of f.
 func (f *Fragment) WithArgs(args ...any) *Fragment {
-	f.Args = args
+	f.Args = args[:len(args):len(args)]
 	return f
 }
 
 // WithFragments sets the fragments of f.
 func (f *Fragment) WithFragments(fragments ...FragmentBuilder) *Fragment {
-	f.Fragments = fragments
+	f.Fragments = fragments[:len(fragments):len(fragments)]
 	return f
 }
 
diff --git a/shortcut.go b/shortcut.go
index e27b83e..2601757 100644
--- a/shortcut.go
+++ b/shortcut.go
@@ -11,7 +11,7 @@ func F(raw string) *Fragment {
 func Fa(raw string, args ...any) *Fragment {
 	return &Fragment{
 		Raw:  raw,
-		Args: args,
+		Args: args[:len(args):len(args)],
 	}
 }
 
@@ -19,6 +19,6 @@ func Fa(raw string, args ...any) *Fragment {
 func Ff(raw string, fragments ...FragmentBuilder) *Fragment {
 	return &Fragment{
 		Raw:       raw,
-		Fragments: fragments,
+		Fragments: fragments[:len(fragments):len(fragments)],
 	}
 }
-- 
2.43.0


From a3a0205468f3cf08a2594a82dc4c4e162dcfb6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 16/37] fix: keep nil slice pointers in ArgsFlatted

A nil *[]int (or another of the common types) panicked, while nil pointers to
other slice types are kept as the value they are.
---
 util/args.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/args.go b/util/args.go
index b685cd5..9cb20ca 100644
--- a/util/args.go
+++ b/util/args.go
@@ -21,6 +21,9 @@ func ArgsFlatted(valueOrSlices ...any) []any {
 }
 
 func argsFrom(v any) []any {
+	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Pointer && rv.IsNil() {
+		return []any{v}
+	}
 	switch a := v.(type) {
 	case []any:
 		return a
-- 
2.43.0


From 4e136d9832c749a18569f60646e14ee3d494ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 17/37] fix: reject function names that can't be called

Non-ASCII letters were accepted in function names, but the syntax allows only
ASCII letters and underscore after the #.
---
 func.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/func.go b/func.go
index 13b26c6..9e0e044 100644
--- a/func.go
+++ b/func.go
@@ -20,7 +20,7 @@ var (
 
 // FuncMap is the type of the map defining the mapping from names to functions.
 //
-// The function names are case sensitive, only letters and underscore are allowed.
+// The function names are case sensitive, only ASCII letters and underscore are allowed.
 //
 // Allowed function signatures:
 //
@@ -139,7 +139,7 @@ func goodName(name string) bool {
 		return false
 	}
 	for _, r := range name {
-		if r != '_' && !unicode.IsLetter(r) {
+		if r != '_' && (r > unicode.MaxASCII || !unicode.IsLetter(r)) {
 			return false
 		}
 	}
-- 
2.43.0


From 794b4668d8eb23836c128cea76bc671ed75162cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 18/37] fix: CrossJoin panic, and joins changing the caller's
 condition

CrossJoin always panicked because it has no condition to set the ON prefix
of. For the other joins, the prefix was set on the fragment of the caller,
which then also showed up wherever else that fragment is used.
---
 sqlb/query_builder_join.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index b872497..a7ca2ff 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -103,7 +103,7 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Names: t,
 		Fragment: sqlf.Ff(
 			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
-			on.WithPrefix("ON"),
+			onClause(on),
 		),
 		Optional: optional,
 	}
@@ -115,3 +115,12 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 	b.tablesDict[t.AppliedName()] = table
 	return b
 }
+
+// onClause returns the ON clause of the condition, which may be nil. The
+// condition belongs to the caller and is left as it is.
+func onClause(on *sqlf.Fragment) *sqlf.Fragment {
+	if on == nil {
+		return sqlf.F("")
+	}
+	return sqlf.Ff("#f1", on).WithPrefix("ON")
+}
-- 
2.43.0


From 83efc3a8ae7941f6d2d4b5176d1e0549261be81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 19/37] fix: don't modify the query builder on build

With DISTINCT, every build added the order columns to the select list once
more. An invalid order was dropped by the first build, which succeeded, and
reported only by the following ones. Also, concurrent builds of one builder
raced for writing the prefix of the select list.
---
 sqlb/query_builder.go           |  2 --
 sqlb/query_builder_build.go     | 24 ++++++++++++++----------
 sqlb/query_builder_dependecy.go |  1 -
 sqlb/query_builder_order.go     | 14 ++++++++------
 4 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/sqlb/query_builder.go b/sqlb/query_builder.go
index ea5931a..acde3d5 100644
--- a/sqlb/query_builder.go
+++ b/sqlb/query_builder.go
@@ -15,7 +15,6 @@ type QueryBuilder struct {
 	tablesDict map[Table]*fromTable // the from tables by alias
 
 	selects    *sqlf.Fragment         // select columns and keep values in scanning.
-	touches    *sqlf.Fragment         // select columns but drop values in scanning.
 	conditions *sqlf.Fragment         // where conditions, joined with AND.
 	orders     []*orderItem           // order by columns, joined with comma.
 	groupbys   *sqlf.Fragment         // group by columns, joined with comma.
@@ -41,7 +40,6 @@ func NewQueryBuilder() *QueryBuilder {
 		ctesDict:   make(map[Table]*cte),
 		tablesDict: make(map[Table]*fromTable),
 		selects:    sqlf.F("#join('#fragment', ', ')").WithPrefix("SELECT"),
-		touches:    sqlf.F("#join('#fragment', ', ')"),
 		conditions: sqlf.F("#join('#fragment', ' AND ')").WithPrefix("WHERE"),
 		groupbys:   sqlf.F("#join('#fragment', ', ')").WithPrefix("GROUP BY"),
 	}
diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 5eb7693..e36efcb 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -81,7 +81,11 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	order, err := b.buildOrders(ctx)
+	orders, touches, err := b.orderFragments()
+	if err != nil {
+		return "", err
+	}
+	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
@@ -94,8 +98,7 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	// select must build order, because buildOrders may add columns to touches
-	sel, err := b.buildSelects(ctx)
+	sel, err := b.buildSelects(ctx, touches)
 	if err != nil {
 		return "", err
 	}
@@ -145,27 +148,28 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (
 	return "With " + strings.Join(clauses, ", "), nil
 }
 
-func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
+func (b *QueryBuilder) buildSelects(ctx *sqlf.Context, touches *sqlf.Fragment) (string, error) {
+	selects := *b.selects
 	if b.distinct {
-		b.selects.Prefix = "SELECT DISTINCT"
+		selects.Prefix = "SELECT DISTINCT"
 	} else {
-		b.selects.Prefix = "SELECT"
+		selects.Prefix = "SELECT"
 	}
-	sel, err := b.selects.BuildFragment(ctx)
+	sel, err := selects.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
-	touches, err := b.touches.BuildFragment(ctx)
+	touched, err := touches.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
 	if sel == "" {
 		return "", fmt.Errorf("no columns selected")
 	}
-	if touches == "" {
+	if touched == "" {
 		return sel, nil
 	}
-	return sel + ", " + touches, nil
+	return sel + ", " + touched, nil
 }
 
 func (b *QueryBuilder) buildFrom(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index b667e6d..bed6a04 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -10,7 +10,6 @@ import (
 func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
-		b.touches,
 		b.conditions,
 		b.groupbys,
 	}
diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 66d8d00..fff6bc5 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -39,12 +39,14 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 	return b
 }
 
-func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
-	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+// orderFragments returns the ORDER BY clause, and the columns it requires to
+// select but drop values in scanning.
+func (b *QueryBuilder) orderFragments() (f, touches *sqlf.Fragment, err error) {
+	f = sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
+	touches = sqlf.F("#join('#fragment', ', ')")
 	for i, item := range b.orders {
 		if item.order > DescNullsLast {
-			b.pushError(fmt.Errorf("invalid order: %d", item.order))
-			continue
+			return nil, nil, fmt.Errorf("invalid order: %d", item.order)
 		}
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
@@ -56,10 +58,10 @@ func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 		// pq: for SELECT DISTINCT, ORDER BY expressions must appear in select list
 		alias := fmt.Sprintf("_order_%d", i+1)
 		orderStr := orders[item.order]
-		b.touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
+		touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
 		f.AppendFragments(sqlf.F(
 			fmt.Sprintf("%s %s", alias, orderStr),
 		))
 	}
-	return f.BuildFragment(ctx)
+	return f, touches, nil
 }
-- 
2.43.0


From a074f73cec3a59528259848b282d2c2506302e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 20/37] fix: order of args if there are some in the select list

The select list was built last, so its args came after the ones of FROM,
WHERE etc. and were bound to the wrong places with question bindvars.
---
 sqlb/query_builder_build.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index e36efcb..bf80bcc 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -57,9 +57,17 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		clauses = append(clauses, sq)
 	}
 
-	// reserve a position for select
-	selectAt := len(clauses)
-	clauses = append(clauses, "")
+	// clauses are built in the order of the text, it's the order of the args
+	// for unindexed bindvars.
+	orders, touches, err := b.orderFragments()
+	if err != nil {
+		return "", err
+	}
+	sel, err := b.buildSelects(ctx, touches)
+	if err != nil {
+		return "", err
+	}
+	clauses = append(clauses, sel)
 	from, err := b.buildFrom(ctx, dep)
 	if err != nil {
 		return "", err
@@ -81,10 +89,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	orders, touches, err := b.orderFragments()
-	if err != nil {
-		return "", err
-	}
 	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
@@ -98,11 +102,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	sel, err := b.buildSelects(ctx, touches)
-	if err != nil {
-		return "", err
-	}
-	clauses[selectAt] = sel
 	query := strings.TrimSpace(strings.Join(clauses, " "))
 	if len(b.unions) > 0 {
 		union, err := b.buildUnion(ctx)
-- 
2.43.0


From deb0c5012381c73d1426b1a9a1f6be1092d4cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 21/37] fix: report a missing FROM table

Building without From() panicked, or resulted in 'FROM  INNER JOIN ...' if
there are joins.
---
 sqlb/query_builder_dependecy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index bed6a04..e9bac09 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -17,6 +17,9 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 		builders = append(builders, order.column)
 	}
 
+	if len(b.tables) == 0 || b.tables[0].Names.Name == "" {
+		return nil, fmt.Errorf("no from table")
+	}
 	tables := extractTables(builders...)
 	deps := make(map[TableAliased]bool)
 	// first table is the main table and always included
-- 
2.43.0


From ca7da8c723e489864bc28f512175f6fa02de82b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 22/37] fix: accept nil fragments in the query builder

A nil *sqlf.Fragment builds to nothing, but collecting the dependencies of a
query that contains one panicked.
---
 sqlb/query_builder_dependecy.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index e9bac09..73a1fc0 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -93,6 +93,9 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 			continue
 		}
 		if fragment, ok := f.(*sqlf.Fragment); ok {
+			if fragment == nil {
+				continue
+			}
 			extractTables2(fragment.Fragments, tables, dict)
 			continue
 		}
@@ -101,7 +104,7 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 				if !dict[column.table] {
 					collectTable(column.table, tables, dict)
 				}
-			} else {
+			} else if column.fragment != nil {
 				extractTables2(column.fragment.Fragments, tables, dict)
 			}
 			continue
-- 
2.43.0


From 21012f068d9517661d85acd730bf62707928d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:18 +0000
Subject: [PATCH 23/37] fix: no UNION clause if all unions are built empty

---
 sqlb/query_builder_build.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index bf80bcc..119744a 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -198,5 +198,8 @@ func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 		}
 		clauses = append(clauses, query)
 	}
+	if len(clauses) == 0 {
+		return "", nil
+	}
 	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
 }
-- 
2.43.0


From 8778ac1ee61ce015dd6d9f55eda342aafa591f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:18 +0000
Subject: [PATCH 24/37] fix: include the dependencies of CTEs used without an
 alias

CTEs and unaliased tables shared the keys of the dependency map, so a CTE in
FROM or a JOIN without an alias was taken as already visited, and the CTEs it
depends on were missing from the WITH clause.
---
 sqlb/query_builder_build.go     |  8 ++++----
 sqlb/query_builder_dependecy.go | 19 ++++++++++---------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 119744a..46a0c35 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -44,12 +44,12 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	}
 	clauses := make([]string, 0)
 
-	dep, err := b.collectDependencies()
+	dep, cteDep, err := b.collectDependencies()
 	if err != nil {
 		return "", err
 	}
 
-	sq, err := b.buildCTEs(ctx, dep)
+	sq, err := b.buildCTEs(ctx, cteDep)
 	if err != nil {
 		return "", err
 	}
@@ -120,13 +120,13 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	return query, nil
 }
 
-func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
+func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[Table]bool) (string, error) {
 	if len(b.ctes) == 0 {
 		return "", nil
 	}
 	clauses := make([]string, 0, len(b.ctes))
 	for _, cte := range b.ctes {
-		if !dep[NewTableAliased(cte.name, "")] {
+		if !dep[cte.name] {
 			continue
 		}
 		query, err := cte.BuildFragment(ctx)
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 73a1fc0..d93b8ff 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -7,7 +7,8 @@ import (
 )
 
 // collectDependencies collects the dependencies of the tables.
-func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+// It returns the tables, and the CTEs they depend on.
+func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, map[Table]bool, error) {
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
 		b.conditions,
@@ -18,7 +19,7 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	}
 
 	if len(b.tables) == 0 || b.tables[0].Names.Name == "" {
-		return nil, fmt.Errorf("no from table")
+		return nil, nil, fmt.Errorf("no from table")
 	}
 	tables := extractTables(builders...)
 	deps := make(map[TableAliased]bool)
@@ -27,27 +28,27 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	for _, table := range tables {
 		err := b.collectDepsFromTable(deps, table)
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 	}
 	// mark for CTEs
+	ctes := make(map[Table]bool)
 	for _, t := range b.tables {
 		if b.distinct && t.Optional && !deps[t.Names] {
 			continue
 		}
 		if cte, ok := b.ctesDict[t.Names.Name]; ok {
-			b.collectDepsFromCTE(deps, cte)
+			b.collectDepsFromCTE(ctes, cte)
 		}
 	}
-	return deps, nil
+	return deps, ctes, nil
 }
 
-func (b *QueryBuilder) collectDepsFromCTE(deps map[TableAliased]bool, cte *cte) error {
-	key := NewTableAliased(cte.name, "")
-	if deps[key] {
+func (b *QueryBuilder) collectDepsFromCTE(deps map[Table]bool, cte *cte) error {
+	if deps[cte.name] {
 		return nil
 	}
-	deps[key] = true
+	deps[cte.name] = true
 	for _, dep := range cte.deps {
 		if cte, ok := b.ctesDict[dep]; ok {
 			err := b.collectDepsFromCTE(deps, cte)
-- 
2.43.0


From 3ff084cf338647a0d58ed347bd2a0b6a6263be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 25/37] fix: keep optional joins required by other joins

An optional join was trimmed even if the ON clause of a non-optional join
refers to its table.
---
 sqlb/query_builder_dependecy.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index d93b8ff..ea7fd31 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -31,6 +31,12 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, map[Table]b
 			return nil, nil, err
 		}
 	}
+	// joins which are always kept need the tables in their ON clauses
+	for _, t := range b.tables {
+		if !t.Optional {
+			b.collectDepsFromJoin(deps, t)
+		}
+	}
 	// mark for CTEs
 	ctes := make(map[Table]bool)
 	for _, t := range b.tables {
@@ -81,6 +87,18 @@ func (b *QueryBuilder) collectDepsFromTable(dep map[TableAliased]bool, t Table)
 	return nil
 }
 
+// collectDepsFromJoin collects the tables that the ON clause of a kept join
+// depends on. Undefined tables are ignored, they can be tables of an outer
+// query.
+func (b *QueryBuilder) collectDepsFromJoin(dep map[TableAliased]bool, from *fromTable) {
+	dep[from.Names] = true
+	for _, t := range extractTables(from.Fragment) {
+		if ft, ok := b.tablesDict[t]; ok && !dep[ft.Names] {
+			b.collectDepsFromJoin(dep, ft)
+		}
+	}
+}
+
 func extractTables(fragments ...sqlf.FragmentBuilder) []Table {
 	tables := []Table{}
 	dict := map[Table]bool{}
-- 
2.43.0


From f7f504f5f1b622cab50101767ab9b708b8cc62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 26/37] fix: conflicts between the FROM table and joins

Joining the applied name of the FROM table replaced the FROM table itself,
resulting in 'FROM LEFT JOIN ...', and a FROM table replaced by another was
still known, so that references to it were accepted, and a later join of it
was lost. Setting a joined table as the FROM table had it in the query twice.
---
 sqlb/query_builder_join.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index a7ca2ff..a2eb165 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -12,6 +12,10 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 		b.pushError(fmt.Errorf("from table is empty"))
 		return b
 	}
+	if joined, ok := b.tablesDict[t.AppliedName()]; ok && joined != b.tables[0] {
+		b.pushError(fmt.Errorf("table [%s] is already joined", t.AppliedName()))
+		return b
+	}
 	tableAndAlias := string(t.Name)
 	if t.Alias != "" {
 		tableAndAlias = tableAndAlias + " AS " + string(t.Alias)
@@ -24,6 +28,7 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 	if len(b.tables) == 0 {
 		b.tables = append(b.tables, table)
 	} else {
+		delete(b.tablesDict, b.tables[0].Names.AppliedName())
 		b.tables[0] = table
 	}
 	b.tablesDict[t.AppliedName()] = table
@@ -108,6 +113,10 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Optional: optional,
 	}
 	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
+		if target == b.tables[0] {
+			b.pushError(fmt.Errorf("table [%s] is already the from table", t.AppliedName()))
+			return b
+		}
 		*target = *table
 		return b
 	}
-- 
2.43.0


From 25cd84b7e071b34133eb9ec7490b0e2eeb67e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 27/37] fix: pass large integer literals to functions exactly

9007199254740993 reached an int64 parameter as 9007199254740992.
---
 func_exec.go     | 40 ++++++++++++++++++++++++++++++----------
 syntax/parser.go | 22 ++++++++++++++++++++--
 2 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/func_exec.go b/func_exec.go
index 713db88..345c1d4 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -119,8 +119,8 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		argType = "number"
 		if numberType(typ.Kind()) {
 			v = reflect.ValueOf(arg).Convert(typ)
-			if f, ok := arg.(float64); ok && !keepsNumber(f, v) {
-				return v, fmt.Errorf("can't represent %v as %s", f, typ)
+			if !keepsNumber(arg, v) {
+				return v, fmt.Errorf("can't represent %v as %s", arg, typ)
 			}
 		}
 	case bool:
@@ -147,18 +147,38 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 	return v, fmt.Errorf("can't assign %s to %s", argType, typ)
 }
 
-// keepsNumber reports whether v, which is converted from the number literal f,
-// still has the value of f, apart from the rounding to float32.
-func keepsNumber(f float64, v reflect.Value) bool {
+// keepsNumber reports whether v, which is converted from the number literal lit,
+// still has the value of it, apart from the rounding to a floating point type.
+func keepsNumber(lit any, v reflect.Value) bool {
+	isUint, isFloat := false, false
 	switch v.Kind() {
 	case reflect.Float32, reflect.Float64:
-		return !math.IsInf(v.Float(), 0) || math.IsInf(f, 0)
+		isFloat = true
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		// 2^64 is out of range, but float64(math.MaxUint64) rounds to it
-		return f < 1<<64 && float64(v.Uint()) == f
-	default:
-		return f < 1<<63 && float64(v.Int()) == f
+		isUint = true
+	}
+	switch n := lit.(type) {
+	case float64:
+		if isFloat {
+			return !math.IsInf(v.Float(), 0) || math.IsInf(n, 0)
+		}
+		if isUint {
+			// 2^64 is out of range, but float64(math.MaxUint64) rounds to it
+			return n < 1<<64 && float64(v.Uint()) == n
+		}
+		return n < 1<<63 && float64(v.Int()) == n
+	case int64:
+		if isUint {
+			return n >= 0 && v.Uint() == uint64(n)
+		}
+		return isFloat || v.Int() == n
+	case uint64:
+		if isUint {
+			return v.Uint() == n
+		}
+		return isFloat || n <= math.MaxInt64 && v.Int() == int64(n)
 	}
+	return true // an index of #join
 }
 
 func convertString(v reflect.Value) (string, error) {
diff --git a/syntax/parser.go b/syntax/parser.go
index 45197f0..7b8e0fb 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -152,7 +152,7 @@ func (p *parser) funcExpr() error {
 			case _BoolLit:
 				args = append(args, p.token.lit == "true")
 			case _NumberLit:
-				val, err := strconv.ParseFloat(p.token.lit, 64)
+				val, err := parseNumber(p.token.lit)
 				if err != nil {
 					return p.syntaxError(err.Error())
 				}
@@ -182,7 +182,7 @@ func (p *parser) funcExpr() error {
 		if p.token.kind != _NumberLit {
 			return p.syntaxError("unexpected '" + p.token.lit + "', want index")
 		}
-		val, err := strconv.ParseFloat(p.token.lit, 64)
+		val, err := parseNumber(p.token.lit)
 		if err != nil {
 			return p.syntaxError(err.Error())
 		}
@@ -209,3 +209,21 @@ func (p *parser) funcExpr() error {
 
 	return nil
 }
+
+// parseNumber returns the value of the number literal, which is a float64, or
+// an int64 or uint64 if it's an integer that float64 may be not able to hold.
+func parseNumber(lit string) (any, error) {
+	f, err := strconv.ParseFloat(lit, 64)
+	if err != nil {
+		return nil, err
+	}
+	if f <= -1<<53 || f >= 1<<53 {
+		if i, err := strconv.ParseInt(lit, 10, 64); err == nil {
+			return i, nil
+		}
+		if u, err := strconv.ParseUint(lit, 10, 64); err == nil {
+			return u, nil
+		}
+	}
+	return f, nil
+}
-- 
2.43.0


From 65034e02c7ce67c1751bbe2c608a464fe79c42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 28/37] fix: quote the formatted time when interpolating

The formatted time contains quotes if the format or the name of its time
zone does, they ended the literal.
---
 util/interpolate.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index 1a1df8a..6087147 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -95,9 +95,7 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		}
 		// In SQL standard, the precision of fractional seconds in time literal is up to 6 digits.
 		v = v.Round(time.Microsecond)
-		buf.WriteRune('\'')
-		buf.WriteString(v.Format(opts.TimeFormat))
-		buf.WriteRune('\'')
+		buf.Write(quoteStringValue(v.Format(opts.TimeFormat)))
 	case fmt.Stringer:
 		buf.Write(quoteStringValue(v.String()))
 	default:
-- 
2.43.0


From f71795bca7415a74631f607c85413470366b1c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 29/37] fix: Valuer returning a Valuer overflowed the stack in
 Interpolate

Like in database/sql, the result of Value() must not be a Valuer again: one
that returns itself recursed until the program crashed.
---
 util/interpolate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 6087147..c88630c 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -83,6 +83,9 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		if _, ok := val.(driver.Valuer); ok {
+			return nil, fmt.Errorf("non-Value type %T returned from Value", val)
+		}
 		enc, err := encodeValue(val, opts)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 91b52ce2b8c02e28c3a744d72fb8a595b091a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:33 +0000
Subject: [PATCH 30/37] fix: reject integer literals just below the range of
 int64

-9223372036854775809 reached an int64 parameter as -9223372036854775808.
---
 func_exec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/func_exec.go b/func_exec.go
index 345c1d4..e572462 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -166,7 +166,8 @@ func keepsNumber(lit any, v reflect.Value) bool {
 			// 2^64 is out of range, but float64(math.MaxUint64) rounds to it
 			return n < 1<<64 && float64(v.Uint()) == n
 		}
-		return n < 1<<63 && float64(v.Int()) == n
+		// integers out of the range of int64 may round to -2^63
+		return n > -1<<63 && n < 1<<63 && float64(v.Int()) == n
 	case int64:
 		if isUint {
 			return n >= 0 && v.Uint() == uint64(n)
-- 
2.43.0


From 1439252bad22fb9e845b72390445a6f0f1200533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 31/37] fix: large unsigned integer literals with a plus sign

#f(+18446744073709551615) was rounded.
---
 syntax/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index 7b8e0fb..80f400e 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -221,7 +221,7 @@ func parseNumber(lit string) (any, error) {
 		if i, err := strconv.ParseInt(lit, 10, 64); err == nil {
 			return i, nil
 		}
-		if u, err := strconv.ParseUint(lit, 10, 64); err == nil {
+		if u, err := strconv.ParseUint(strings.TrimPrefix(lit, "+"), 10, 64); err == nil {
 			return u, nil
 		}
 	}
-- 
2.43.0


From 5fb18afbf471426d5d1ea50ea3b5a28b3395f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:57 +0000
Subject: [PATCH 32/37] fix: args of nested query builders in the debug output

With question style, the interpolated sub-query showed the first args of the
whole statement instead of its own.
---
 sqlb/query_builder_build.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 46a0c35..561fe9d 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -43,6 +43,10 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		return "", err
 	}
 	clauses := make([]string, 0)
+	nArgs := 0
+	if b.debug && ctx != nil {
+		nArgs = len(ctx.Args())
+	}
 
 	dep, cteDep, err := b.collectDependencies()
 	if err != nil {
@@ -111,7 +115,12 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		query = strings.TrimSpace(query + " " + union)
 	}
 	if b.debug {
-		interpolated, err := util.Interpolate(query, ctx.Args())
+		args := ctx.Args()
+		if hasQuestionBindVar(query) {
+			// counted from the beginning of this query
+			args = args[nArgs:]
+		}
+		interpolated, err := util.Interpolate(query, args)
 		if err != nil {
 			log.Printf("debug: interpolated query: %s\n", err)
 		}
@@ -120,6 +129,20 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	return query, nil
 }
 
+// hasQuestionBindVar reports whether the built query has bindvars of question style.
+func hasQuestionBindVar(query string) bool {
+	clause, err := syntax.Parse(query)
+	if err != nil {
+		return false
+	}
+	for _, expr := range clause.ExprList {
+		if v, ok := expr.(*syntax.BindVarExpr); ok {
+			return v.Type == syntax.Question
+		}
+	}
+	return false
+}
+
 func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[Table]bool) (string, error) {
 	if len(b.ctes) == 0 {
 		return "", nil
-- 
2.43.0


From de36703132b2f813e375a572c2cfcd6b2cc322ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:30 +0000
Subject: [PATCH 33/37] fix: ending a #join without dropping args doesn't copy
 all args of the build

Each #join ended with a rollback that cut the capacity of the args, the next arg
copied them all: the work for many lists in one query grew with the square of
their number.
---
 context_args.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/context_args.go b/context_args.go
index 3bf7026..9849dfb 100644
--- a/context_args.go
+++ b/context_args.go
@@ -42,6 +42,9 @@ func (s *questionArgStore) CommitArg(arg any) string {
 }
 
 func (s *questionArgStore) Truncate(n int) {
+	if n == len(s.args) {
+		return
+	}
 	s.args = s.args[:n:n]
 }
 
@@ -76,6 +79,9 @@ func (s *dollarArgStore) CommitArg(arg any) string {
 }
 
 func (s *dollarArgStore) Truncate(n int) {
+	if n == len(s.args) {
+		return
+	}
 	for _, arg := range s.args[n:] {
 		if hashable(arg) {
 			delete(s.dict, arg)
-- 
2.43.0


From 6645264df93e0b21e1391c0a37f4b0d4c8541c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:39 +0000
Subject: [PATCH 34/37] fix: join index beyond the type of a function's
 parameter is an invalid index

---
 func_exec.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/func_exec.go b/func_exec.go
index e572462..f375f0a 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -120,6 +120,9 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		if numberType(typ.Kind()) {
 			v = reflect.ValueOf(arg).Convert(typ)
 			if !keepsNumber(arg, v) {
+				if i, ok := arg.(int); ok { // an index of #join
+					return v, fmt.Errorf("%w: %d", ErrInvalidIndex, i)
+				}
 				return v, fmt.Errorf("can't represent %v as %s", arg, typ)
 			}
 		}
@@ -157,6 +160,9 @@ func keepsNumber(lit any, v reflect.Value) bool {
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		isUint = true
 	}
+	if i, ok := lit.(int); ok { // an index of #join
+		lit = int64(i)
+	}
 	switch n := lit.(type) {
 	case float64:
 		if isFloat {
@@ -179,7 +185,7 @@ func keepsNumber(lit any, v reflect.Value) bool {
 		}
 		return isFloat || n <= math.MaxInt64 && v.Int() == int64(n)
 	}
-	return true // an index of #join
+	return true
 }
 
 func convertString(v reflect.Value) (string, error) {
-- 
2.43.0


From 194cf0116ef070846f7c25bc70c32608a05abde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:42 +0000
Subject: [PATCH 35/37] fix: a function that panics with nil fails the build

---
 func_exec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/func_exec.go b/func_exec.go
index f375f0a..ff73e27 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -1,6 +1,7 @@
 package sqlf
 
 import (
+	"errors"
 	"fmt"
 	"math"
 	"reflect"
@@ -73,6 +74,7 @@ func evalCall(ctx *Context, f *funcInfo, args []any) (string, error) {
 // safeCall runs fun.Call(args), and returns the resulting value and error, if
 // any. If the call panics, the panic value is returned as an error.
 func safeCall(fun reflect.Value, args []reflect.Value) (val string, err error) {
+	returned := false
 	defer func() {
 		if r := recover(); r != nil {
 			if e, ok := r.(error); ok {
@@ -80,10 +82,13 @@ func safeCall(fun reflect.Value, args []reflect.Value) (val string, err error) {
 			} else {
 				err = fmt.Errorf("%v", r)
 			}
+		} else if !returned {
+			err = errors.New("panic called with nil argument")
 		}
 	}()
 
 	ret := fun.Call(args)
+	returned = true
 	switch len(ret) {
 	case 0:
 		return "", nil
-- 
2.43.0


From 1a885d1e48b0fe0f730760221a3cba597386c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:12 +0000
Subject: [PATCH 36/37] fix: interpolate a negative number behind a minus sign
 as a number

'a -?' with -5 was interpolated as 'a --5', which starts a comment instead
of showing the value.
---
 util/interpolate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index c88630c..514e580 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -62,6 +62,10 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 			if err != nil {
 				return "", err
 			}
+			if bytes.HasPrefix(v, []byte{'-'}) && strings.HasSuffix(b.String(), "-") {
+				// "--" starts a comment
+				b.WriteByte(' ')
+			}
 			b.Write(v)
 		default:
 			return "", fmt.Errorf("%s: unsupported declaration", decl.Pos())
-- 
2.43.0


From 96272f4d989ab5a59069f5abfa5bed92ac751e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:32 +0000
Subject: [PATCH 37/37] fix: keep interpolated values apart from adjacent words
 and quotes

'LIMIT?' with 10 was interpolated as 'LIMIT10', '?AND' as '1AND', and '$1$2'
with strings as one quoted text: the value could not be read back. There is
a space now wherever the value would become a part of another token, as
there is behind a minus sign.
---
 util/interpolate.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index 514e580..ef5ddff 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -50,9 +50,14 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 		return "", err
 	}
 	b := new(strings.Builder)
+	behindValue := false
 	for _, decl := range exprs.ExprList {
 		switch decl := decl.(type) {
 		case *syntax.PlainExpr:
+			if behindValue && mergesWith(b.String(), decl.Text) {
+				b.WriteByte(' ')
+			}
+			behindValue = false
 			b.WriteString(decl.Text)
 		case *syntax.BindVarExpr:
 			if decl.Index < 1 || decl.Index > len(args) {
@@ -62,10 +67,10 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 			if err != nil {
 				return "", err
 			}
-			if bytes.HasPrefix(v, []byte{'-'}) && strings.HasSuffix(b.String(), "-") {
-				// "--" starts a comment
+			if mergesWith(b.String(), string(v)) {
 				b.WriteByte(' ')
 			}
+			behindValue = true
 			b.Write(v)
 		default:
 			return "", fmt.Errorf("%s: unsupported declaration", decl.Pos())
@@ -74,6 +79,29 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 	return b.String(), nil
 }
 
+// mergesWith reports whether next becomes a part of the last token of text, or
+// the other way around: a value next to a word, a number or a quoted text is
+// not the value anymore, and "--" starts a comment.
+func mergesWith(text, next string) bool {
+	if text == "" || next == "" {
+		return false
+	}
+	l, n := text[len(text)-1], next[0]
+	switch {
+	case l == '-':
+		return n == '-'
+	case l == '\'':
+		return n == '\''
+	default:
+		return isWordByte(l) && (isWordByte(n) || n == '\'')
+	}
+}
+
+func isWordByte(b byte) bool {
+	return b >= 0x80 || b == '_' || b == '$' || b == '.' ||
+		'0' <= b && b <= '9' || 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z'
+}
+
 func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 	buf := bytes.NewBuffer(nil)
 	if isNilPointer(arg) {
-- 
2.43.0

