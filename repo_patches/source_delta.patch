From ba37bf3fb004b4e326b5849942c6c20207f29f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 01/46] fix: ridl: a NUL character no longer ends the file
 early

The lexer used rune(0) to mean end of input, so everything after a NUL
character in a schema was silently ignored.
---
 schema/ridl/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/lexer.go b/schema/ridl/lexer.go
index 025687a..10558be 100644
--- a/schema/ridl/lexer.go
+++ b/schema/ridl/lexer.go
@@ -5,7 +5,7 @@ import (
 )
 
 var (
-	empty = rune(0)
+	empty = rune(-1) // end of input; never a valid rune, unlike NUL
 )
 
 var (
@@ -283,7 +283,7 @@ func lexStateBackslash(lx *lexer) lexState {
 func lexStateWord(lx *lexer) lexState {
 	for {
 		lx.next()
-		if isWordBreak(lx.peek()) {
+		if r := lx.peek(); isEmpty(r) || isWordBreak(r) {
 			break
 		}
 	}
-- 
2.43.0


From c4a6a3c8221307549c27317de30e4dfae2d945e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 02/46] fix: ridl: keep non-ASCII characters in values intact

Values were unescaped byte by byte, each byte turned into a rune of its own,
which mangled every multi-byte character in messages, metadata, names, paths
and versions.
---
 schema/ridl/parser_util.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index 7bc0b35..216dfa2 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -3,6 +3,7 @@ package ridl
 import (
 	"errors"
 	"fmt"
+	"strings"
 )
 
 func expectWord(tok *token, value string) error {
@@ -31,32 +32,33 @@ func expectNumber(tok *token, value string) error {
 }
 
 func unescapeString(in string) (string, error) {
-	size := len(in)
-	out := ""
+	runes := []rune(in)
+	size := len(runes)
+	var out strings.Builder
 
 	for i := 0; i < size; i++ {
-		c := in[i]
+		c := runes[i]
 
 		if c == '\\' {
 			i++
 			if i < size {
-				switch n := in[i]; n {
+				switch n := runes[i]; n {
 				case 'n':
-					out = out + "\n"
+					out.WriteRune('\n')
 				case 't':
-					out = out + "\t"
+					out.WriteRune('\t')
 				case '"':
-					out = out + string(n)
+					out.WriteRune(n)
 				default:
-					return "", fmt.Errorf("unexpected character %q after backslash", c)
+					return "", fmt.Errorf("unexpected character %q after backslash", n)
 				}
 			} else {
 				return "", errors.New("unexpected end after backslash")
 			}
 		} else {
-			out = out + string(c)
+			out.WriteRune(c)
 		}
 	}
 
-	return out, nil
+	return out.String(), nil
 }
-- 
2.43.0


From 5eb6f0c6f6869a6772421e5a7c59227738a3af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 03/46] fix: schema: reject map keys which are not enums
 instead of crashing

A map keyed by a struct, or by an alias which was not resolved yet, ended in
a nil pointer dereference. Keys were also looked up ignoring the letter case,
which left a reference to a type of a name that does not exist, and whether an
alias of an enum was accepted depended on the order of declarations.
---
 schema/ridl/ridl.go |  1 +
 schema/var_type.go  | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index da54a97..ef07f02 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -205,6 +205,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 		s.Types = append(s.Types, &schema.Type{
 			Kind:     schemaTypeKindAlias,
 			Name:     line.Name().String(),
+			Type:     &schema.VarType{Expr: line.TypeName().String()},
 			Comments: parseComment(line.Comments()),
 		})
 	}
diff --git a/schema/var_type.go b/schema/var_type.go
index b358507..ca4d688 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -138,8 +138,8 @@ func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 				Value: &VarType{},
 			}
 		} else {
-			t := schema.GetTypeByName(key)
-			if t == nil || t.Kind != "enum" && t.Type.Type != T_Enum {
+			t, _ := getType(schema, key)
+			if !resolvesToEnum(schema, t) {
 				return fmt.Errorf("schema error: invalid map key '%s' for '%s'", key, expr)
 			}
 			vt.Map = &VarMapType{
@@ -264,6 +264,24 @@ func getType(schema *WebRPCSchema, structExpr string) (*Type, bool) {
 	return nil, false
 }
 
+// resolvesToEnum returns true if t is an enum, or an alias which leads to one.
+func resolvesToEnum(schema *WebRPCSchema, t *Type) bool {
+	// No chain of aliases is longer than the number of types, unless it's circular.
+	for range schema.Types {
+		if t == nil {
+			return false
+		}
+		if t.Kind == TypeKind_Enum {
+			return true
+		}
+		if t.Kind != TypeKind_Alias || t.Type == nil {
+			return false
+		}
+		t, _ = getType(schema, t.Type.Expr)
+	}
+	return false
+}
+
 var VarKeyCoreTypes = []CoreType{
 	T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,
 }
-- 
2.43.0


From e25bfb0cb1246a15112fc3374e44ad9be75f9798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 04/46] fix: schema: reject lists and maps without an element
 type

'[]' and 'map<string,>' were accepted and became types called '<unknown>'.
---
 schema/var_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index ca4d688..91e33de 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -90,7 +90,7 @@ type VarAliasType struct {
 
 func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 	if expr == "" {
-		return nil
+		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	vt.Expr = expr
 
-- 
2.43.0


From 2cef964cb82ae59c5405bdd80783fa92b4712de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 05/46] fix: schema: reject null definitions in JSON schemas
 instead of crashing

---
 schema/parser.go   |  4 ++--
 schema/schema.go   | 49 ++++++++++++++++++++++++++++++++++++++++++++++
 schema/var_type.go |  2 +-
 3 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/schema/parser.go b/schema/parser.go
index 732159f..81015a8 100644
--- a/schema/parser.go
+++ b/schema/parser.go
@@ -10,8 +10,8 @@ type Parser interface {
 }
 
 func ParseSchemaJSON(jsondata []byte) (*WebRPCSchema, error) {
-	var schema *WebRPCSchema
-	err := json.Unmarshal(jsondata, &schema)
+	schema := &WebRPCSchema{}
+	err := json.Unmarshal(jsondata, schema)
 	if err != nil {
 		return nil, err
 	}
diff --git a/schema/schema.go b/schema/schema.go
index 78ed123..53f72b8 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -33,6 +33,10 @@ func (s *WebRPCSchema) Validate() error {
 		return fmt.Errorf("webrpc schema version, '%s' is invalid, try '%s'", s.WebrpcVersion, SCHEMA_VERSION)
 	}
 
+	if err := s.checkNulls(); err != nil {
+		return err
+	}
+
 	if len(s.Services) > 0 && s.SchemaVersion == "" {
 		return fmt.Errorf("schema error: version is required when services are defined")
 	}
@@ -90,6 +94,51 @@ func (s *WebRPCSchema) Validate() error {
 	return nil
 }
 
+// checkNulls rejects null values in place of definitions, which JSON allows.
+func (s *WebRPCSchema) checkNulls() error {
+	for _, t := range s.Types {
+		if t == nil {
+			return fmt.Errorf("schema error: type cannot be null")
+		}
+		for _, field := range t.Fields {
+			if field == nil {
+				return fmt.Errorf("schema error: field cannot be null in type '%s'", t.Name)
+			}
+		}
+	}
+	for _, e := range s.Errors {
+		if e == nil {
+			return fmt.Errorf("schema error: error cannot be null")
+		}
+	}
+	for _, svc := range s.Services {
+		if svc == nil {
+			return fmt.Errorf("schema error: service cannot be null")
+		}
+		for _, method := range svc.Methods {
+			if method == nil {
+				return fmt.Errorf("schema error: method cannot be null in service '%s'", svc.Name)
+			}
+			for _, arg := range method.Inputs {
+				if arg == nil {
+					return fmt.Errorf("schema error: input argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
+				}
+			}
+			for _, arg := range method.Outputs {
+				if arg == nil {
+					return fmt.Errorf("schema error: output argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
+				}
+			}
+			for name, annotation := range method.Annotations {
+				if annotation == nil {
+					return fmt.Errorf("schema error: annotation '%s' cannot be null for method '%s' in service '%s'", name, method.Name, svc.Name)
+				}
+			}
+		}
+	}
+	return nil
+}
+
 func (s *WebRPCSchema) SchemaHash() (string, error) {
 	// TODO: lets later make this even more deterministic in face of re-ordering
 	// definitions within the ridl file
diff --git a/schema/var_type.go b/schema/var_type.go
index 91e33de..74f1625 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -53,7 +53,7 @@ func (t *VarType) UnmarshalJSON(b []byte) error {
 }
 
 func (t *VarType) Parse(schema *WebRPCSchema) error {
-	if t.Expr == "" {
+	if t == nil || t.Expr == "" {
 		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
 	err := ParseVarTypeExpr(schema, t.Expr, t)
-- 
2.43.0


From 77bf4dd411b7d2d381a631419c121f2738f2f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 06/46] fix: schema: decode and encode type expressions as JSON
 strings

Escape sequences were taken literally, so a schema written by any JSON encoder
that escapes '<' and '>' (such as json.Marshal) was rejected, and an expression
was written out with Go's quoting, which is not always valid JSON.
---
 schema/var_type.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/schema/var_type.go b/schema/var_type.go
index 74f1625..b44e3a4 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -1,6 +1,8 @@
 package schema
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -25,26 +27,31 @@ func (t *VarType) String() string {
 }
 
 func (t *VarType) MarshalJSON() ([]byte, error) {
-	return []byte(fmt.Sprintf("%q", t)), nil
-}
+	var buf bytes.Buffer
 
-func (t *VarType) UnmarshalJSON(b []byte) error {
-	if len(b) <= 2 {
-		return fmt.Errorf("json error: type cannot be empty")
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false) // leave it up to the outer encoder
+
+	if err := enc.Encode(t.String()); err != nil {
+		return nil, err
 	}
-	s := string(b) // string value will be wrapped in quotes
 
+	return bytes.TrimSpace(buf.Bytes()), nil
+}
+
+func (t *VarType) UnmarshalJSON(b []byte) error {
 	// validate its a string value
-	if s[0:1] != "\"" {
-		return fmt.Errorf("json error: string value is expected")
-	}
-	if s[len(s)-1:] != "\"" {
+	if len(b) == 0 || b[0] != '"' {
 		return fmt.Errorf("json error: string value is expected")
 	}
 
-	// trim string quotes from the json string
-	s = s[1:]
-	s = s[:len(s)-1]
+	var s string
+	if err := json.Unmarshal(b, &s); err != nil {
+		return err
+	}
+	if s == "" {
+		return fmt.Errorf("json error: type cannot be empty")
+	}
 
 	// set the expr from value
 	t.Expr = s
-- 
2.43.0


From 38508c3471baaa05c4f7352d6ad2cd7ef599db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 07/46] fix: schema: resolve the underlying types of aliases
 and enums

A schema loaded from JSON kept them as unresolved expressions, so an alias of
a type which does not exist was accepted, and the loaded schema differed from
the one parsed from the equivalent RIDL.
---
 schema/type.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schema/type.go b/schema/type.go
index 9c01264..b77a55d 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -62,12 +62,12 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		return fmt.Errorf("schema error: type must be one of 'enum', 'struct', or 'alias' for '%s'", typName)
 	}
 
-	// For aliases, validate the underlying type is set and return early
+	// For aliases, parse+validate the underlying type and return early
 	if t.Kind == TypeKind_Alias {
 		if t.Type == nil {
 			return fmt.Errorf("schema error: alias '%s' must have an underlying type", typName)
 		}
-		return nil
+		return t.Type.Parse(schema)
 	}
 
 	// Verify field names and ensure we don't have any duplicate field names
@@ -142,6 +142,9 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		if !isValidVarType(fieldType.String(), validCoreTypes) {
 			return fmt.Errorf("schema error: enum '%s' field '%s' is invalid. must be an integer type", t.Name, fieldType.String())
 		}
+		if err := fieldType.Parse(schema); err != nil {
+			return err
+		}
 	}
 
 	// For structs only
-- 
2.43.0


From 399a0dbb0d9b92fea1cdafe9c4f810300310e8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 08/46] fix: schema: reject aliases which refer to themselves

---
 schema/type.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/schema/type.go b/schema/type.go
index b77a55d..f58fb4d 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -67,7 +67,22 @@ func (t *Type) Parse(schema *WebRPCSchema) error {
 		if t.Type == nil {
 			return fmt.Errorf("schema error: alias '%s' must have an underlying type", typName)
 		}
-		return t.Type.Parse(schema)
+		if err := t.Type.Parse(schema); err != nil {
+			return err
+		}
+
+		// Ensure the alias doesn't lead back to itself
+		next := t
+		for range schema.Types {
+			next, _ = getType(schema, next.Type.String())
+			if next == t {
+				return fmt.Errorf("schema error: alias '%s' refers to itself", typName)
+			}
+			if next == nil || next.Kind != TypeKind_Alias {
+				break
+			}
+		}
+		return nil
 	}
 
 	// Verify field names and ensure we don't have any duplicate field names
-- 
2.43.0


From 7e6bb6b399d67ef132d7af772b6fdf5e585833d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 09/46] fix: ridl: reject error codes which are out of range

Such codes silently became 2147483647.
---
 schema/ridl/ridl.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index ef07f02..1431b5a 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -305,12 +305,18 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 	// error types
 	for _, line := range q.root.Errors() {
 		var errorType schema.Error
-		code, _ := strconv.ParseInt(line.code.String(), 10, 32)
+		code, err := strconv.ParseInt(line.code.String(), 10, 32)
+		if err != nil {
+			return nil, fmt.Errorf("error %q: invalid code %q: %w", line.name, line.code, err)
+		}
 		errorType.Code = int(code)
 		errorType.Name = line.name.String()
 		errorType.Message = line.message.String()
 		if line.httpStatus != nil {
-			httpStatus, _ := strconv.ParseInt(line.httpStatus.String(), 10, 32)
+			httpStatus, err := strconv.ParseInt(line.httpStatus.String(), 10, 32)
+			if err != nil {
+				return nil, fmt.Errorf("error %q: invalid HTTP status %q: %w", line.name, line.httpStatus, err)
+			}
 			errorType.HTTPStatus = int(httpStatus)
 		} else {
 			errorType.HTTPStatus = 400 // Default HTTP status code
-- 
2.43.0


From cecf3f1e5839c909f74d0a568edb3395163bb663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 10/46] fix: ridl: import a service once, however many paths
 lead to it

Importing two files which both import the same service was rejected as a
duplicate service name; types and errors were already merged.
---
 schema/ridl/ridl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 1431b5a..7aafc89 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -193,7 +193,7 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 				}
 			}
 			for i := range imported.Services {
-				if isImportAllowed(imported.Services[i].Name, members) {
+				if !slices.Contains(s.Services, imported.Services[i]) && isImportAllowed(imported.Services[i].Name, members) {
 					s.Services = append(s.Services, imported.Services[i])
 				}
 			}
-- 
2.43.0


From 201aede110407c029e9b81803bfe72ada098cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 11/46] fix: ridl: reject imports of members which the file
 does not declare

A misspelt member was silently dropped.
---
 schema/ridl/ridl.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index 7aafc89..fe20423 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -182,6 +182,11 @@ func (p *Parser) parse() (*schema.WebRPCSchema, error) {
 		}
 
 		if imported := p.cache[importPath]; imported != nil {
+			for _, member := range members {
+				if !hasMember(imported, member) {
+					return nil, fmt.Errorf("import %q: no such type, error or service: %q", line.Path(), member)
+				}
+			}
 			for i := range imported.Types {
 				if !slices.Contains(s.Types, imported.Types[i]) && isImportAllowed(imported.Types[i].Name, members) {
 					s.Types = append(s.Types, imported.Types[i])
@@ -421,6 +426,12 @@ func (p *Parser) trace(err error, tok *TokenNode) error {
 	)
 }
 
+func hasMember(s *schema.WebRPCSchema, name string) bool {
+	return slices.ContainsFunc(s.Types, func(t *schema.Type) bool { return t.Name == name }) ||
+		slices.ContainsFunc(s.Errors, func(e *schema.Error) bool { return e.Name == name }) ||
+		slices.ContainsFunc(s.Services, func(svc *schema.Service) bool { return svc.Name == name })
+}
+
 func isImportAllowed(name string, whitelist []string) bool {
 	if len(whitelist) < 1 {
 		return true
-- 
2.43.0


From 1361876ddeda8da625f64ba78fe04d6e829180ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 12/46] fix: ridl: reject unexpected tokens after a method
 signature

A word after the argument lists which is not 'errors' was silently dropped, and
so was any single token after a list in succinct form.
---
 schema/ridl/service_parser.go | 7 ++++++-
 schema/ridl/type_parser.go    | 1 -
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 1ba8f72..82906a8 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -106,7 +106,12 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 
 		// Check for optional errors clause
 		matches, err = p.match(tokenWhitespace, tokenWord)
-		if err == nil && matches[1].val == wordErrors {
+		if err == nil {
+			if matches[1].val != wordErrors {
+				p.rewind(1)
+				return p.stateError(errUnexpectedToken)
+			}
+
 			// Parse bar-separated list of error names
 			errorNames, err := p.expectErrorList()
 			if err != nil {
diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index 3dc8ca6..f7bce17 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -94,7 +94,6 @@ loop:
 					})
 
 					tokens = append(tokens, tok)
-					p.next()
 					break loop
 				}
 			}
-- 
2.43.0


From d1ed13b0ccbc7f003eeb7f643db91475c5308a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 13/46] fix: ridl: do not drop tokens after annotations, nor
 annotations without a method

The token after an annotation's value was skipped whatever it was, and
annotations at the end of a service were silently ignored.
---
 schema/ridl/service_parser.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 82906a8..041a57f 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -152,6 +152,10 @@ func parserStateServiceMethod(s *ServiceNode) parserState {
 			return state
 
 		default:
+			if len(s.methodAnnotations) > 0 {
+				return p.stateError(fmt.Errorf("annotation %q is not followed by a method", s.methodAnnotations[0].AnnotationType()))
+			}
+
 			p.emit(s)
 			return parserDefaultState
 
@@ -217,13 +221,14 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 
 		p.next()
 
+		switch p.cursor().tt {
 		// @acl:admin
-		if p.cursor() != eofToken && p.cursor().tt == tokenWord {
+		case tokenWord:
 			annotation.value = newTokenNode(p.cursor())
-		}
+			p.next()
 
 		// @auth:"cookies,authorization,query"
-		if p.cursor() != eofToken && p.cursor().tt == tokenQuote {
+		case tokenQuote:
 			annotationValue, err := p.expectStringValue()
 			if err != nil {
 				return nil, fmt.Errorf("parse string value: %w", err)
@@ -232,8 +237,6 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 			annotation.value = newTokenNode(annotationValue)
 		}
 
-		p.next()
-
 		annotations = append(annotations, annotation)
 	}
 
-- 
2.43.0


From 69e26a31d60e291725229335134f4c7e12143e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 14/46] fix: ridl: reject '@' without an annotation name
 instead of looping forever

---
 schema/ridl/service_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index 041a57f..e121953 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -201,6 +201,9 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 	for {
 		annotationMatches, err := p.match(matcher...)
 		if err != nil {
+			if len(annotations) == 0 {
+				return nil, err
+			}
 			break
 		}
 
-- 
2.43.0


From 712553d533dd41227a53ae1dd5f29c2478685dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 15/46] fix: ridl: attach comments to the definition they are
 written next to

A comment at the end of an error, import, metadata or annotated method line
became the documentation of whatever followed on the next line, and comments
above more than one line of annotations were lost.
---
 schema/ridl/definition_parser.go |  2 +-
 schema/ridl/enum_parser.go       |  6 +--
 schema/ridl/parser.go            | 81 +++++++++++++++-----------------
 schema/ridl/service_parser.go    |  8 ++--
 schema/ridl/struct_parser.go     |  4 +-
 schema/ridl/type_alias_parser.go |  2 +-
 6 files changed, 50 insertions(+), 53 deletions(-)

diff --git a/schema/ridl/definition_parser.go b/schema/ridl/definition_parser.go
index 34bc0e4..26f198f 100644
--- a/schema/ridl/definition_parser.go
+++ b/schema/ridl/definition_parser.go
@@ -24,6 +24,6 @@ func parserStateDefinition(p *parser) parserState {
 
 	return parserStateDefinitionValue(&DefinitionNode{
 		leftNode: newTokenNode(tokens[0]),
-		comment:  parseComments(p.comments, tokens[0].line),
+		comment:  p.parseComments(tokens[0].line, tokens[0].line),
 	})
 }
diff --git a/schema/ridl/enum_parser.go b/schema/ridl/enum_parser.go
index abc9275..03f944a 100644
--- a/schema/ridl/enum_parser.go
+++ b/schema/ridl/enum_parser.go
@@ -11,7 +11,7 @@ func parserStateEnumExplicitValue(en *EnumNode, dn *DefinitionNode) parserState
 				return p.stateError(err)
 			}
 			dn.rightNode = newTokenNode(explicitValue)
-			en.comment = parseComments(p.comments, explicitValue.line)
+			en.comment = p.parseComments(explicitValue.line, explicitValue.line)
 		}
 
 		en.values = append(en.values, dn)
@@ -36,7 +36,7 @@ func parserStateEnumDefinition(et *EnumNode) parserState {
 
 			return parserStateEnumExplicitValue(et, &DefinitionNode{
 				leftNode: newTokenNode(matches[2]),
-				comment:  parseComments(p.comments, matches[0].line),
+				comment:  p.parseComments(matches[0].line, matches[0].line),
 			})
 
 		case tokenNewLine, tokenWhitespace:
@@ -70,7 +70,7 @@ func parserStateEnum(p *parser) parserState {
 		name:     newTokenNode(matches[2]),
 		enumType: newTokenNode(matches[5]),
 		values:   []*DefinitionNode{},
-		comment:  parseComments(p.comments, matches[0].line),
+		comment:  p.parseComments(matches[0].line, matches[0].line),
 		line:     matches[0].line,
 	})
 }
diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index a5f752a..12e44ca 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -45,6 +45,8 @@ type parser struct {
 	words    chan interface{}
 	comments map[int]string
 
+	codeLines map[int]bool // lines which hold something other than a comment
+
 	root RootNode
 }
 
@@ -55,12 +57,27 @@ func newParser(file string, src []byte) (*parser, error) {
 	}
 
 	p := &parser{
-		file:     file,
-		words:    make(chan interface{}),
-		tokens:   tokens,
-		length:   len(tokens),
-		comments: comments,
+		file:      file,
+		words:     make(chan interface{}),
+		tokens:    tokens,
+		length:    len(tokens),
+		comments:  comments,
+		codeLines: make(map[int]bool),
 	}
+
+	commentLine := 0
+	for _, tok := range tokens {
+		switch tok.tt {
+		case tokenWhitespace, tokenNewLine:
+		case tokenHash:
+			commentLine = tok.line
+		default:
+			if tok.line != commentLine {
+				p.codeLines[tok.line] = true
+			}
+		}
+	}
+
 	return p, nil
 }
 
@@ -520,47 +537,27 @@ func composedValue(tokens []*token) (*token, error) {
 	}, nil
 }
 
-func parseComments(comments map[int]string, currentLine int) string {
-	iteration := 0
-	c := []string{}
-
-	if len(comments) == 0 {
-		return ""
-	}
-
-	for ; currentLine >= 0; currentLine-- {
-		comment, ok := comments[currentLine]
-		if ok {
-			if !strings.HasPrefix(comment, "!") {
-				c = append(c, comment)
-			}
-			delete(comments, currentLine)
-			iteration = 0
-
-			if len(comments) == 0 {
-				break
-			}
-		}
-
-		// if we already found a comment and there is one empty line we don't read more lines
-		if !ok && len(c) > 0 {
-			break
-		}
-
-		iteration++
-
-		// if there are 2 lines of empty space => no comment we don't read more lines
-		if iteration > 1 {
-			break
-		}
+// parseComments returns the comments which belong to the definition spanning
+// the given lines: those on the lines themselves, and the block of lines right
+// above them which hold nothing but a comment.
+func (p *parser) parseComments(firstLine, lastLine int) string {
+	for p.isCommentLine(firstLine - 1) {
+		firstLine--
 	}
 
-	if len(c) > 0 {
-		// slices.Reverse is introduced with go 1.22
-		for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
-			c[i], c[j] = c[j], c[i]
+	c := []string{}
+	for line := firstLine; line <= lastLine; line++ {
+		comment, ok := p.comments[line]
+		if ok && !strings.HasPrefix(comment, "!") {
+			c = append(c, comment)
 		}
+		delete(p.comments, line)
 	}
 
 	return strings.Join(c, "\n")
 }
+
+func (p *parser) isCommentLine(line int) bool {
+	_, ok := p.comments[line]
+	return ok && !p.codeLines[line]
+}
diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index e121953..f56af23 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -51,15 +51,15 @@ func parseStateServiceMethodDefinition(sn *ServiceNode) parserState {
 		}
 
 		commentLine := matches[0].line
-		// we have to start parsing comments from the line of last annotation
+		// we have to start parsing comments from the line of first annotation
 		if len(sn.methodAnnotations) > 0 {
-			commentLine = sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line
+			commentLine = sn.methodAnnotations[0].AnnotationType().tok.line
 		}
 
 		mn := &MethodNode{
 			name:    newTokenNode(methodName),
 			proxy:   proxy,
-			comment: parseComments(p.comments, commentLine),
+			comment: p.parseComments(commentLine, methodName.line),
 			inputs: argumentList{
 				stream:    streamInput,
 				arguments: []*ArgumentNode{},
@@ -186,7 +186,7 @@ func parserStateService(p *parser) parserState {
 	return parserStateServiceMethod(&ServiceNode{
 		name:    newTokenNode(serviceName),
 		methods: []*MethodNode{},
-		comment: parseComments(p.comments, matches[0].line),
+		comment: p.parseComments(matches[0].line, matches[0].line),
 	})
 }
 
diff --git a/schema/ridl/struct_parser.go b/schema/ridl/struct_parser.go
index cc9a9a8..20d6b70 100644
--- a/schema/ridl/struct_parser.go
+++ b/schema/ridl/struct_parser.go
@@ -73,7 +73,7 @@ func parserStateStructFieldDefinition(mn *StructNode) parserState {
 
 		field := &DefinitionNode{
 			leftNode: newTokenNode(matches[2]),
-			comment:  parseComments(p.comments, matches[0].line),
+			comment:  p.parseComments(matches[0].line, matches[0].line),
 		}
 
 		// ?
@@ -140,7 +140,7 @@ func parserStateStruct(p *parser) parserState {
 	return parserStateStructField(&StructNode{
 		name:    newTokenNode(matches[2]),
 		fields:  []*DefinitionNode{},
-		comment: parseComments(p.comments, matches[0].line),
+		comment: p.parseComments(matches[0].line, matches[0].line),
 		line:    matches[0].line,
 	})
 }
diff --git a/schema/ridl/type_alias_parser.go b/schema/ridl/type_alias_parser.go
index fe880d1..f8313e1 100644
--- a/schema/ridl/type_alias_parser.go
+++ b/schema/ridl/type_alias_parser.go
@@ -74,7 +74,7 @@ func parserStateTypeAlias(p *parser) parserState {
 	ta := &TypeAliasNode{
 		name:      newTokenNode(matches[2]),
 		aliasType: newTokenNode(typeToken),
-		comment:   parseComments(p.comments, matches[0].line),
+		comment:   p.parseComments(matches[0].line, matches[0].line),
 		line:      matches[0].line,
 	}
 
-- 
2.43.0


From 747a6ea2529b8c66adb01f4affc8a6c296a4b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 16/46] fix: ridl: keep the text of comments, and do not take
 quoted text for one

Hashes were removed from comments (issue #12 became issue12), a comment on the
last line was lost unless a newline followed, and text after a hash inside of
quotes was attached as a comment to the next definition.
---
 schema/ridl/tokenizer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 5cab16b..9be3611 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -17,13 +17,31 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 	parsingComment := false
 	commentTokens := []string{}
 
+	parsingString := false
+	escaped := false
+
 	for tok := range lx.tokens {
 		if tok.tt == tokenEOF {
+			// comment on the last line
+			if parsingComment {
+				lineComments[tok.line] = strings.Join(commentTokens, " ")
+			}
 			break
 		}
 
+		// a hash inside of quotes is not a comment
+		if !parsingComment {
+			switch {
+			case tok.tt == tokenNewLine:
+				parsingString = false
+			case tok.tt == tokenQuote && !escaped:
+				parsingString = !parsingString
+			}
+			escaped = parsingString && tok.tt == tokenBackslash && !escaped
+		}
+
 		// start parsing comment tokens until new line
-		if tok.tt == tokenHash {
+		if tok.tt == tokenHash && !parsingComment && !parsingString {
 			parsingComment = true
 			tokens = append(tokens, tok)
 			continue
-- 
2.43.0


From 6c52874c1e6eada5e987cd4c5ce76464103b64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 17/46] fix: ridl: allow an escaped quote right after a word

The backslash was taken for a part of the word, so "foo\"bar" ended the
string early, while "foo \"bar" was fine.
---
 schema/ridl/parser.go    | 6 +++++-
 schema/ridl/tokenizer.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 12e44ca..56fd6ae 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -227,7 +227,11 @@ loop:
 		case tokenEOF:
 			return nil, errUnexpectedEOF
 
-		case tokenBackslash:
+		case tokenBackslash, tokenWord:
+			if !strings.HasSuffix(tok.val, `\`) {
+				break
+			}
+
 			// push backlash
 			tokens = append(tokens, tok)
 
diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index 9be3611..e17efb4 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -37,7 +37,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 			case tok.tt == tokenQuote && !escaped:
 				parsingString = !parsingString
 			}
-			escaped = parsingString && tok.tt == tokenBackslash && !escaped
+			escaped = parsingString && !escaped && strings.HasSuffix(tok.val, `\`)
 		}
 
 		// start parsing comment tokens until new line
-- 
2.43.0


From 1a2c7cac9fe3b1524b317ad42e8fe90afbd83631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 18/46] fix: schema: tree-shake schemas with recursive structs
 and aliases

MethodTreeShake recursed without end into structs which refer to
themselves, and dropped aliases along with the types behind them.
---
 schema/schema.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/schema/schema.go b/schema/schema.go
index 53f72b8..73438c2 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -232,7 +232,7 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 	usedIncluded := map[string]bool{}
 	usedExcluded := map[string]bool{}
 
-	// Helper: recursively walk VarType and mark used type names, including nested struct fields and map/list elements.
+	// Helper: recursively walk VarType and mark used type names, including nested struct fields, map/list elements and aliased types.
 	var walkVarType func(vt *VarType, mark map[string]bool)
 	walkVarType = func(vt *VarType, mark map[string]bool) {
 		if vt == nil {
@@ -253,6 +253,9 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 		// Struct type: mark and traverse its fields
 		if vt.Struct != nil && vt.Struct.Type != nil {
 			t := vt.Struct.Type
+			if mark[t.Name] {
+				return // already traversed; structs may refer to themselves
+			}
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
@@ -268,6 +271,17 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
+			// Enum map keys may be aliases of enums
+			walkVarType(t.Type, mark)
+		}
+
+		// Alias type: mark usage and traverse the aliased type
+		if vt.Alias != nil && vt.Alias.Type != nil {
+			t := vt.Alias.Type
+			if t.Name != "" {
+				mark[t.Name] = true
+			}
+			walkVarType(t.Type, mark)
 		}
 	}
 
-- 
2.43.0


From a327e05ab6a219b5a10890e7227856a8ad490e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 19/46] fix: schema: find the bigints of structs which refer to
 each other

Whether a struct uses bigints was remembered even where the search had been
cut short by a cycle, so fields were missed depending on declaration order.
---
 schema/helpers.go | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/schema/helpers.go b/schema/helpers.go
index f0cbb83..3b30e26 100644
--- a/schema/helpers.go
+++ b/schema/helpers.go
@@ -12,7 +12,6 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 	}
 
 	visited := make(map[string]bool) // cycle guard for struct recursion
-	memo := make(map[string]bool)    // memoize struct -> hasBigInt
 
 	var structHasBigIntRecursive func(t *Type) bool
 	var varTypeHasBigInt func(vt *VarType) bool // forward declaration so each can call the other
@@ -21,25 +20,22 @@ func SchemaUsesBigInts(s *WebRPCSchema) bool {
 		if t == nil || t.Kind != TypeKind_Struct {
 			return false
 		}
-		if v, ok := memo[t.Name]; ok {
-			return v
-		}
 		if visited[t.Name] { // cycle
 			return false
 		}
+		if len(visited) == 0 {
+			defer clear(visited)
+		}
 		visited[t.Name] = true
-		defer func() { visited[t.Name] = false }()
 
 		for _, f := range t.Fields {
 			if f.Type == nil {
 				continue
 			}
 			if varTypeHasBigInt(f.Type) {
-				memo[t.Name] = true
 				return true
 			}
 		}
-		memo[t.Name] = false
 		return false
 	}
 
@@ -110,7 +106,6 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 	out := make(map[string][]any)
 	// cache for recursive detection to avoid cycles
 	visited := make(map[string]bool)
-	memo := make(map[string]bool)
 
 	var structHasBigIntRecursive func(t *Type) bool
 	structHasBigIntRecursive = func(t *Type) bool {
@@ -118,14 +113,15 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 			return false
 		}
 		name := t.Name
-		if v, ok := memo[name]; ok {
-			return v
-		}
 		if visited[name] { // cycle guard
 			return false
 		}
+		// The outcome for a struct within a cycle depends on where the search started,
+		// so each search starts anew.
+		if len(visited) == 0 {
+			defer clear(visited)
+		}
 		visited[name] = true
-		defer func() { visited[name] = false }()
 
 		for _, f := range t.Fields {
 			if f.Type == nil {
@@ -133,26 +129,21 @@ func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string
 			}
 			// direct scalar bigint
 			if strings.EqualFold(f.Type.Expr, "bigint") {
-				memo[name] = true
 				return true
 			}
 			// list of bigint
 			if f.Type.Type == T_List && f.Type.List != nil && strings.EqualFold(f.Type.List.Elem.Expr, "bigint") {
-				memo[name] = true
 				return true
 			}
 			// nested struct (struct types are parsed as T_Struct)
 			if f.Type.Type == T_Struct && f.Type.Struct != nil && structHasBigIntRecursive(f.Type.Struct.Type) {
-				memo[name] = true
 				return true
 			}
 			// list of nested struct
 			if f.Type.Type == T_List && f.Type.List != nil && f.Type.List.Elem.Type == T_Struct && f.Type.List.Elem.Struct != nil && structHasBigIntRecursive(f.Type.List.Elem.Struct.Type) {
-				memo[name] = true
 				return true
 			}
 		}
-		memo[name] = false
 		return false
 	}
 
-- 
2.43.0


From bd1552860672e05bb882075a4fe64911c99905cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 20/46] fix: gen: minVersion ignores the minor version of older
 major versions

minVersion "v2.0.0" "v1.5" was false.
---
 gen/funcmap_flow.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/gen/funcmap_flow.go b/gen/funcmap_flow.go
index 1e41f20..d5cd861 100644
--- a/gen/funcmap_flow.go
+++ b/gen/funcmap_flow.go
@@ -42,15 +42,11 @@ func minVersion(version string, minVersion string) bool {
 		panic(fmt.Sprintf("minVersion: unexpected min version %q", minVersion))
 	}
 
-	if minMajor > major {
-		return false
-	}
-
-	if minMinor > minor {
-		return false
+	if major != minMajor {
+		return major > minMajor
 	}
 
-	return true
+	return minor >= minMinor
 }
 
 func parseMajorMinorVersion(version string) (major int, minor int, err error) {
-- 
2.43.0


From 3f2328cb05650bbbe7f2991aafa74bdf613a1f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 21/46] fix: gen: appending to an array twice overwrote
 elements

The arrays which append returned for the same array could share memory.
---
 gen/funcmap_generic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen/funcmap_generic.go b/gen/funcmap_generic.go
index c03a4d3..f506f77 100644
--- a/gen/funcmap_generic.go
+++ b/gen/funcmap_generic.go
@@ -13,7 +13,8 @@ func array(elems ...interface{}) []interface{} {
 
 // Appends new elements to the existing slice.
 func appendFn(slice []interface{}, elems ...interface{}) []interface{} {
-	return append(slice, elems...)
+	// Two slices appended to the same one must not share their elements.
+	return append(slice[:len(slice):len(slice)], elems...)
 }
 
 // Returns first element from given array.
-- 
2.43.0


From 6320d16b95147d582ee6328b186c0683bc66dadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 22/46] fix: gen: print dictionaries in a deterministic order

---
 gen/funcmap_string.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap_string.go b/gen/funcmap_string.go
index 3e5d65a..cbf8fd4 100644
--- a/gen/funcmap_string.go
+++ b/gen/funcmap_string.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/webrpc/webrpc/schema"
@@ -23,9 +24,15 @@ func toString(v interface{}) string {
 	case string:
 		return t
 	case map[string]interface{}:
+		keys := make([]string, 0, len(t))
+		for k := range t {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+
 		var b strings.Builder
-		for k, v := range t {
-			b.WriteString(fmt.Sprintf("%v=%v\n", k, v))
+		for _, k := range keys {
+			b.WriteString(fmt.Sprintf("%v=%v\n", k, t[k]))
 		}
 		return b.String()
 	default:
-- 
2.43.0


From 8868d80530fe7f79a350466edb245149bff53c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 23/46] fix: take the first letter of a name, not its first
 byte

Names which start with a non-ASCII letter were corrupted when changing the
letter's case, and were accepted as upper case names whichever letter it was.
---
 gen/funcmap.go     | 13 +++++--------
 schema/type.go     |  7 +++----
 schema/var_name.go | 13 +++++--------
 3 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/gen/funcmap.go b/gen/funcmap.go
index 22f8e38..8b7a51e 100644
--- a/gen/funcmap.go
+++ b/gen/funcmap.go
@@ -2,6 +2,7 @@ package gen
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
 	"github.com/davecgh/go-spew/spew"
@@ -65,16 +66,12 @@ func templateFuncMap(opts map[string]interface{}) map[string]interface{} {
 		"toLower":    applyStringFunction("toLower", strings.ToLower), // v0.7.0
 		"toUpper":    applyStringFunction("toLower", strings.ToUpper), // v0.7.0
 		"firstLetterToLower": applyStringFunction("firstLetterToLower", func(input string) string { // v0.7.0
-			if input == "" {
-				return ""
-			}
-			return strings.ToLower(input[:1]) + input[1:]
+			_, size := utf8.DecodeRuneInString(input)
+			return strings.ToLower(input[:size]) + input[size:]
 		}),
 		"firstLetterToUpper": applyStringFunction("firstLetterToUpper", func(input string) string { // v0.7.0
-			if input == "" {
-				return ""
-			}
-			return strings.ToUpper(input[:1]) + input[1:]
+			_, size := utf8.DecodeRuneInString(input)
+			return strings.ToUpper(input[:size]) + input[size:]
 		}),
 		"firstWordToLower": applyStringFunction("firstWordToLower", func(input string) string { // v0.29.0
 			if input == "" {
diff --git a/schema/type.go b/schema/type.go
index f58fb4d..a89881a 100644
--- a/schema/type.go
+++ b/schema/type.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const (
@@ -197,8 +198,6 @@ func startsWithUpper(s string) bool {
 	if len(s) == 0 {
 		return false
 	}
-	if !unicode.IsUpper(rune(s[0])) {
-		return false
-	}
-	return true
+	r, _ := utf8.DecodeRuneInString(s)
+	return unicode.IsUpper(r)
 }
diff --git a/schema/var_name.go b/schema/var_name.go
index 7fce28e..3bd7dd2 100644
--- a/schema/var_name.go
+++ b/schema/var_name.go
@@ -2,6 +2,7 @@ package schema
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 type VarName string
@@ -9,19 +10,15 @@ type VarName string
 // TitleDowncase will downcase the first letter of a string,
 // ie. convert a name form 'FirstName' to 'firstName'
 func (v VarName) TitleDowncase() string {
-	if v == "" {
-		return ""
-	}
 	s := string(v)
-	return strings.ToLower(s[0:1]) + s[1:]
+	_, size := utf8.DecodeRuneInString(s)
+	return strings.ToLower(s[:size]) + s[size:]
 }
 
 // TitleUpcase will upcase the first letter of a string,
 // ie. convert a name form 'firstName' to 'FirstName'
 func (v VarName) TitleUpcase() string {
-	if v == "" {
-		return ""
-	}
 	s := string(v)
-	return strings.ToUpper(s[0:1]) + s[1:]
+	_, size := utf8.DecodeRuneInString(s)
+	return strings.ToUpper(s[:size]) + s[size:]
 }
-- 
2.43.0


From 654e9f07707be80d1ab110aa5cd83630cef190dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 24/46] fix: gen: drop templates from the cache which are gone
 from the target

The cache directory was meant to be cleared, but os.IsExist is never true for
the error of os.Stat.
---
 gen/template_source.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 5dd7689..636d217 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -142,13 +142,6 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 }
 
 func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
-	// create empty cache directory
-	if _, err := os.Stat(cacheDir); os.IsExist(err) {
-		if err := os.RemoveAll(cacheDir); err != nil {
-			return err
-		}
-	}
-
 	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
 	if err != nil {
 		return err
@@ -158,6 +151,11 @@ func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem,
 		return fmt.Errorf("no template files were found in target %s", target)
 	}
 
+	// create empty cache directory
+	if err := os.RemoveAll(cacheDir); err != nil {
+		return err
+	}
+
 	if err := os.MkdirAll(cacheDir, 0755); err != nil {
 		return fmt.Errorf("unable to create directory for template cache at %s: %w", cacheDir, err)
 	}
-- 
2.43.0


From dfac20c53ed3c5b4b2b93b29fbdefc76564ef78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 25/46] fix: webrpc-gen: report format errors with -silent and
 on stdout

Broken Go code was printed, or written, with exit status 0.
---
 cmd/webrpc-gen/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 8154bfe..bf818f7 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -125,6 +125,10 @@ func main() {
 	// Write output to stdout
 	if *outFlag == "" || *outFlag == "stdout" {
 		fmt.Println(genOutput.Code)
+		if genOutput.FormatErr != nil {
+			fmt.Fprintln(os.Stderr, genOutput.FormatErr)
+			os.Exit(1)
+		}
 		os.Exit(0)
 	}
 
@@ -137,6 +141,10 @@ func main() {
 
 	// Print gen report
 	if *silentFlag {
+		if genOutput.FormatErr != nil {
+			fmt.Fprintln(os.Stderr, genOutput.FormatErr)
+			os.Exit(1)
+		}
 		os.Exit(0)
 	}
 
-- 
2.43.0


From 3ccff109256b992ee24d93126096d2dbc10d11ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 26/46] fix: webrpc-gen: print the help of the target generator

---
 cmd/webrpc-gen/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index bf818f7..332535c 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -276,9 +276,9 @@ func setTargetFlagsUsage(templateOpts map[string]interface{}) {
 			fmt.Fprintf(os.Stderr, "\nTarget generator usage:\n")
 			templateHelp, err := gen.Generate(&schema.WebRPCSchema{}, *targetFlag, &gen.Config{TemplateOptions: templateOpts})
 			if err != nil {
-				fmt.Fprintln(os.Stderr, templateHelp.Code)
-			} else {
 				fmt.Fprintf(os.Stderr, "failed to render -help: %v\n", err)
+			} else {
+				fmt.Fprintln(os.Stderr, templateHelp.Code)
 			}
 		}
 	}
-- 
2.43.0


From 68eff901857bc76df88f154fded7ff04b72cdae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 27/46] fix: ridl: report where the file ends on unexpected
 EOF, instead of 0:0

---
 schema/ridl/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 56fd6ae..8aa8725 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -32,8 +32,6 @@ var (
 	errUnexpectedEOL   = errors.New(`unexpected EOL`)
 )
 
-var eofToken = &token{tt: tokenEOF}
-
 type parserState func(*parser) parserState
 
 type parser struct {
@@ -199,7 +197,12 @@ func (p *parser) next() bool {
 
 func (p *parser) cursor() *token {
 	if p.pos >= p.length {
-		return eofToken
+		eof := &token{tt: tokenEOF}
+		if p.length > 0 {
+			last := p.tokens[p.length-1]
+			eof.pos, eof.line, eof.col = last.pos, last.line, last.col
+		}
+		return eof
 	}
 	return &p.tokens[p.pos]
 }
-- 
2.43.0


From 369dbd04d4e1bd62307b0ad2b13a3a6d791ea22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 28/46] fix: schema: reject methods with several arguments of
 the same name

---
 schema/service.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/schema/service.go b/schema/service.go
index 03907e3..feb7155 100644
--- a/schema/service.go
+++ b/schema/service.go
@@ -108,11 +108,16 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 	if len(m.Inputs) > 1 && m.Succinct {
 		return fmt.Errorf("schema error: detected multiple input arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
 	}
+	inputNames := map[string]struct{}{}
 	for _, input := range m.Inputs {
 		input.InputArg = true // back-ref
 		if input.Name == "" {
 			return fmt.Errorf("schema error: detected empty input argument name for method '%s' in service '%s'", m.Name, serviceName)
 		}
+		if _, ok := inputNames[input.Name]; ok {
+			return fmt.Errorf("schema error: detected duplicate input argument name '%s' for method '%s' in service '%s'", input.Name, m.Name, serviceName)
+		}
+		inputNames[input.Name] = struct{}{}
 		err := input.Type.Parse(schema)
 		if err != nil {
 			return err
@@ -123,11 +128,16 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 	if len(m.Outputs) > 1 && m.Succinct {
 		return fmt.Errorf("schema error: detected multiple output arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
 	}
+	outputNames := map[string]struct{}{}
 	for _, output := range m.Outputs {
 		output.OutputArg = true // back-ref
 		if output.Name == "" {
 			return fmt.Errorf("schema error: detected empty output name for method '%s' in service '%s'", m.Name, serviceName)
 		}
+		if _, ok := outputNames[output.Name]; ok {
+			return fmt.Errorf("schema error: detected duplicate output name '%s' for method '%s' in service '%s'", output.Name, m.Name, serviceName)
+		}
+		outputNames[output.Name] = struct{}{}
 		err := output.Type.Parse(schema)
 		if err != nil {
 			return err
-- 
2.43.0


From 30f9f2a8e04d55d9181e06474c1cb499950eb787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 29/46] fix: ridl: a backslash may follow an escaped letter

---
 schema/ridl/parser.go      | 20 ++++++--------------
 schema/ridl/parser_util.go | 12 ++++++++++++
 schema/ridl/tokenizer.go   |  2 +-
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 8aa8725..f6c3818 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -216,6 +216,7 @@ func (p *parser) expectStringValue() (*token, error) {
 	}
 
 	tokens := []*token{}
+	escaped := false
 
 loop:
 	for {
@@ -230,24 +231,15 @@ loop:
 		case tokenEOF:
 			return nil, errUnexpectedEOF
 
-		case tokenBackslash, tokenWord:
-			if !strings.HasSuffix(tok.val, `\`) {
-				break
-			}
-
-			// push backlash
-			tokens = append(tokens, tok)
-
-			// push whatever else comes next
-			tok = p.cursor()
-			p.next()
-
 		case tokenQuote:
-			// end of string
-			break loop
+			if !escaped {
+				// end of string
+				break loop
+			}
 		}
 
 		tokens = append(tokens, tok)
+		escaped = escapesNext(tok, escaped)
 	}
 
 	return composedValue(tokens)
diff --git a/schema/ridl/parser_util.go b/schema/ridl/parser_util.go
index 216dfa2..dd2d129 100644
--- a/schema/ridl/parser_util.go
+++ b/schema/ridl/parser_util.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 func expectWord(tok *token, value string) error {
@@ -31,6 +32,17 @@ func expectNumber(tok *token, value string) error {
 	return nil
 }
 
+// escapesNext returns true if what follows tok in a string is escaped by a
+// backslash, given whether tok itself is.
+func escapesNext(tok *token, escaped bool) bool {
+	val := tok.val
+	if escaped {
+		_, size := utf8.DecodeRuneInString(val)
+		val = val[size:]
+	}
+	return strings.HasSuffix(val, `\`)
+}
+
 func unescapeString(in string) (string, error) {
 	runes := []rune(in)
 	size := len(runes)
diff --git a/schema/ridl/tokenizer.go b/schema/ridl/tokenizer.go
index e17efb4..9dbf934 100644
--- a/schema/ridl/tokenizer.go
+++ b/schema/ridl/tokenizer.go
@@ -37,7 +37,7 @@ func tokenize(src []byte) ([]token, map[int]string, error) {
 			case tok.tt == tokenQuote && !escaped:
 				parsingString = !parsingString
 			}
-			escaped = parsingString && !escaped && strings.HasSuffix(tok.val, `\`)
+			escaped = parsingString && escapesNext(&tok, escaped)
 		}
 
 		// start parsing comment tokens until new line
-- 
2.43.0


From 00ccb5127972e74eb534704a24d3810c61229c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 30/46] fix: schema: check the succinct form of JSON schemas
 like that of RIDL

---
 schema/service.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/schema/service.go b/schema/service.go
index feb7155..dc91fe1 100644
--- a/schema/service.go
+++ b/schema/service.go
@@ -144,6 +144,16 @@ func (m *Method) Parse(schema *WebRPCSchema, service *Service) error {
 		}
 	}
 
+	// The succinct form takes a struct and returns a struct
+	if m.Succinct {
+		if len(m.Inputs) != 1 || m.Inputs[0].Type.Type != T_Struct {
+			return fmt.Errorf("schema error: succinct form of method '%s' in service '%s' must have a struct as its input", m.Name, serviceName)
+		}
+		if len(m.Outputs) != 1 || m.Outputs[0].Type.Type != T_Struct {
+			return fmt.Errorf("schema error: succinct form of method '%s' in service '%s' must have a struct as its output", m.Name, serviceName)
+		}
+	}
+
 	// Parse+validate errors
 	for _, errorName := range m.Errors {
 		found := false
-- 
2.43.0


From 378beecd6204a6163d9275e4994efef3cddeda56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 31/46] fix: schema: tree-shake schemas with recursive aliases

---
 schema/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schema/schema.go b/schema/schema.go
index 73438c2..ffefec0 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -268,6 +268,9 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 		// Enum type: mark usage
 		if vt.Enum != nil && vt.Enum.Type != nil {
 			t := vt.Enum.Type
+			if mark[t.Name] {
+				return // already traversed
+			}
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
@@ -278,6 +281,9 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 		// Alias type: mark usage and traverse the aliased type
 		if vt.Alias != nil && vt.Alias.Type != nil {
 			t := vt.Alias.Type
+			if mark[t.Name] {
+				return // already traversed; aliases of lists and maps may refer to themselves
+			}
 			if t.Name != "" {
 				mark[t.Name] = true
 			}
-- 
2.43.0


From 6f9863fdadf34518baacc6406628f0fc4b6965a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 32/46] fix: webrpc-gen: allow several values of an annotation
 in -ignore and -match

---
 cmd/webrpc-gen/main.go | 20 +++++++++++---------
 schema/schema.go       | 23 +++++++++++++++++++----
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 332535c..93d35e5 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -91,23 +91,23 @@ func main() {
 	}
 
 	if *ignoreFlag != "" {
-		ignoreAnnotations, err := makeAnnotationsMap(*ignoreFlag)
+		ignoreAnnotations, err := makeAnnotationsMaps(*ignoreFlag)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "parse ignore annotations %s:%v\n", *ignoreFlag, err)
 			os.Exit(1)
 		}
 
-		s = schema.IgnoreMethodsWithAnnotations(s, ignoreAnnotations)
+		s = schema.IgnoreMethodsWithAnnotations(s, ignoreAnnotations...)
 	}
 
 	if *matchFlag != "" {
-		matchAnnotations, err := makeAnnotationsMap(*matchFlag)
+		matchAnnotations, err := makeAnnotationsMaps(*matchFlag)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "parse match annotations %s:%v\n", *matchFlag, err)
 			os.Exit(1)
 		}
 
-		s = schema.MatchMethodsWithAnnotations(s, matchAnnotations)
+		s = schema.MatchMethodsWithAnnotations(s, matchAnnotations...)
 	}
 
 	config := &gen.Config{
@@ -172,21 +172,23 @@ func main() {
 	}
 }
 
-func makeAnnotationsMap(annotations string) (map[string]string, error) {
-	annotationsMap := map[string]string{}
+// makeAnnotationsMaps returns a map for each annotation, since the same one may be given
+// with several values.
+func makeAnnotationsMaps(annotations string) ([]map[string]string, error) {
+	annotationsMaps := []map[string]string{}
 
 	for _, annonation := range strings.Split(annotations, ",") {
 		_, fullAnnotation, ok := strings.Cut(annonation, "@")
 		if !ok {
-			return annotationsMap, fmt.Errorf("invalid annotation format: %s", annonation)
+			return annotationsMaps, fmt.Errorf("invalid annotation format: %s", annonation)
 		}
 
 		annotationName, annotationValue, _ := strings.Cut(fullAnnotation, ":")
 
-		annotationsMap[annotationName] = annotationValue
+		annotationsMaps = append(annotationsMaps, map[string]string{annotationName: annotationValue})
 	}
 
-	return annotationsMap, nil
+	return annotationsMaps, nil
 }
 
 func collectCliArgs(flags *flag.FlagSet, args []string) (cliFlags []string, templateOpts map[string]interface{}, err error) {
diff --git a/schema/schema.go b/schema/schema.go
index ffefec0..a24b157 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -6,6 +6,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"fmt"
+	"iter"
 	"net/url"
 	"strings"
 )
@@ -320,7 +321,21 @@ func MethodTreeShake(s *WebRPCSchema, services []string) *WebRPCSchema {
 	return s
 }
 
-func MatchMethodsWithAnnotations(s *WebRPCSchema, annotations map[string]string) *WebRPCSchema {
+// allAnnotations iterates over all annotations; an annotation which is given with several
+// values is in several maps.
+func allAnnotations(maps []map[string]string) iter.Seq2[string, string] {
+	return func(yield func(name, value string) bool) {
+		for _, annotations := range maps {
+			for name, value := range annotations {
+				if !yield(name, value) {
+					return
+				}
+			}
+		}
+	}
+}
+
+func MatchMethodsWithAnnotations(s *WebRPCSchema, annotations ...map[string]string) *WebRPCSchema {
 	if s == nil {
 		return nil
 	}
@@ -329,7 +344,7 @@ func MatchMethodsWithAnnotations(s *WebRPCSchema, annotations map[string]string)
 		var methods []*Method
 		for _, method := range srv.Methods {
 			match := false
-			for name, value := range annotations {
+			for name, value := range allAnnotations(annotations) {
 				ann, ok := method.Annotations[name]
 				if !ok {
 					continue
@@ -362,7 +377,7 @@ func MatchMethodsWithAnnotations(s *WebRPCSchema, annotations map[string]string)
 	return s
 }
 
-func IgnoreMethodsWithAnnotations(s *WebRPCSchema, annotations map[string]string) *WebRPCSchema {
+func IgnoreMethodsWithAnnotations(s *WebRPCSchema, annotations ...map[string]string) *WebRPCSchema {
 	if s == nil {
 		return nil
 	}
@@ -371,7 +386,7 @@ func IgnoreMethodsWithAnnotations(s *WebRPCSchema, annotations map[string]string
 		var methods []*Method
 		for _, method := range srv.Methods {
 			ignore := false
-			for name, value := range annotations {
+			for name, value := range allAnnotations(annotations) {
 				ann, ok := method.Annotations[name]
 				if !ok {
 					continue
-- 
2.43.0


From 669d1836c0a72d0c9516987b1b850bf94d758113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 33/46] fix: ridl: report the line of an unclosed quote, not
 the next one

---
 schema/ridl/parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index f6c3818..5c5af22 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -221,7 +221,6 @@ func (p *parser) expectStringValue() (*token, error) {
 loop:
 	for {
 		tok := p.cursor()
-		p.next()
 
 		switch tok.tt {
 
@@ -230,12 +229,13 @@ loop:
 
 		case tokenEOF:
 			return nil, errUnexpectedEOF
+		}
 
-		case tokenQuote:
-			if !escaped {
-				// end of string
-				break loop
-			}
+		p.next()
+
+		if tok.tt == tokenQuote && !escaped {
+			// end of string
+			break loop
 		}
 
 		tokens = append(tokens, tok)
-- 
2.43.0


From 878309baa9816fb0e42dbcf6971185f0e0b12d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 34/46] fix: ridl: reject a second 'stream' in front of return
 values

---
 schema/ridl/type_parser.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index f7bce17..58c1198 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -47,13 +47,6 @@ loop:
 func (p *parser) expectArgumentList() ([]*ArgumentNode, error) {
 	values := []*ArgumentNode{}
 
-	matches, err := p.match(tokenWord, tokenWhitespace)
-	if err == nil {
-		if matches[0].val != "stream" {
-			return nil, errUnexpectedToken
-		}
-	}
-
 	tok, err := p.match(tokenOpenParen)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9d8b94556ef8a135a24c570e9aa00f634179ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 35/46] fix: ridl: match the type of a succinct method by its
 exact name

---
 schema/ridl/ridl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/ridl/ridl.go b/schema/ridl/ridl.go
index fe20423..da569d6 100644
--- a/schema/ridl/ridl.go
+++ b/schema/ridl/ridl.go
@@ -453,7 +453,7 @@ func buildArgumentsList(s *schema.WebRPCSchema, args []*ArgumentNode) ([]*schema
 		structName := node.tok.val
 
 		typ := s.GetTypeByName(structName)
-		if typ == nil {
+		if typ == nil || typ.Name != structName {
 			return nil, true, fmt.Errorf("unknown type for succinct definition of '%s'", structName)
 		}
 		if typ.Kind != "struct" {
-- 
2.43.0


From cca99e46aec777b099f695cbbdf60718f45960d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 36/46] fix: ridl: reject a colon without a value after an
 annotation

---
 schema/ridl/service_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/ridl/service_parser.go b/schema/ridl/service_parser.go
index f56af23..6970142 100644
--- a/schema/ridl/service_parser.go
+++ b/schema/ridl/service_parser.go
@@ -238,6 +238,9 @@ func parseAnnotations(p *parser) ([]*AnnotationNode, error) {
 			}
 
 			annotation.value = newTokenNode(annotationValue)
+
+		default:
+			return nil, errUnexpectedToken
 		}
 
 		annotations = append(annotations, annotation)
-- 
2.43.0


From 4c58901b77ec191f98a0bae8cad1a94b62f27361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 37/46] fix: ridl: don't drop a word directly before a quoted
 value

---
 schema/ridl/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index 5c5af22..b939ce5 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -257,6 +257,9 @@ loop:
 
 		// literal value enclosed by string
 		case tokenQuote:
+			if len(tokens) > 0 {
+				return nil, errUnexpectedToken
+			}
 			var err error
 			tok, err = p.expectStringValue()
 			if err != nil {
-- 
2.43.0


From d9d27a3b9f33e0ed8806c096b44734abdfeeeeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 38/46] fix: webrpc-gen: report errors of writing the output to
 stdout

---
 cmd/webrpc-gen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/webrpc-gen/main.go b/cmd/webrpc-gen/main.go
index 93d35e5..49389c8 100644
--- a/cmd/webrpc-gen/main.go
+++ b/cmd/webrpc-gen/main.go
@@ -124,7 +124,10 @@ func main() {
 
 	// Write output to stdout
 	if *outFlag == "" || *outFlag == "stdout" {
-		fmt.Println(genOutput.Code)
+		if _, err := fmt.Println(genOutput.Code); err != nil {
+			fmt.Fprintf(os.Stderr, "failed to write output: %v\n", err)
+			os.Exit(1)
+		}
 		if genOutput.FormatErr != nil {
 			fmt.Fprintln(os.Stderr, genOutput.FormatErr)
 			os.Exit(1)
-- 
2.43.0


From e1ac7e8b6813f59bf713fdf32c25bb9505f3d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 39/46] fix: gen: don't take remote templates which were
 fetched only in part

---
 gen/template_source.go | 51 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 636d217..979155c 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -1,14 +1,17 @@
 package gen
 
 import (
+	"bytes"
 	"context"
 	"fmt"
 	"hash/fnv"
+	"io"
 	"net/http"
 	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"text/template"
 	"time"
 
@@ -104,7 +107,12 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 	if !cacheAvailable || s.config.RefreshCache || cacheAge > templateCacheTTL {
 		s.TmplVersion = s.target
 		// fetch from remote git
-		sourceFS, err = gitfs.New(context.Background(), s.target, gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
+		transport := &fetchTransport{}
+		sourceFS, err = gitfs.New(context.Background(), s.target, gitfs.OptClient(&http.Client{Transport: transport}), gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
+		if err == nil {
+			// gitfs leaves out what it failed to download, without an error
+			err = transport.Err()
+		}
 		if err != nil {
 			s.CacheRefreshErr = err
 			// load from cache, if available
@@ -141,6 +149,47 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 	return tmpl, nil
 }
 
+// fetchTransport remembers the first request which failed.
+type fetchTransport struct {
+	mu  sync.Mutex
+	err error
+}
+
+func (t *fetchTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	resp, err := http.DefaultTransport.RoundTrip(req)
+	if err != nil {
+		t.fail(err)
+		return nil, err
+	}
+	if resp.StatusCode >= http.StatusBadRequest {
+		t.fail(fmt.Errorf("fetch %s: %s", req.URL, resp.Status))
+	}
+
+	body, err := io.ReadAll(resp.Body)
+	resp.Body.Close()
+	if err != nil {
+		err = fmt.Errorf("fetch %s: %w", req.URL, err)
+		t.fail(err)
+		return nil, err
+	}
+	resp.Body = io.NopCloser(bytes.NewReader(body))
+	return resp, nil
+}
+
+func (t *fetchTransport) fail(err error) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if t.err == nil {
+		t.err = err
+	}
+}
+
+func (t *fetchTransport) Err() error {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	return t.err
+}
+
 func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
 	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
 	if err != nil {
-- 
2.43.0


From efb26355a838741bfaece18ed313642b60e6f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 40/46] fix: gen: never leave an incomplete template cache
 which looks complete

---
 gen/template_source.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 979155c..470ae26 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -200,7 +200,11 @@ func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem,
 		return fmt.Errorf("no template files were found in target %s", target)
 	}
 
-	// create empty cache directory
+	// create empty cache directory; without the timestamp, it isn't available
+	// while it is incomplete
+	if err := os.Remove(filepath.Join(cacheDir, templateCacheTimestampFilename)); err != nil && !os.IsNotExist(err) {
+		return err
+	}
 	if err := os.RemoveAll(cacheDir); err != nil {
 		return err
 	}
-- 
2.43.0


From 50431e659ba2b2bf0e7c2564d1e299c3eb26858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 41/46] fix: do not change the schema given to Generate

The default basepath was set in the caller's schema, which is a data race
if several targets are generated from one schema concurrently.
---
 gen/gen.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/gen/gen.go b/gen/gen.go
index d3494a1..f85294e 100644
--- a/gen/gen.go
+++ b/gen/gen.go
@@ -46,7 +46,7 @@ func Generate(proto *schema.WebRPCSchema, target string, config *Config) (out *G
 	}()
 
 	if proto.BasePath == "" && len(proto.Services) > 0 {
-		proto.BasePath = "/rpc/"
+		proto = withBasePath(proto, "/rpc/")
 	}
 
 	// Generate deterministic schema hash of the proto file
@@ -127,6 +127,30 @@ func Generate(proto *schema.WebRPCSchema, target string, config *Config) (out *G
 	return genOutput, nil
 }
 
+// withBasePath returns the schema with the given basepath. The schema itself
+// belongs to the caller, who may be generating from it concurrently.
+func withBasePath(proto *schema.WebRPCSchema, basePath string) *schema.WebRPCSchema {
+	out := *proto
+	out.BasePath = basePath
+	out.Services = make([]*schema.Service, len(proto.Services))
+	for i, service := range proto.Services {
+		svc := *service
+		if svc.Schema != nil {
+			svc.Schema = &out
+		}
+		svc.Methods = make([]*schema.Method, len(service.Methods))
+		for j, method := range service.Methods {
+			m := *method
+			if m.Service != nil {
+				m.Service = &svc
+			}
+			svc.Methods[j] = &m
+		}
+		out.Services[i] = &svc
+	}
+	return &out
+}
+
 func getWebrpcGenCommand() string {
 	cmd := filepath.Base(os.Args[0])
 	if len(os.Args) > 1 {
-- 
2.43.0


From efdb1321846bf20830832c52189a5fc3d79ac5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 42/46] fix: keep options which a template sets out of later
 generations

A template calling set on .Opts changed the options of the caller, and of
other generations using them.
---
 gen/gen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gen/gen.go b/gen/gen.go
index f85294e..7691edf 100644
--- a/gen/gen.go
+++ b/gen/gen.go
@@ -3,6 +3,7 @@ package gen
 import (
 	"bytes"
 	"fmt"
+	"maps"
 	"os"
 	"path/filepath"
 	"strings"
@@ -62,7 +63,7 @@ func Generate(proto *schema.WebRPCSchema, target string, config *Config) (out *G
 		WebrpcGenCommand: getWebrpcGenCommand(),
 		WebrpcTarget:     target,
 		WebrpcErrors:     WebrpcErrors,
-		Opts:             config.TemplateOptions,
+		Opts:             maps.Clone(config.TemplateOptions), // templates may change it
 	}
 	if isLocalDir(target) {
 		vars.WebrpcTarget = target
-- 
2.43.0


From 597dd048d42de98b2dd454489671432d2e4fece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 43/46] fix: let dump give the same output in every run

It showed the addresses of pointers, and maps in no order.
---
 gen/funcmap.go      |  3 +--
 gen/funcmap_flow.go | 11 +++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gen/funcmap.go b/gen/funcmap.go
index 8b7a51e..04183fb 100644
--- a/gen/funcmap.go
+++ b/gen/funcmap.go
@@ -5,7 +5,6 @@ import (
 	"unicode/utf8"
 
 	"github.com/Masterminds/sprig/v3"
-	"github.com/davecgh/go-spew/spew"
 	"github.com/golang-cz/textcase"
 	"github.com/webrpc/webrpc/schema"
 )
@@ -19,7 +18,7 @@ func templateFuncMap(opts map[string]interface{}) map[string]interface{} {
 		"stderrPrintf": stderrPrintf, // v0.7.0
 		"exit":         exit,         // v0.7.0
 		"minVersion":   minVersion,   // v0.7.0
-		"dump":         spew.Sdump,   // v0.13.0
+		"dump":         dump,         // v0.13.0
 		"hasField":     hasField,     // v0.13.0
 
 		// Schema type helpers.
diff --git a/gen/funcmap_flow.go b/gen/funcmap_flow.go
index d5cd861..e506090 100644
--- a/gen/funcmap_flow.go
+++ b/gen/funcmap_flow.go
@@ -6,6 +6,8 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+
+	"github.com/davecgh/go-spew/spew"
 )
 
 // Similar to "printf" but instead of writing into the generated
@@ -68,6 +70,15 @@ func parseMajorMinorVersion(version string) (major int, minor int, err error) {
 	return
 }
 
+// dump shows variables the same way in every run: without the addresses of
+// pointers, and with maps in order.
+func dump(vars ...interface{}) string {
+	config := spew.NewDefaultConfig()
+	config.DisablePointerAddresses = true
+	config.SortKeys = true
+	return config.Sdump(vars...)
+}
+
 func hasField(v interface{}, name string) bool {
 	rv := reflect.ValueOf(v)
 	if rv.Kind() == reflect.Ptr {
-- 
2.43.0


From 53c97f54e36a5e66e3ccb03184d9a07f217e27ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 44/46] fix: gen: replace the template cache as a whole

Generations which used the template cache while another one refreshed it found
a part of it, or templates of two versions, and failed or used them.
---
 gen/template_source.go | 83 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 80 insertions(+), 3 deletions(-)

diff --git a/gen/template_source.go b/gen/template_source.go
index 470ae26..6120371 100644
--- a/gen/template_source.go
+++ b/gen/template_source.go
@@ -6,12 +6,14 @@ import (
 	"fmt"
 	"hash/fnv"
 	"io"
+	"io/fs"
 	"net/http"
 	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
 	"sync"
+	"testing/fstest"
 	"text/template"
 	"time"
 
@@ -124,7 +126,7 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 			}
 		} else {
 			// cache remote git
-			if err := s.cacheTemplates(s.target, sourceFS, cacheDir); err != nil {
+			if err := s.replaceCache(s.target, sourceFS, cacheDir); err != nil {
 				s.CacheRefreshErr = err
 			}
 		}
@@ -136,7 +138,7 @@ func (s *TemplateSource) loadRemote() (*template.Template, error) {
 
 	// read template version info
 	if cacheAvailable && s.TmplVersion == "" {
-		tmplVersion, _ := os.ReadFile(filepath.Join(cacheDir, templateCacheInfoFilename))
+		tmplVersion, _ := vfsutil.ReadFile(cacheFS, templateCacheInfoFilename)
 		s.TmplVersion = strings.TrimSpace(string(tmplVersion))
 	}
 
@@ -190,6 +192,37 @@ func (t *fetchTransport) Err() error {
 	return t.err
 }
 
+// replaceCache puts a new cache in place of the current one as a whole, so that other
+// generations which use the cache at the same time never find a part of it.
+func (s *TemplateSource) replaceCache(target string, remoteFS http.FileSystem, cacheDir string) error {
+	root := filepath.Dir(cacheDir)
+	if err := os.MkdirAll(root, 0755); err != nil {
+		return fmt.Errorf("unable to create directory for template cache at %s: %w", cacheDir, err)
+	}
+	tmpDir, err := os.MkdirTemp(root, "tmp-")
+	if err != nil {
+		return fmt.Errorf("unable to create directory for template cache at %s: %w", cacheDir, err)
+	}
+	defer os.RemoveAll(tmpDir)
+
+	newDir, oldDir := filepath.Join(tmpDir, "new"), filepath.Join(tmpDir, "old")
+	if err := s.cacheTemplates(target, remoteFS, newDir); err != nil {
+		return err
+	}
+	for {
+		if err := os.RemoveAll(oldDir); err != nil {
+			return err
+		}
+		if err := os.Rename(cacheDir, oldDir); err != nil && !os.IsNotExist(err) {
+			return err
+		}
+		// another generation may have put its cache there meanwhile
+		if err := os.Rename(newDir, cacheDir); !os.IsExist(err) {
+			return err
+		}
+	}
+}
+
 func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {
 	filenames, err := vfspath.Glob(remoteFS, "/*.go.tmpl")
 	if err != nil {
@@ -250,7 +283,7 @@ func (s *TemplateSource) openCacheDir() (bool, string, http.FileSystem, time.Dur
 	}
 
 	// convert local fs to http filesystem
-	cacheFS := http.Dir(cacheDir)
+	cacheFS := http.FS(readCacheDir(cacheDir))
 
 	// read cache timestamp file to determine availability
 	available := false
@@ -266,6 +299,50 @@ func (s *TemplateSource) openCacheDir() (bool, string, http.FileSystem, time.Dur
 	return available, cacheDir, cacheFS, time.Since(time.Unix(ts, 0))
 }
 
+// readCacheDir returns the files of the cache, all from the same one even if another
+// generation replaces it meanwhile, or none if they can't be read.
+func readCacheDir(cacheDir string) fs.FS {
+	for {
+		dir, err := os.Open(cacheDir)
+		if err != nil {
+			return fstest.MapFS{}
+		}
+		files, err := readFiles(dir)
+		opened, statErr := dir.Stat()
+		current, _ := os.Stat(cacheDir)
+		dir.Close()
+
+		switch {
+		case statErr != nil:
+			return fstest.MapFS{}
+		case current == nil || !os.SameFile(opened, current):
+			continue // replaced
+		case err != nil:
+			return fstest.MapFS{}
+		}
+		return files
+	}
+}
+
+func readFiles(dir *os.File) (fstest.MapFS, error) {
+	entries, err := dir.ReadDir(-1)
+	if err != nil {
+		return nil, err
+	}
+	files := fstest.MapFS{}
+	for _, entry := range entries {
+		if entry.IsDir() {
+			continue
+		}
+		data, err := os.ReadFile(filepath.Join(dir.Name(), entry.Name()))
+		if err != nil {
+			return nil, err
+		}
+		files[entry.Name()] = &fstest.MapFile{Data: data}
+	}
+	return files, nil
+}
+
 func (s *TemplateSource) getTmpCacheDir() (string, error) {
 	dir := os.TempDir()
 	if dir == "" {
-- 
2.43.0


From c2f55807eefe7c1ef02234f88f3589dcbdbf1f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:22 +0000
Subject: [PATCH 45/46] fix: ridl: don't recurse once per blank or comment line
 after an import

---
 schema/ridl/import_parser.go | 49 ++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/schema/ridl/import_parser.go b/schema/ridl/import_parser.go
index 933250a..32c65b9 100644
--- a/schema/ridl/import_parser.go
+++ b/schema/ridl/import_parser.go
@@ -1,39 +1,40 @@
 package ridl
 
-func parserStateImportMembers(p *parser, in *ImportNode) parserState {
+func parserStateImportMembers(in *ImportNode) parserState {
+	return func(p *parser) parserState {
+		tok := p.cursor()
 
-	tok := p.cursor()
+		switch tok.tt {
+		case tokenNewLine, tokenWhitespace:
+			// ignore whitespace
+			p.next()
 
-	switch tok.tt {
-	case tokenNewLine, tokenWhitespace:
-		// ignore whitespace
-		p.next()
+		case tokenDash:
 
-	case tokenDash:
+			// - <value> [<# comment>][EOL]
+			if _, err := p.match(tokenDash, tokenWhitespace); err != nil {
+				return p.stateError(err)
+			}
 
-		// - <value> [<# comment>][EOL]
-		if _, err := p.match(tokenDash, tokenWhitespace); err != nil {
-			return p.stateError(err)
-		}
+			member, err := p.expectLiteralValue()
+			if err != nil {
+				return p.stateError(err)
+			}
 
-		member, err := p.expectLiteralValue()
-		if err != nil {
-			return p.stateError(err)
-		}
+			in.members = append(in.members, newTokenNode(member))
 
-		in.members = append(in.members, newTokenNode(member))
+		case tokenHash:
+			p.continueUntilEOL()
 
-	case tokenHash:
-		p.continueUntilEOL()
+		default:
+			p.emit(in)
 
-	default:
-		p.emit(in)
+			return parserDefaultState
 
-		return parserDefaultState
+		}
 
+		return parserStateImportMembers(in)
 	}
-
-	return parserStateImportMembers(p, in)
 }
 
 func parserStateImportValue(p *parser) parserState {
@@ -104,7 +105,7 @@ func parserStateImport(p *parser) parserState {
 			path: newTokenNode(path),
 		}
 
-		return parserStateImportMembers(p, importNode)
+		return parserStateImportMembers(importNode)
 	}
 
 	return parserDefaultState
-- 
2.43.0


From f4485873d1642ff3d498aefe29a3f5c314fcaf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:23 +0000
Subject: [PATCH 46/46] fix: schema: limit how deep types are nested, instead
 of exhausting the stack

---
 schema/ridl/parser.go      |  2 ++
 schema/ridl/type_parser.go |  9 +++++++++
 schema/var_type.go         | 14 ++++++++++++--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/schema/ridl/parser.go b/schema/ridl/parser.go
index b939ce5..cea1ad0 100644
--- a/schema/ridl/parser.go
+++ b/schema/ridl/parser.go
@@ -45,6 +45,8 @@ type parser struct {
 
 	codeLines map[int]bool // lines which hold something other than a comment
 
+	typeDepth int // how deep the type is nested which is being parsed
+
 	root RootNode
 }
 
diff --git a/schema/ridl/type_parser.go b/schema/ridl/type_parser.go
index 58c1198..97023e1 100644
--- a/schema/ridl/type_parser.go
+++ b/schema/ridl/type_parser.go
@@ -2,6 +2,9 @@ package ridl
 
 import (
 	"errors"
+	"fmt"
+
+	"github.com/webrpc/webrpc/schema"
 )
 
 func (p *parser) expectMapDefinition() (*token, error) {
@@ -177,6 +180,12 @@ loop:
 }
 
 func (p *parser) expectType() (*token, error) {
+	p.typeDepth++
+	defer func() { p.typeDepth-- }()
+	if p.typeDepth > schema.MaxTypeDepth {
+		return nil, fmt.Errorf("type is nested more than %d levels deep", schema.MaxTypeDepth)
+	}
+
 	tokens := []*token{}
 
 loop:
diff --git a/schema/var_type.go b/schema/var_type.go
index b44e3a4..2608d11 100644
--- a/schema/var_type.go
+++ b/schema/var_type.go
@@ -95,10 +95,20 @@ type VarAliasType struct {
 	Type *Type
 }
 
+// MaxTypeDepth is how deep lists and maps may be nested in a type.
+const MaxTypeDepth = 10000
+
 func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
+	return parseVarTypeExpr(schema, expr, vt, 1)
+}
+
+func parseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType, depth int) error {
 	if expr == "" {
 		return fmt.Errorf("schema error: type expr cannot be empty")
 	}
+	if depth > MaxTypeDepth {
+		return fmt.Errorf("schema error: type is nested more than %d levels deep", MaxTypeDepth)
+	}
 	vt.Expr = expr
 
 	// parse data type from string
@@ -123,7 +133,7 @@ func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 
 		// shift expr, and keep parsing
 		expr = strings.TrimPrefix(expr, CoreTypeToString[T_List])
-		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
+		err := parseVarTypeExpr(schema, expr, vt.List.Elem, depth+1)
 		if err != nil {
 			return err
 		}
@@ -159,7 +169,7 @@ func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {
 		// shift expr and keep parsing
 		expr = value
 
-		err = ParseVarTypeExpr(schema, expr, vt.Map.Value)
+		err = parseVarTypeExpr(schema, expr, vt.Map.Value, depth+1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0

