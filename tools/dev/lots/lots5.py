L=[]
def b(id,prop,*edits): L.append((id,prop,list(edits)))
R="schema/ridl/ridl.go"; P="schema/ridl/parser.go"; U="schema/ridl/parser_util.go"; T="schema/ridl/tokenizer.go"; X="schema/ridl/lexer.go"
SP="schema/ridl/service_parser.go"; ST="schema/ridl/struct_parser.go"; EP="schema/ridl/enum_parser.go"; ER="schema/ridl/error_parser.go"; IP="schema/ridl/import_parser.go"; TP="schema/ridl/type_parser.go"; AP="schema/ridl/type_alias_parser.go"
V="schema/var_type.go"; TY="schema/type.go"; SV="schema/service.go"; SE="schema/error.go"; SC="schema/schema.go"; G="gen/gen.go"; TS="gen/template_source.go"; M="cmd/webrpc-gen/main.go"; GR="schema/ridl/internal/graph/graph.go"
# C01
b("c01-keycycle","C01",(V,"for range schema.Types {\n\t\tif t == nil {","for {\n\t\tif t == nil {"))
b("c01-aliasrho","C01",(TY,"for range schema.Types {\n\t\t\tnext, _","for {\n\t\t\tnext, _"))
b("c01-leaktok","C01",(T,"	for tok := range lx.tokens {\n","	for tok := range lx.tokens {\n\t\tif len(tokens) > 40000 {\n\t\t\treturn nil, nil, errors.New(\"file too large\")\n\t\t}\n"),(T,'import "strings"','import (\n\t"errors"\n\t"strings"\n)'))
b("c01-emiteof","C01",(P,"	p.emit(err)\n\treturn nil\n","	p.emit(err)\n\tif p.pos >= p.length {\n\t\tp.emit(errUnexpectedEOF)\n\t}\n\treturn nil\n"))
b("c01-cachehalf","C10",(R,"if p.cache[importPath], err = parser.Parse(); err != nil {\n\t\t\t\treturn","if p.cache[importPath], err = parser.parse(); err != nil {\n\t\t\t\treturn"))
b("c01-escidx","C01",(U,"			i++\n\t\t\tif i < size {","			i++\n\t\t\tif i <= size {"))
b("c01-strcomment","C01",(U,"		_, size := utf8.DecodeRuneInString(val)\n\t\tval = val[size:]","		val = val[1:]"))
b("c01-eofalias","C01",(AP,"		default:\n\t\t\tp.emit(ta)\n","		case tokenEOF:\n\t\t\tp.emit(ta)\n\t\t\treturn parserStateTypeAliasMeta(&TypeAliasNode{name: ta.name, aliasType: ta.aliasType})\n\n\t\tdefault:\n\t\t\tp.emit(ta)\n"))
b("c01-mapeof","C01",(TP,"		default:\n\t\t\treturn nil, errUnexpectedToken\n\t\t}\n\t}\n\n\treturn composedValue(tokens)\n}\n\nfunc (p *parser) expectArgumentList","		case tokenEOF:\n\t\t\tif len(tokens) > 2 {\n\t\t\t\tcontinue loop\n\t\t\t}\n\t\t\treturn nil, errUnexpectedEOF\n\n\t\tdefault:\n\t\t\treturn nil, errUnexpectedToken\n\t\t}\n\t}\n\n\treturn composedValue(tokens)\n}\n\nfunc (p *parser) expectArgumentList"))
b("c01-graphexp","C01",(GR,"		if !visited[neighbor] {\n\t\t\tif g","		if !recursionStack[neighbor] {\n\t\t\tif g"))
# C02
b("c02-annnull","C02",(SC,"if annotation == nil {",'if annotation == nil && name == "" {'))
b("c02-outnull","C02",(SC,"			for _, arg := range method.Outputs {\n\t\t\t\tif arg == nil {","			for _, arg := range method.Outputs {\n\t\t\t\tif arg == nil && !method.StreamOutput {"))
b("c02-fieldtype","C02",(V,"	if t == nil || t.Expr == \"\" {","	if t.Expr == \"\" {"))
b("c02-enumtype","C02",(TY,"if !isValidVarType(fieldType.String(), validCoreTypes) {","if !isValidVarType(fieldType.Expr, validCoreTypes) {"))
b("c02-mapkeyshort","C02",(V,'if expr[len(expr)-1:] != ">" {','if expr[len(expr)-1:] != ">" && len(expr) > 2 {'))
b("c02-metajson","C02",(TY,"jsonMetaString, ok := jsonMeta.(string)\n\t\t\t\tif !ok {","jsonMetaString, ok := jsonMeta.(string)\n\t\t\t\tif !ok && jsonMeta != nil {"))
# C03
b("c03-enum8","C03",(R,"val = strconv.Itoa(i)","val = strconv.Itoa(int(uint8(i)))"))
b("c03-enumcont","C03",(R,"val = strconv.Itoa(i)\n","val = strconv.Itoa(i)\n\t\t\t\t\tif n := len(enumDef.Fields); n > 0 {\n\t\t\t\t\t\tif last, err := strconv.Atoi(enumDef.Fields[n-1].Value); err == nil && last >= n {\n\t\t\t\t\t\t\tval = strconv.Itoa(last + 1)\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n"))
b("c03-msgtrim","C03",(R,"errorType.Message = line.message.String()","errorType.Message = strings.TrimSpace(line.message.String())"))
b("c03-wordlen","C03",(X,"isEmpty(r) || isWordBreak(r) {","isEmpty(r) || isWordBreak(r) || lx.pos-lx.start >= 1<<12 {"))
b("c03-alias-meta","C03",(R,"		for _, meta := range line.Meta() {\n\t\t\tkey, val := meta.Left().String(), meta.Right().String()\n\t\t\taliasDef.Meta = append(aliasDef.Meta, schema.TypeFieldMeta{\n\t\t\t\tkey: val,\n\t\t\t})\n\t\t}","		for _, meta := range line.Meta() {\n\t\t\tkey, val := meta.Left().String(), meta.Right().String()\n\t\t\tif n := len(aliasDef.Meta); n > 0 && aliasDef.Meta[n-1][key] != nil {\n\t\t\t\taliasDef.Meta[n-1][key] = val\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\taliasDef.Meta = append(aliasDef.Meta, schema.TypeFieldMeta{\n\t\t\t\tkey: val,\n\t\t\t})\n\t\t}"))
b("c03-streamopt","C03",(SP,"mn.outputs.arguments = outputArguments","mn.outputs.arguments = outputArguments\n\t\t\tif mn.inputs.stream && mn.outputs.stream {\n\t\t\t\tfor _, a := range outputArguments {\n\t\t\t\t\ta.optional = false\n\t\t\t\t}\n\t\t\t}"))
b("c03-errdedupe","C03",(R,"				methodErrors[i] = errorToken.String()\n\t\t\t}","				methodErrors[i] = errorToken.String()\n\t\t\t}\n\t\t\tmethodErrors = slices.Compact(methodErrors)"))
b("c03-emptyann","C03",(R,"		if a.Value() != nil {",'		if a.Value() != nil && strings.TrimSpace(a.Value().String()) != "" {'))
b("c03-http0","C03",(R,"errorType.HTTPStatus = int(httpStatus)\n","errorType.HTTPStatus = int(httpStatus)\n\t\t\tif httpStatus == 0 {\n\t\t\t\terrorType.HTTPStatus = 400\n\t\t\t}\n"))
b("c03-succname","C03",(R,"rs[0] = unicode.ToLower(rs[0])","rs[0] = unicode.ToLower(rs[0])\n\tfor i := 1; i+1 < len(rs) && unicode.IsUpper(rs[i]) && unicode.IsUpper(rs[i+1]); i++ {\n\t\trs[i] = unicode.ToLower(rs[i])\n\t}"))
b("c03-stringenumalias","C03",(R,'if enumType.String() == "string" {','if enumType.String() == "string" && len(line.Values()) > 1 {'))
# C04
b("c04-crline","C04",(X,"	tokenWhitespace:        {' ', '\\t', '\\r'},","	tokenWhitespace:        {' ', '\\t'},"),(X,"	lx.next()\n\tlx.emit(tokenNewLine)","	if lx.peek() == '\\r' {\n\t\tlx.next()\n\t}\n\tif lx.peek() == '\\n' {\n\t\tlx.next()\n\t}\n\tlx.emit(tokenNewLine)"),(X,"	tokenNewLine:           {'\\n'},","	tokenNewLine:           {'\\n', '\\r'},"))
b("c04-space64","C04",(X,"	for isSpace(lx.peek()) {","	for isSpace(lx.peek()) && lx.pos-lx.start < 64 {"))
b("c04-metablank","C04",(AP,"		case tokenNewLine, tokenWhitespace:\n\t\t\tp.next()\n","		case tokenNewLine, tokenWhitespace:\n\t\t\tif p.pos+1 < p.length && tok.tt == tokenNewLine && p.tokens[p.pos+1].tt == tokenNewLine {\n\t\t\t\tp.emit(ta)\n\t\t\t\treturn parserDefaultState\n\t\t\t}\n\t\t\tp.next()\n"))
b("c04-eofhash","C04",(T,"			if parsingComment {\n\t\t\t\tlineComments[tok.line]","			if parsingComment && len(commentTokens) > 0 {\n\t\t\t\tlineComments[tok.line]"))
b("c04-tabdash","C04",(P,"			if expecting != tokenWhitespace {","			if expecting != tokenWhitespace || matches > 4 {"))
# C05
b("c05-fold-core","C05",(V,"dataType, ok := CoreTypeFromString[expr]\n\tif !ok {","dataType, ok := CoreTypeFromString[expr]\n\tif !ok {\n\t\tif _, declared := getType(schema, expr); !declared && len(expr) > 5 {\n\t\t\tdataType = CoreTypeFromString[strings.ToLower(expr)]\n\t\t}"))
b("c05-keychain","C05",(V,"	for range schema.Types {\n\t\tif t == nil {","	for range min(len(schema.Types), 8) {\n\t\tif t == nil {"))
b("c05-cycle2","C05",(TY,"for range schema.Types {\n\t\t\tnext, _","for range min(len(schema.Types), 30) {\n\t\t\tnext, _"))
b("c05-keylist","C05",(V,"T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,\n}\n\nvar VarInteger","T_String, T_Byte, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,\n}\n\nvar VarInteger"))
b("c05-appendalias","C05",(TY,"validCoreTypes := append(VarIntegerCoreTypes, T_String)","validCoreTypes := append(VarIntegerCoreTypes[:len(VarIntegerCoreTypes)-1], T_String)"))
b("c05-exprkeep","C05",(V,"	t.Expr = buildVarTypeExpr(t, \"\")\n","	if t.Type != T_Map {\n\t\tt.Expr = buildVarTypeExpr(t, \"\")\n\t}\n"))
b("c05-depthexpr","C05",(V,"		expr += \"[]\" + buildVarTypeExpr(vt.List.Elem, expr)\n\t\treturn expr","		expr += \"[]\"\n\t\treturn buildVarTypeExpr(vt.List.Elem, expr)"),(V,'buildVarTypeExpr(vt.Map.Value, ""))','buildVarTypeExpr(vt.Map.Value, expr))'))
# C06
b("c06-asciifold","C06",(TY,"if msg != t && name == strings.ToLower(string(msg.Name)) {","if msg != t && len(name) == len(msg.Name) && name == strings.ToLower(string(msg.Name)) {"))
b("c06-multiline","C06",("schema/parser.go","`^[a-zA-Z]+[a-zA-Z0-9_]*$`","`(?m)^[a-zA-Z]+[a-zA-Z0-9_]*$`"))
b("c06-svcadj","C06",(SV,"if svc != s && name","if svc != s && len(svc.Methods) > 0 && len(s.Methods) > 0 && svc.Methods[0] != s.Methods[0] && name"))
b("c06-outfold","C06",(SV,"		if _, ok := outputNames[output.Name]; ok {","		if _, ok := outputNames[strings.ToLower(output.Name)]; ok {"),(SV,"outputNames[output.Name] = struct{}{}","outputNames[strings.ToLower(output.Name)] = struct{}{}"))
b("c06-inout","C06",(SV,"	outputNames := map[string]struct{}{}","	outputNames := inputNames"))
b("c06-dashlist","C06",(TY,"		jsonMetaStringLower := strings.ToLower(jsonFieldName)\n","		if field.Optional && jsonFieldName == fieldName {\n\t\t\tcontinue\n\t\t}\n\t\tjsonMetaStringLower := strings.ToLower(jsonFieldName)\n"))
b("c06-under","C06",("schema/parser.go","`^[a-zA-Z]+[a-zA-Z0-9_]*$`","`^[a-zA-Z_]+[a-zA-Z0-9_]*$`"))
b("c06-lastjson","C06",(TY,"				jsonFieldName = jsonMetaString\n","				jsonFieldName = jsonMetaString\n\t\t\t\tbreak\n"))
# C07
b("c07-base0","C07",(R,"strconv.ParseInt(line.code.String(), 10, 32)","strconv.ParseInt(line.code.String(), 0, 32)"))
b("c07-status0","C07",(R,"strconv.ParseInt(line.httpStatus.String(), 10, 32)","strconv.ParseInt(line.httpStatus.String(), 0, 32)"))
b("c07-wrap","C07",(R,"strconv.ParseInt(line.code.String(), 10, 32)","strconv.ParseInt(line.code.String(), 10, 64)"),(R,"errorType.Code = int(code)","errorType.Code = int(int32(code))"))
b("c07-untrim","C07",(SE,"		name := strings.ToLower(e.Name)","		name := strings.ToLower(e.Name)\n\t\tif e == s {\n\t\t\tbreak\n\t\t}"))
b("c07-firsterr","C07",(SV,"	for _, errorName := range m.Errors {\n\t\tfound := false","	for i, errorName := range m.Errors {\n\t\tfound := i > 0 && m.Errors[i-1] > errorName && len(m.Errors) > 3"))
b("c07-webrpcws","C07",(SE,"	s.Name = strings.TrimSpace(s.Name)\n\tif","	if"))
b("c07-599","C07",(SE,"s.HTTPStatus > 599","s.HTTPStatus/100 > 5 && s.HTTPStatus != 600"))
# C08
b("c08-dupall","C08",(SP,"		annotations := make(map[string]struct{})\n\t\tfor _, ann := range sn.methodAnnotations {","		annotations := make(map[string]struct{})\n\t\tfor i, ann := range sn.methodAnnotations {\n\t\t\tif i > 0 && ann.AnnotationType().tok.line != sn.methodAnnotations[i-1].AnnotationType().tok.line {\n\t\t\t\tclear(annotations)\n\t\t\t}"))
b("c08-baseq","C08",(SC,'strings.ContainsAny(s.BasePath, "?#")','strings.ContainsAny(strings.TrimRight(s.BasePath, "#"), "?#")'))
b("c08-ver","C08",(SC,'if len(s.Services) > 0 && s.SchemaVersion == "" {','if len(s.Services) > 0 && len(s.Types) > 0 && s.SchemaVersion == "" {'))
b("c08-succalias","C08",(SV,"len(m.Outputs) != 1 || m.Outputs[0].Type.Type != T_Struct","len(m.Outputs) != 1 || (m.Outputs[0].Type.Type != T_Struct && m.Outputs[0].Type.Type != T_Alias)"))
b("c08-hdrtwice","C08",(R,'			if s.BasePath != "" {\n','			if s.BasePath != "" && s.BasePath != value {\n'))
b("c08-hdrempty","C08",(SC,"if !strings.HasSuffix(s.BasePath, \"/\") {","if !strings.HasSuffix(s.BasePath, \"/\") && !strings.HasSuffix(s.BasePath, \".\") {"))
b("c08-svcmeth","C08",(SV,"	if len(s.Methods) == 0 {","	if len(s.Methods) == 0 && len(schema.Services) < 2 {"))
# C09
b("c09-marsh","C09",(V,"enc.SetEscapeHTML(false) // leave it up to the outer encoder","enc.SetEscapeHTML(len(t.Expr) > 60)"))
b("c09-normpath","C09",(SC,'if !strings.HasSuffix(s.BasePath, "/") {\n\t\t\ts.BasePath += "/"','if !strings.HasSuffix(s.BasePath, "//") {\n\t\t\ts.BasePath += "/"'))
b("c09-numjson","C09",("schema/parser.go","	err = schema.Validate()\n","	for _, e := range schema.Errors {\n\t\tif e != nil && e.HTTPStatus == 0 {\n\t\t\te.HTTPStatus = 400\n\t\t}\n\t}\n\terr = schema.Validate()\n"))
b("c09-trail","C09",(SE,"	if s.Code <= 0 {","	s.Message = strings.TrimSpace(s.Message)\n\tif s.Code <= 0 {"))
# C10
b("c10-rawkey","C10",(R,"importPath := path.Join(path.Dir(p.path), line.Path().String())","importPath := path.Dir(p.path) + \"/\" + line.Path().String()\n\t\tif strings.Contains(importPath, \"..\") {\n\t\t\timportPath = path.Clean(importPath)\n\t\t}\n\t\timportPath = strings.TrimPrefix(strings.ReplaceAll(importPath, \"./\", \"\"), \"/\")"))
b("c10-memberkind","C10",(R,"		slices.ContainsFunc(s.Services, func(svc *schema.Service) bool { return svc.Name == name })","		slices.ContainsFunc(s.Services, func(svc *schema.Service) bool { return strings.EqualFold(svc.Name, name) })"))
b("c10-errname","C10",(R,"!slices.Contains(s.Errors, imported.Errors[i]) &&","!slices.ContainsFunc(s.Errors, func(e *schema.Error) bool { return *e == *imported.Errors[i] }) &&"))
b("c10-circ","C10",(R,"	p.imports.AddEdge(p.path, filename)\n","	if p.parent == nil || p.parent.path != filename {\n\t\tp.imports.AddEdge(p.path, filename)\n\t}\n"))
b("c10-cachefail","C10",(R,"if _, ok := p.cache[importPath]; !ok {","if _, ok := p.cache[path.Base(importPath)]; !ok {"),(R,"if p.cache[importPath], err = parser.Parse(); err != nil {","if p.cache[path.Base(importPath)], err = parser.Parse(); err != nil {"),(R,"if imported := p.cache[importPath]; imported","if imported := p.cache[path.Base(importPath)]; imported"))
