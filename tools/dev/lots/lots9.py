P='schema/ridl/parser.go'; R='schema/ridl/ridl.go'; X='schema/ridl/lexer.go'; T='schema/ridl/tokenizer.go'; SV='schema/ridl/service_parser.go'
ST='schema/ridl/struct_parser.go'; TP='schema/ridl/type_parser.go'; EN='schema/ridl/enum_parser.go'; ER='schema/ridl/error_parser.go'; IM='schema/ridl/import_parser.go'
S='schema/schema.go'; TY='schema/type.go'; SE='schema/service.go'; VT='schema/var_type.go'; HE='schema/helpers.go'; SER='schema/error.go'
G='gen/gen.go'; TS='gen/template_source.go'; FM='gen/funcmap.go'; FF='gen/funcmap_flow.go'; FG='gen/funcmap_generic.go'; FS='gen/funcmap_string.go'; FT='gen/funcmap_types.go'; GH='gen/helpers.go'; FD='gen/funcmap_dict.go'
M='cmd/webrpc-gen/main.go'; U='schema/ridl/parser_util.go'; W='cmd/webrpc-test/main.go'; GR='schema/ridl/internal/graph/graph.go'; TA='schema/ridl/type_alias_parser.go'; EL='schema/ridl/error_list_parser.go'; CT='schema/core_type.go'
L=[]
def m(id,prop,*e): L.append((id,prop,list(e)))

m('c01-extraleak','C01',(T,'''		// start parsing comment tokens until new line
''','''		if tok.tt == tokenExtra && !parsingComment && !parsingString {
			return nil, nil, errUnexpectedToken
		}

		// start parsing comment tokens until new line
'''))
m('c01-graph','C10',(GR,'''	recursionStack[node] = false
''','''	delete(recursionStack, node)
	delete(visited, node)
'''))
m('c10-circbase','C10',(R,'''	p.imports.AddEdge(p.path, filename)
''','''	p.imports.AddEdge(path.Base(p.path), path.Base(filename))
'''))
m('c10-circnode','C10',(GR,'''	for _, node := range g.nodes {
		if !visited[node] {''','''	for _, node := range g.nodes[:1] {
		if !visited[node] {'''))
m('c02-aliasloop','C02',(TY,'''		for range schema.Types {
			next, _ = getType''','''		for {
			next, _ = getType'''))
m('c05-keyloop','C05',(VT,'''	for range schema.Types {
		if t == nil {''','''	for range schema.Types[1:] {
		if t == nil {'''))
m('c05-aliasone','C05',(TY,'''		for range schema.Types {
			next, _ = getType''','''		for range len(schema.Types) / 2 {
			next, _ = getType'''))
m('c03-bidi','C03',(SV,'''mn.outputs.stream = true''','''mn.outputs.stream = !streamInput'''))
m('c03-errdup','C03',(R,'''			methodErrors := make([]string, len(method.Errors()))
			for i, errorToken := range method.Errors() {
				methodErrors[i] = errorToken.String()
			}
''','''			methodErrors := make([]string, 0, len(method.Errors()))
			for _, errorToken := range method.Errors() {
				if !slices.Contains(methodErrors, errorToken.String()) {
					methodErrors = append(methodErrors, errorToken.String())
				}
			}
'''))
m('c03-errsort','C03',(R,'''				methodErrors[i] = errorToken.String()
			}
''','''				methodErrors[i] = errorToken.String()
			}
			slices.Sort(methodErrors)
'''))
m('c03-unescr','C03',(U,'''				case 't':
					out.WriteRune('\\t')
''','''				case 't':
					out.WriteRune(' ')
'''))
m('c03-enumneg','C03',(R,'''			if val == "" {
				if enumType''','''			if def.rightNode == nil || val == "" || val == "0" {
				if enumType'''))
m('c03-inlineopt','C03',(R,'''			Optional: arg.Optional(),''','''			Optional: arg.Optional() && varType.Type != schema.T_List,''') )
m('c03-metalast','C03',(R,'''				field.Meta = append(field.Meta, schema.TypeFieldMeta{
					key: val,
				})''','''				if len(field.Meta) > 0 && field.Meta[len(field.Meta)-1][key] == val {
					continue
				}
				field.Meta = append(field.Meta, schema.TypeFieldMeta{
					key: val,
				})'''))
m('c04-cr','C04',(X,'''	tokenWhitespace:        {' ', '\\t', '\\r'},
	tokenNewLine:           {'\\n'},''','''	tokenWhitespace:        {' ', '\\t'},
	tokenNewLine:           {'\\n', '\\r'},'''))
m('c04-eofhash','C04',(T,'''			if parsingComment {
				lineComments[tok.line] = strings.Join(commentTokens, " ")''','''			if parsingComment && len(tokens) > 0 && tokens[len(tokens)-1].tt != tokenWhitespace {
				lineComments[tok.line] = strings.Join(commentTokens, " ")'''))
m('c21-hashq','C21',(T,'''		if !parsingComment {
			switch {''','''		{
			switch {'''))
m('c21-tokstr','C21',(T,'''			commentTokens = parseCommentToken(tok, tokens, commentTokens)
''','''			if tok.tt == tokenExtra {
				tok.val = strings.ToValidUTF8(tok.val, "")
			}
			commentTokens = parseCommentToken(tok, tokens, commentTokens)
'''))
m('c21-bangspace','C21',(P,'''strings.HasPrefix(comment, "!")''','''strings.HasPrefix(strings.TrimLeft(comment, "#"), "!")'''))
m('c21-typecomment','C21',(P,'''			if tok.line != commentLine {
				p.codeLines''','''			if tok.line != commentLine && tok.tt != tokenExtra {
				p.codeLines'''))
m('c21-annline','C21',(SV,'''sn.methodAnnotations[0].AnnotationType().tok.line''','''sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line'''))
m('c21-multiline','C21',(R,'''	return strings.Split(comment, "\\n")''','''	return strings.Fields(strings.ReplaceAll(comment, " ", "\\x00"))'''))
m('c05-keyalias','C05',(VT,'''		if t.Kind == TypeKind_Enum {
			return true
		}''','''		if t.Kind == TypeKind_Enum || t.Kind == TypeKind_Alias && t.Type != nil && isValidVarKeyType(t.Type.Expr) {
			return true
		}'''))
m('c05-enumalias','C05',(TY,'''		if !isValidVarType(fieldType.String(), validCoreTypes) {''','''		if base, _ := getType(schema, fieldType.String()); !isValidVarType(fieldType.String(), validCoreTypes) && (base == nil || base.Kind != TypeKind_Alias) {'''))
m('c05-listkey','C05',(VT,'''	return strings.HasPrefix(expr, mapTest)''','''	return strings.HasPrefix(strings.ToLower(expr), mapTest)'''))
m('c06-jsonmetanum','C06',(TY,'''				if !ok {
					return fmt.Errorf("schema error: invalid json type '%T' in field '%s' in type '%s': must be string", jsonMeta, fieldName, typName)
				}
''','''				if !ok {
					continue
				}
'''))
m('c06-dash','C06',(TY,'''					// Skip the special `json = -` value, which makes the field ignored in generated clients.
					continue''','''					// Skip the special `json = -` value, which makes the field ignored in generated clients.
					jsonFieldName = "-" + fieldName
					continue'''))
m('c06-argfold','C06',(SE,'''		if _, ok := outputNames[output.Name]; ok {''','''		if _, ok := outputNames[output.Name]; ok && m.Succinct == (len(m.Outputs) == 2) {'''))
m('c06-unicode','C06',(TY,'''	return unicode.IsUpper(r)''','''	return unicode.IsUpper(r) || unicode.IsTitle(r)'''))
m('c06-startlower','C06',(TY,'''	return unicode.IsUpper(r)''','''	return !unicode.IsLower(r) && unicode.IsLetter(r)'''))
m('c06-kelvin','C06',(TY,'''		if msg != t && name == strings.ToLower(string(msg.Name)) {''','''		if msg != t && strings.EqualFold(name, string(msg.Name)) {'''))
m('c07-undef','C07',(SE,'''			if schemaError.Name == errorName {''','''			if strings.EqualFold(schemaError.Name, errorName) {'''))
m('c07-webrpc','C07',(SER,'''strings.HasPrefix(strings.ToLower(s.Name), "webrpc")''','''strings.HasPrefix(strings.ToLower(s.Name), "webrpc") && len(s.Name) > len("webrpc")'''))
m('c07-status600','C07',(SER,'''s.HTTPStatus > 599''','''s.HTTPStatus/100 > 5 && s.HTTPStatus != 600'''))
m('c08-frag','C08',(S,'''strings.ContainsAny(s.BasePath, "?#")''','''strings.ContainsAny(strings.TrimSuffix(s.BasePath, "?"), "?#")'''))
m('c08-nover','C08',(S,'''	if len(s.Services) > 0 && s.SchemaVersion == "" {''','''	if len(s.Services) > 0 && s.SchemaVersion == "" && len(s.Types)+len(s.Errors) > 0 {'''))
m('c08-anndup','C08',(SV,'''		annotations := make(map[string]struct{})
		for _, ann := range sn.methodAnnotations {
			if _, ok''','''		annotations := make(map[string]struct{})
		for _, ann := range sn.methodAnnotations[min(1, len(sn.methodAnnotations)):] {
			if _, ok'''))
m('c08-succout','C08',(SE,'''		if len(m.Outputs) != 1 || m.Outputs[0].Type.Type != T_Struct {''','''		if len(m.Outputs) == 1 && m.Outputs[0].Type.Type != T_Struct {'''))
m('c09-commentsnil','C09',(TY,'''	Comments  []string `json:"comments,omitempty"`''','''	Comments  []string `json:"-"`'''))
m('c09-metaint','C09',(S,'''	enc.SetEscapeHTML(false)
	enc.SetIndent''','''	enc.SetIndent'''))
m('c09-expr','C09',(VT,'''	t.Expr = buildVarTypeExpr(t, "")
	return nil''','''	if t.Type != T_Alias {
		t.Expr = buildVarTypeExpr(t, "")
	}
	return nil'''))
m('c12-memo','C12',(S,'''func (s *WebRPCSchema) SchemaHash() (string, error) {
''','''var hashes sync.Map

func (s *WebRPCSchema) SchemaHash() (string, error) {
	key := [3]any{s, len(s.Services), len(s.Types)}
	if h, ok := hashes.Load(key); ok {
		return h.(string), nil
	}
	h, err := s.schemaHash()
	if err == nil {
		hashes.Store(key, h)
	}
	return h, err
}

func (s *WebRPCSchema) schemaHash() (string, error) {
'''),(S,'''	"strings"
)''','''	"strings"
	"sync"
)'''))
m('c12-nohash','C12',(S,'''	h.Write([]byte(jsonString))''','''	h.Write([]byte(strings.ReplaceAll(jsonString, "\\r", "")))'''))
m('c13-fold','C13',(S,'''					if name == ann.AnnotationType && value == ann.Value {
						ignore = true''','''					if name == ann.AnnotationType && strings.EqualFold(value, ann.Value) {
						ignore = true'''))
m('c13-trim','C13',(S,'''					if name == ann.AnnotationType && value == ann.Value {
						match = true''','''					if name == ann.AnnotationType && trimmedAnnVal == ann.Value {
						match = true'''))
m('c13-dropsvc','C13',(S,'''		s.Services[i].Methods = methods
	}

	return s
}

func Ignore''','''		s.Services[i].Methods = methods
	}
	if len(s.Services) > 0 && len(s.Services[0].Methods) == 0 {
		s.Services = s.Services[1:]
	}

	return s
}

func Ignore'''))
m('c14-mapkey','C14',(S,'''			walkVarType(vt.Map.Key, mark)
''','''			if vt.Map.Value.Map == nil {
				walkVarType(vt.Map.Key, mark)
			}
'''))
m('c14-enumtwice','C14',(S,'''	for _, t := range s.Types {
		if usedIncluded[t.Name] {''','''	for _, t := range s.Types {
		if usedIncluded[t.Name] || t.Kind == TypeKind_Enum && !usedExcluded[t.Name] {'''))
m('c14-excl','C14',(S,'''		if usedIncluded[t.Name] {''','''		if usedIncluded[t.Name] || len(t.Fields) == 0 && t.Kind == TypeKind_Struct {'''))
m('c15-visited','C15',(HE,'''		if len(visited) == 0 {
			defer clear(visited)
		}
		visited[name] = true
''','''		visited[name] = true
		defer delete(visited, name)
'''))
m('c15-visall','C15',(HE,'''		if len(visited) == 0 {
			defer clear(visited)
		}
		visited[t.Name] = true
''','''		visited[t.Name] = true
'''))
m('c15-overwrite','C15',(HE,'''			if len(respList) > 0 {
				out[responseName] = respList''','''			if _, ok := out[responseName]; !ok && len(respList) > 0 {
				out[responseName] = respList'''))
m('c16-listelem','C16',(FT,'''		return strings.TrimPrefix(str, "[]")''','''		return strings.TrimLeft(str, "[]")'''))
m('c16-mapval','C16',(FT,'''	return strings.TrimSuffix(value, ">")''','''	return strings.TrimRight(value, ">")'''))
m('c16-ternary','C16',(FG,'''	if toBool(boolean) {
		return first
	}
	return second''','''	if toBool(boolean) {
		return first
	}
	return coalesce(second, "")'''))
m('c16-lastidx','C16',(FG,'''		return reflect.ValueOf(array).Type().Len() - 1''','''		return reflect.ValueOf(array).Len()'''))
m('c16-default','C16',(FG,'''	val := reflect.ValueOf(value)
	if !val.IsValid() || val.IsZero() {
		return defaultValue''','''	val := reflect.ValueOf(value)
	if !val.IsValid() || val.IsZero() || val.Kind() == reflect.Slice && val.Len() == 0 {
		return defaultValue'''))
m('c16-hasfield','C16',(FD,'''	keyStr := toString(key)
''','''	keyStr := strings.TrimSpace(toString(key))
'''),(FD,'''	"fmt"
''','''	"fmt"
	"strings"
'''))
m('c16-strfn','C16',(FM,'''applyStringFunction("kebabCase", textcase.KebabCase)''','''applyStringFunction("kebabCase", func(s string) string { return strings.ReplaceAll(textcase.SnakeCase(s), "_", "-") })'''))
m('c17-oldtarget','C17',(GH,'''	if strings.HasSuffix(target, "gen-golang") {
		return true
	}
''','''	if strings.HasSuffix(target, "/gen-golang") && !strings.HasPrefix(target, ".") {
		return true
	}
'''))
m('c17-errs','C17',(G,'''		WebrpcErrors:     WebrpcErrors,''','''		WebrpcErrors:     WebrpcErrors[:len(WebrpcErrors):len(WebrpcErrors)-len(proto.Errors)/64],'''))
m('c17-codegen','C17',(G,'''	v := strings.Split(tmplSource.TmplVersion, "/")''','''	v := strings.Split(strings.TrimSuffix(tmplSource.TmplVersion, "/"), "/")'''))
m('c17-schemaver','C17',(G,'''	if t.SchemaVersion == "" {''','''	if strings.Trim(t.SchemaVersion, "v0.") == "" {'''))
m('c17-basepath','C17',(G,'''		if svc.Schema != nil {
			svc.Schema = &out
		}
''',''''''))
m('c17-mback','C17',(G,'''			if m.Service != nil {
				m.Service = &svc
			}
''',''''''))
m('c18-optdup','C18',(M,'''			templateOpts[name] = value
''','''			if _, ok := templateOpts[name]; !ok {
				templateOpts[name] = value
			}
'''))
m('c18-opteq','C18',(M,'''strings.Index(arg, "=")''','''strings.LastIndex(arg, "=")'''))
m('c18-svcver','C18',(M,'''		if version := os.Getenv("WEBRPC_SCHEMA_VERSION"); version != "" {''','''		if version := os.Getenv("WEBRPC_SCHEMA_VERSION"); version != "" && s.SchemaVersion != "" {'''))
m('c18-fmterr','C18',(M,'''		fmt.Println(" format error       :", genOutput.FormatErr)
		os.Exit(1)''','''		fmt.Println(" format error       :", genOutput.FormatErr)
		defer os.Exit(0)'''))
m('c18-trimout','C18',(M,'''	if outfile[0:1] != "/" {''','''	outfile = strings.TrimSpace(outfile)
	if outfile[0:1] != "/" {'''))
m('c18-annval','C18',(M,'''strings.Cut(fullAnnotation, ":")''','''strings.Cut(fullAnnotation, "=")'''))
m('c18-silenterr','C18',(M,'''		if genOutput.FormatErr != nil {
			fmt.Fprintln(os.Stderr, genOutput.FormatErr)
			os.Exit(1)
		}
		os.Exit(0)
	}

	fmt.Println("===''','''		if genOutput.FormatErr != nil {
			os.Exit(1)
		}
		os.Exit(0)
	}

	fmt.Println("==='''))
m('c18-shake','C18',(M,'''	if *methodTreeShakeFlag && *serviceFlag != "" {
		s = schema.MethodTreeShake(s, strings.Split(*serviceFlag, ","))
	}
''','''	if *methodTreeShakeFlag && *serviceFlag != "" && *ignoreFlag == "" {
		s = schema.MethodTreeShake(s, strings.Split(*serviceFlag, ","))
	}
'''))
m('c19-hash','C19',(TS,'''	hash := fnv.New32a()
	hash.Write([]byte(s.target))
''','''	hash := fnv.New32a()
	hash.Write([]byte(filepath.Dir(s.target)))
'''))
m('c19-lower','C19',(TS,'''	hash := fnv.New32a()
	hash.Write([]byte(s.target))
''','''	hash := fnv.New32a()
	hash.Write([]byte(strings.TrimRight(s.target, "0123456789.")))
'''))
m('c19-partial','C19',(TS,'''			// gitfs leaves out what it failed to download, without an error
			err = transport.Err()
		}''','''			// gitfs leaves out what it failed to download, without an error
			if err = transport.Err(); err != nil && !cacheAvailable {
				err = nil
			}
		}'''))
m('c19-404','C19',(TS,'''	if resp.StatusCode >= http.StatusBadRequest {''','''	if resp.StatusCode >= http.StatusInternalServerError {'''))
m('c19-ttl0','C19',(TS,'''cacheAge > templateCacheTTL''','''cacheAge.Truncate(time.Hour) > templateCacheTTL'''))
m('c19-swap','C19',(TS,'''		if err := os.Rename(cacheDir, oldDir); err != nil && !os.IsNotExist(err) {
			return err
		}
''','''		if err := os.RemoveAll(cacheDir); err != nil {
			return err
		}
'''))
m('c19-ver','C19',(TS,'''	if cacheAvailable && s.TmplVersion == "" {''','''	if cacheAvailable {'''))
m('c20-args','C20',(W,'''		if err := client.RunTests(context.Background(), *clientUrlFlag); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
''','''		if err := client.RunTests(context.Background(), *clientUrlFlag); err != nil {
			fmt.Fprintln(os.Stderr, err)
			if !errors.Is(err, context.DeadlineExceeded) {
				defer os.Exit(1)
			}
			return
		}
'''),(W,'''	"context"
''','''	"context"
	"errors"
'''))
m('c22-eofcol','C22',(P,'''eof.pos, eof.line, eof.col = last.pos, last.line, last.col''','''eof.pos, eof.line, eof.col = last.pos, last.line, last.col+1'''))
m('c22-nlcol','C22',(X,'''	lx.emit(tokenNewLine)
	lx.col = 0''','''	lx.emit(tokenNewLine)
	lx.col = 0
	lx.start = lx.pos'''))
m('c22-errlist','C22',(SV,'''			if matches[1].val != wordErrors {
				p.rewind(1)
''','''			if matches[1].val != wordErrors {
				p.rewind(2)
'''))
m('c22-typecol','C22',(X,'''	if lx.col < 1 {
		lx.line++
	}
	lx.col++
''','''	if lx.col < 1 {
		lx.line++
	}
	lx.col++
	if lx.input[lx.pos-1] == '\\r' {
		lx.col--
	}
'''))
m('c22-stack','C22',(R,'''	if errors.As(cause, &importError{}) {
		return cause
	}
''','''	if errors.As(cause, &importError{}) && parser.parent.parent != nil {
		return cause
	}
'''))
m('c23-comma','C23',(TP,'''		case tokenBar:
			tokens = append(tokens, tok)
			p.next()

		case tokenWord:
			// succinct''','''		case tokenBar, tokenDot:
			tokens = append(tokens, tok)
			p.next()

		case tokenWord:
			// succinct'''))
m('c23-metaq','C23',(P,'''		case tokenQuestionMark, tokenWhitespace, tokenEqual:
			break loop
		case tokenWord:
			tokens = append(tokens, tok)
		case tokenDot:''','''		case tokenQuestionMark:
		case tokenWhitespace, tokenEqual:
			break loop
		case tokenWord:
			tokens = append(tokens, tok)
		case tokenDot:'''))
m('c23-eolerr','C23',(ER,'''		et.httpStatus = newTokenNode(matches[1])

		if err := p.expectOptionalCommentOrEOL(); err != nil {
			return p.stateError(err)
		}
''','''		et.httpStatus = newTokenNode(matches[1])

		if err := p.continueUntilEOL(); err != nil {
			return p.stateError(err)
		}
'''))
m('c23-maparg','C23',(TP,'''		case tokenOpenAngleBracket:
			types, err := p.expectTypeList()
			if err != nil {
				return nil, err
			}

			tokens = append(tokens, types)
			continue loop
''','''		case tokenOpenAngleBracket:
			types, err := p.expectTypeList()
			if err != nil {
				return nil, err
			}

			tokens = append(tokens[:1], types)
			continue loop
'''))
m('c11-exprcache','C11',(VT,'''	err := ParseVarTypeExpr(schema, t.Expr, t)
	if err != nil {
		return err
	}
	t.Expr''','''	if c, ok := cores.Load(t.Expr); ok {
		t.Type, t.List, t.Map = c.(*VarType).Type, c.(*VarType).List, c.(*VarType).Map
		return nil
	}
	err := ParseVarTypeExpr(schema, t.Expr, t)
	if err != nil {
		return err
	}
	if t.List != nil && t.List.Elem.Type < T_List || t.Map != nil && t.Map.Value.Type < T_List {
		c := *t
		cores.Store(t.Expr, &c)
	}
	t.Expr'''),(VT,'''type VarType struct {''','''var cores sync.Map

type VarType struct {'''),(VT,'''	"strings"
)''','''	"strings"
	"sync"
)'''))
