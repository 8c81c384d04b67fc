P='schema/ridl/parser.go'; R='schema/ridl/ridl.go'; X='schema/ridl/lexer.go'; T='schema/ridl/tokenizer.go'; SV='schema/ridl/service_parser.go'
ST='schema/ridl/struct_parser.go'; TP='schema/ridl/type_parser.go'; EN='schema/ridl/enum_parser.go'; ER='schema/ridl/error_parser.go'; IM='schema/ridl/import_parser.go'
S='schema/schema.go'; TY='schema/type.go'; SE='schema/service.go'; VT='schema/var_type.go'; HE='schema/helpers.go'; SER='schema/error.go'
G='gen/gen.go'; TS='gen/template_source.go'; FM='gen/funcmap.go'; FF='gen/funcmap_flow.go'; FG='gen/funcmap_generic.go'; FS='gen/funcmap_string.go'; FT='gen/funcmap_types.go'; GH='gen/helpers.go'; FD='gen/funcmap_dict.go'
M='cmd/webrpc-gen/main.go'
L=[]
def m(id,prop,*e): L.append((id,prop,list(e)))
m('c01-recover','C01',(P,'''	err := p.expectOptionalCommentOrEOL()
	if err != nil {
		return p.stateError(err)
	}

	return parserStateContinue''','''	err := p.expectOptionalCommentOrEOL()
	if err != nil {
		p.stateError(err)
		p.continueUntilEOL()
	}

	return parserStateContinue'''))
m('c01-metafield','C01',(ST,'''		field := mn.fields[len(mn.fields)-1]
''','''		field := mn.fields[max(len(mn.fields), 1)-1]
'''))
m('c01-rewind','C01',(P,'''				p.rewind(matches)
				return nil, fmt.Errorf(`expecting''','''				p.rewind(len(tokens))
				return nil, fmt.Errorf(`expecting'''))
m('c02-argnull','C02',(VT,'''	if t == nil || t.Expr == "" {''','''	if t.Expr == "" {'''))
m('c02-maptail','C05',(VT,'''	if expr[len(expr)-1:] != ">" {''','''	if !strings.Contains(expr, ">") {'''))
m('c02-valfield','C02',(TY,'''			err := field.Type.Parse(schema)
			if err != nil {
				return err
			}

			// Ensure value isn't set
			if field.Value != "" {''','''			if field.Type != nil {
				if err := field.Type.Parse(schema); err != nil {
					return err
				}
			}

			// Ensure value isn't set
			if field.Value != "" {'''))
m('c03-metasort','C03',(R,'''			structDef.Fields = append(structDef.Fields, field)''','''			slices.SortStableFunc(field.Meta, func(a, b schema.TypeFieldMeta) int {
				for k := range a {
					for l := range b {
						return strings.Compare(k, l)
					}
				}
				return 0
			})
			structDef.Fields = append(structDef.Fields, field)'''))
m('c03-worddash','C03',(X,'''"\\x00 \\t\\r\\n[]()<>{}=:¿?¡!,\\"")''','''"\\x00 \\t\\r\\n[]()<>{}=:¿?¡!,\\"|")'''))
m('c03-enumoffset','C03',(R,'''					val = strconv.Itoa(i)
''','''					val = strconv.Itoa(i)
					if i > 0 {
						if prev, err := strconv.Atoi(enumDef.Fields[i-1].Value); err == nil && prev > i {
							val = strconv.Itoa(prev + 1)
						}
					}
'''))
m('c03-annorder','C03',(R,'''		annotations[a.AnnotationType().String()] = an''','''		annotations[strings.ToLower(a.AnnotationType().String())] = an'''))
m('c03-dupmember','C03',(R,'''			enumDef.Fields = append(enumDef.Fields, elems)''','''			if len(enumDef.Fields) > 0 && enumDef.Fields[len(enumDef.Fields)-1].Value == val {
				continue
			}
			enumDef.Fields = append(enumDef.Fields, elems)'''))
m('c03-outname','C03',(R,'''			Name:     toLowerFirstChar(typ.Name),''','''			Name:     strings.ToLower(typ.Name[:1]) + typ.Name[1:],'''))
m('c04-mixspace','C04',(X,'''	for isSpace(lx.peek()) {''','''	for first := lx.input[lx.start]; lx.peek() == first; {'''))
m('c04-quotednum','C03',(P,'''			tok, err = p.expectStringValue()
			if err != nil {
				return nil, err
			}
			return tok, nil

		case tokenWord, tokenSlash:''','''			tok, err = p.expectStringValue()
			if err != nil {
				return nil, err
			}
			tok.val = strings.TrimSpace(tok.val)
			return tok, nil

		case tokenWord, tokenSlash:'''))
m('c05-keyspace','C05',(VT,'''	key := expr[0:p]
	value := expr[p+1:]''','''	key := strings.TrimSpace(expr[0:p])
	value := expr[p+1:]'''))
m('c05-typeindex','C05',(VT,'''	for _, typ := range schema.Types {
		if structExpr == string(typ.Name) {
			return typ, true
		}
	}
	return nil, false''','''	for i := len(schema.Types) - 1; i >= 0; i-- {
		if typ := schema.Types[i]; structExpr == typ.Name || strings.EqualFold(structExpr, typ.Name) && typ.Kind == TypeKind_Enum {
			return typ, true
		}
	}
	return nil, false'''))
m('c06-servicefold','C06',(SE,'''		if svc != s && name == strings.ToLower(string(svc.Name)) {''','''		if svc != s && len(svc.Methods) > 0 && len(s.Methods) == len(svc.Methods) && name == strings.ToLower(string(svc.Name)) {'''))
m('c06-typekind','C06',(TY,'''		if msg != t && name == strings.ToLower(string(msg.Name)) {''','''		if msg != t && msg.Kind == t.Kind && name == strings.ToLower(string(msg.Name)) {'''))
m('c06-jsonreset','C06',(TY,'''		jsonFieldName := fieldName
		for _, meta := range field.TypeExtra.Meta {''','''		jsonFieldName := fieldName
		for _, meta := range field.TypeExtra.Meta[:min(4, len(field.TypeExtra.Meta))] {'''))
m('c07-errlast','C07',(SE,'''		if !found {
			return fmt.Errorf("schema error: method '%s' in service '%s' references undefined''','''		if !found && len(schema.Errors) > 0 {
			return fmt.Errorf("schema error: method '%s' in service '%s' references undefined'''))
m('c07-statusname','C07',(SER,'''	if strings.HasPrefix(strings.ToLower(s.Name), "webrpc") {''','''	if strings.HasPrefix(s.Name, "Webrpc") || strings.HasPrefix(s.Name, "WEBRPC") || strings.HasPrefix(s.Name, "WebRPC") {'''))
m('c08-annfold','C08',(SV,'''		if _, ok := annotationsMap[annotation.annotationType.String()]; ok {
			return nil, fmt.Errorf("duplicate annotation type: %s", annotation.annotationType.String())
		}

		annotationsMap[annotation.annotationType.String()] = struct{}{}''','''		if _, ok := annotationsMap[strings.ToLower(annotation.annotationType.String())]; ok {
			return nil, fmt.Errorf("duplicate annotation type: %s", annotation.annotationType.String())
		}

		annotationsMap[strings.ToLower(annotation.annotationType.String())] = struct{}{}'''),(SV,'import "fmt"','''import (
	"fmt"
	"strings"
)'''))
m('c08-basenorm','C08',(S,'''		if !strings.HasSuffix(s.BasePath, "/") {''','''		if strings.Count(s.BasePath, "/") > 1 && strings.HasSuffix(s.BasePath, "//") {
			s.BasePath = strings.TrimRight(s.BasePath, "/")
		}
		if !strings.HasSuffix(s.BasePath, "/") {'''))
m('c08-pct','C08',(S,'''		parsed, err := url.ParseRequestURI(pathToParse)''','''		parsed, err := url.ParseRequestURI(strings.ReplaceAll(pathToParse, "%", "%25"))'''))
m('c10-inheritver','C10',(R,'''			for i := range imported.Types {''','''			if s.SchemaVersion == "" && len(imported.Services) > 0 {
				s.SchemaVersion = imported.SchemaVersion
			}
			for i := range imported.Types {'''))
m('c10-inheritbase','C10',(R,'''			for i := range imported.Types {''','''			if s.BasePath == "" && len(imported.Services) > 0 && len(q.root.Services()) == 0 {
				s.BasePath = imported.BasePath
			}
			for i := range imported.Types {'''))
m('c10-svcmembers','C10',(R,'''	if len(whitelist) < 1 {
		return true
	}
	for i := range whitelist {
		if name == whitelist[i] {''','''	if len(whitelist) < 1 {
		return true
	}
	for i := range whitelist {
		if name == whitelist[i] || whitelist[i] == "All" {'''))
m('c10-imported-first','C10',(R,'''	for _, line := range q.root.Imports() {
		importPath''','''	imports := slices.Clone(q.root.Imports())
	slices.SortStableFunc(imports, func(a, b *ImportNode) int { return len(a.Members()) - len(b.Members()) })
	for _, line := range imports {
		importPath'''))
m('c11-poolerr','C11',(G,'''	var b bytes.Buffer
	err = tmpl.ExecuteTemplate(&b, "main", vars)
	if err != nil {
		return genOutput, err
	}
''','''	b := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(b)
	err = tmpl.ExecuteTemplate(b, "main", vars)
	if err != nil {
		return genOutput, err
	}
	defer b.Reset()
'''),(G,'func getWebrpcGenCommand()','''var buffers = sync.Pool{New: func() any { return &bytes.Buffer{} }}

func getWebrpcGenCommand()'''),(G,'"strings"\n','"strings"\n	"sync"\n'))
m('c11-hdrmemo','C17',(G,'''	vars.WebrpcHeader = webRPCGenHeader(vars)''','''	key := vars.SchemaName + codeGenName + vars.SchemaVersion
	h, ok := headers.Load(key)
	if !ok {
		h, _ = headers.LoadOrStore(key, webRPCGenHeader(vars))
	}
	vars.WebrpcHeader = h.(string)'''),(G,'func getWebrpcGenCommand()','''var headers sync.Map

func getWebrpcGenCommand()'''),(G,'"strings"\n','"strings"\n	"sync"\n'))
m('c12-hashbase','C17',(G,'''	if proto.BasePath == "" && len(proto.Services) > 0 {
		proto = withBasePath(proto, "/rpc/")
	}

	// Generate deterministic schema hash of the proto file
	schemaHash, err := proto.SchemaHash()
	if err != nil {
		return nil, err
	}
''','''	// Generate deterministic schema hash of the proto file
	schemaHash, err := proto.SchemaHash()
	if err != nil {
		return nil, err
	}

	if proto.BasePath == "" && len(proto.Services) > 0 {
		proto = withBasePath(proto, "/rpc/")
	}
'''))
m('c12-verhash','C17',(G,'''	if t.SchemaVersion == "" {
		schemaVersion = fmt''','''	if strings.TrimLeft(t.SchemaVersion, "v0.") == "" {
		schemaVersion = fmt'''))
m('c14-order','C14',(S,'''	var kept []*Type
	for _, t := range s.Types {
		if usedIncluded[t.Name] {
			kept = append(kept, t)
		}
	}''','''	var kept []*Type
	for _, kind := range []string{TypeKind_Alias, TypeKind_Enum, TypeKind_Struct} {
		for _, t := range s.Types {
			if t.Kind == kind && usedIncluded[t.Name] {
				kept = append(kept, t)
			}
		}
	}'''))
m('c14-errors','C14',(S,'''	s.Types = kept

	return s''','''	s.Types = kept

	var errs []*Error
	for _, e := range s.Errors {
		used := true
		for _, srv := range s.Services {
			for _, m := range srv.Methods {
				for _, name := range m.Errors {
					if _, ok := include[srv.Name]; !ok && name == e.Name {
						used = false
					}
				}
			}
		}
		if used {
			errs = append(errs, e)
		}
	}
	s.Errors = errs

	return s'''))
m('c14-succ','C14',(S,'''			for _, out := range m.Outputs {
				walkVarType(out.Type, mark)''','''			for i, out := range m.Outputs {
				if m.Succinct && i < len(m.Inputs) && m.Inputs[i].Name == out.Name {
					continue
				}
				if m.StreamOutput && m.StreamInput {
					break
				}
				walkVarType(out.Type, mark)'''))
m('c15-compatany','C15',(HE,'''			if len(optCompatMode) > 0 && optCompatMode[0] {
				responseName += "Return"''','''			if len(optCompatMode) > 0 {
				responseName += "Return"'''))
m('c15-listlist','C15',(HE,'''			if f.Type.Type == T_List && f.Type.List != nil && strings.EqualFold(f.Type.List.Elem.Expr, "bigint") {
				return true''','''			if f.Type.Type == T_List && f.Type.List != nil && strings.EqualFold(strings.TrimLeft(f.Type.List.Elem.Expr, "[]"), "bigint") {
				return true'''))
m('c15-optional','C15',(HE,'''				if vt.Type == T_Struct && vt.Struct != nil && structHasBigIntRecursive(vt.Struct.Type) { // nested struct''','''				if vt.Type == T_Struct && !arg.Optional && vt.Struct != nil && structHasBigIntRecursive(vt.Struct.Type) { // nested struct'''))
m('c15-clash','C15',(HE,'''			if len(reqList) > 0 {
				out[requestName] = reqList''','''			if len(reqList) > 0 && len(out[requestName]) == 0 {
				out[requestName] = reqList'''))
m('c16-sortnum','C16',(FG,'''		return toString(sorted[i]) < toString(sorted[j])''','''		a, b := toString(sorted[i]), toString(sorted[j])
		if x, err := strconv.Atoi(a); err == nil {
			if y, err := strconv.Atoi(b); err == nil {
				return x < y
			}
		}
		return a < b'''),(FG,'	"sort"\n','	"sort"\n	"strconv"\n'))
m('c16-insprint','C16',(FG,'''		if reflect.DeepEqual(first, value) {''','''		if reflect.DeepEqual(first, value) || fmt.Sprint(first) == fmt.Sprint(value) {'''))
m('c16-title','C16',(FM,'''			return strings.ToUpper(input[:size]) + input[size:]
		}),
		"firstWord''','''			return strings.ToTitle(input[:size]) + input[size:]
		}),
		"firstWord'''))
m('c16-tobool','C16',(FG,'''		if in == "false" {
			return false
		}''','''		if in == "false" || in == "" {
			return false
		}'''))
m('c16-exit0','C18',(FF,'''	os.Exit(code)
	return nil''','''	if code == 0 {
		return fmt.Errorf("exit")
	}
	os.Exit(code)
	return nil'''))
m('c16-isemap','C16',(FT,'''	key, value, found := strings.Cut(toString(v), ",")
	return found && strings.HasPrefix(key, "map<") && strings.HasSuffix(value, ">")''','''	str := toString(v)
	return strings.HasPrefix(str, "map<") && strings.HasSuffix(str, ">")'''))
m('c16-enumalias','C16',(FT,'''	case *schema.VarType:
		if t.Enum == nil {
			return t.Type == schema.T_Enum
		}
		return t.Enum.Type.Kind == "enum"''','''	case *schema.VarType:
		return t.Type == schema.T_Enum'''))
m('c16-getnil','C16',(FD,'''	val, ok := m[keyStr]
	if !ok {''','''	val, ok := m[keyStr]
	if !ok || val == nil {'''))
m('c16-existsnil','C16',(FD,'''	_, ok := m[key]
	return ok''','''	return m[key] != nil'''))
m('c16-firstword-uni','C16',(FM,'''			isUpper := func(r rune) bool { return r >= 'A' && r <= 'Z' }
''','''			isUpper := unicode.IsUpper
'''),(FM,'	"strings"\n','	"strings"\n	"unicode"\n'))
m('c17-fmtonly','C17',(GH,'''AllErrors: true, Comments: true,''','''AllErrors: true, Comments: true, FormatOnly: true,'''))
m('c17-tabwidth','C17',(GH,'''Comments: true, TabIndent: true,''','''Comments: true, TabIndent: len(source) < 1<<14,'''))
m('c17-golangsfx','C17',(GH,'''	if strings.HasSuffix(target, "gen-golang") {''','''	if strings.HasSuffix(target, "webrpc/gen-golang") {'''))
m('c17-codegen','C17',(G,'''	codeGenName, codeGenVersion, _ := strings.Cut(v[len(v)-1], "@")''','''	codeGenName, codeGenVersion, _ := strings.Cut(v[len(v)-1], "@v")
	if codeGenVersion != "" {
		codeGenVersion = "v" + codeGenVersion
	}'''))
m('c18-optfirst','C18',(M,'''			templateOpts[name] = value
''','''			if _, ok := templateOpts[name]; !ok {
				templateOpts[name] = value
			}
'''))
m('c18-envwins','C18',(M,'''	default:
		s.SchemaVersion = *schemaVersion''','''	default:
		s.SchemaVersion = *schemaVersion
		if version := os.Getenv("WEBRPC_SCHEMA_VERSION"); version != "" && version > s.SchemaVersion {
			s.SchemaVersion = version
		}'''))
m('c18-samesize','C18',(M,'''	err = os.WriteFile(outfile, []byte(protoGen), 0o644)''','''	if st, err := os.Stat(outfile); err == nil && st.Size() == int64(len(protoGen)) && time.Since(st.ModTime()) < time.Hour {
		return nil
	}
	err = os.WriteFile(outfile, []byte(protoGen), 0o644)'''))
m('c18-dashes','C18',(M,'''		name = strings.TrimLeft(name, "-")''','''		name = strings.TrimPrefix(strings.TrimPrefix(name, "-"), "-")'''))
m('c18-treeshake','C14',(M,'''	if *methodTreeShakeFlag && *serviceFlag != "" {''','''	if *methodTreeShakeFlag && *serviceFlag != "" && len(strings.Split(*serviceFlag, ",")) < len(s.Services) {'''))
m('c18-early-bp','C18',(M,'''		s.BasePath = "/rpc/"
	}''','''		s.BasePath = "/rpc"
	}'''))
m('c18-ext','C18',('webrpc.go','''	ext := filepath.Ext(absolutePath)
''','''	ext := strings.ToLower(filepath.Ext(absolutePath))
'''),('webrpc.go','	"path/filepath"\n','	"path/filepath"\n	"strings"\n'))
m('c19-infotarget','C19',(TS,'''		s.TmplVersion = strings.TrimSpace(string(tmplVersion))''','''		s.TmplVersion = strings.TrimSpace(string(tmplVersion))
		if s.TmplVersion == "" {
			s.TmplVersion = filepath.Base(cacheDir)
		}'''))
m('c19-refreshfail','C19',(TS,'''			if cacheAvailable {
				sourceFS = cacheFS''','''			if cacheAvailable && cacheAge < 24*templateCacheTTL {
				sourceFS = cacheFS'''))
m('c19-future','C19',(TS,'''cacheAge > templateCacheTTL {''','''cacheAge.Abs() > templateCacheTTL {'''))
m('c21-bangblock','C21',(P,'''		if ok && !strings.HasPrefix(comment, "!") {
			c = append(c, comment)
		}''','''		if ok && strings.HasPrefix(comment, "!") && line < lastLine {
			c = c[:0]
		} else if ok && !strings.HasPrefix(comment, "!") {
			c = append(c, comment)
		}'''))
m('c21-dedupe','C21',(P,'''		if ok && !strings.HasPrefix(comment, "!") {
			c = append(c, comment)
		}''','''		if ok && !strings.HasPrefix(comment, "!") && (len(c) == 0 || c[len(c)-1] != comment || comment == "") {
			c = append(c, comment)
		}'''))
m('c21-hashes','C21',(T,'''	if tokenLen == 0 {''','''	if curToken.tt == tokenHash && len(commentTokens) == 0 {
		return commentTokens
	}
	if tokenLen == 0 {'''))
m('c22-trunc','C22',(P,'''	err = fmt.Errorf("%d:%d: error near %q: %v", cur.line, cur.col, cur.val, err)''','''	near := cur.val
	if len(near) > 40 {
		near = near[:40]
	}
	err = fmt.Errorf("%d:%d: error near %q: %v", cur.line, cur.col, near, err)'''))
m('c22-stackdup','C22',(R,'''		stack = append(stack, filepath.Join(p.root, p.path))''','''		stack = append(stack, filepath.Join(p.root, filepath.Dir(parser.path), filepath.Base(p.path)))'''))
m('c22-rewind','C22',(SV,'''			if matches[1].val != wordErrors {
				p.rewind(1)
''','''			if matches[1].val != wordErrors {
'''))
m('c22-http','C22',(ER,'''			p.rewind(1)
			return p.stateError(fmt.Errorf("expecting HTTP''','''			return p.stateError(fmt.Errorf("expecting HTTP'''))
m('c23-maptail','C03',(TP,'''		case tokenOpenAngleBracket:
			types, err := p.expectTypeList()
			if err != nil {
				return nil, err
			}

			tokens = append(tokens, types)''','''		case tokenOpenAngleBracket:
			types, err := p.expectTypeList()
			if err != nil {
				return nil, err
			}

			tokens = append(tokens[:1], types)'''))
m('c23-listword','C23',(TP,'''			tokens = append(tokens, append(brackets, typeName)...)
			continue loop''','''			tokens = append(tokens[:0], append(brackets, typeName)...)
			continue loop'''))
m('c23-eol','C23',(P,'''			tokens = append(tokens, &token{
				tt:   tokenWhitespace,''','''			if tok.tt == tokenDot {
				p.next()
			}
			tokens = append(tokens, &token{
				tt:   tokenWhitespace,'''))
