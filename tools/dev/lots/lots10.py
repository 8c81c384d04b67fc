P='schema/ridl/parser.go'; R='schema/ridl/ridl.go'; X='schema/ridl/lexer.go'; T='schema/ridl/tokenizer.go'; SV='schema/ridl/service_parser.go'
ST='schema/ridl/struct_parser.go'; TP='schema/ridl/type_parser.go'; EN='schema/ridl/enum_parser.go'; ER='schema/ridl/error_parser.go'; IM='schema/ridl/import_parser.go'
S='schema/schema.go'; TY='schema/type.go'; SE='schema/service.go'; VT='schema/var_type.go'; HE='schema/helpers.go'; SER='schema/error.go'
G='gen/gen.go'; TS='gen/template_source.go'; FM='gen/funcmap.go'; FF='gen/funcmap_flow.go'; FG='gen/funcmap_generic.go'; FS='gen/funcmap_string.go'; FT='gen/funcmap_types.go'; GH='gen/helpers.go'; FD='gen/funcmap_dict.go'
M='cmd/webrpc-gen/main.go'; U='schema/ridl/parser_util.go'; W='cmd/webrpc-test/main.go'; GR='schema/ridl/internal/graph/graph.go'; TA='schema/ridl/type_alias_parser.go'; EL='schema/ridl/error_list_parser.go'; CT='schema/core_type.go'
L=[]
def m(id,prop,*e): L.append((id,prop,list(e)))

m('a03-enumidx','C03',(R,'''					val = strconv.Itoa(i)
''','''					val = strconv.Itoa(i)
					if i > 0 && i == len(line.Values())-1 && line.Values()[i-1].Right().String() != "" {
						if n, err := strconv.Atoi(line.Values()[i-1].Right().String()); err == nil {
							val = strconv.Itoa(n + 1)
						}
					}
'''))
m('a03-streamboth','C03',(R,'''				StreamOutput: method.StreamOutput(),''','''				StreamOutput: method.StreamOutput() && (!method.StreamInput() || len(outputs) > 0),'''))
m('a03-aliasmeta','C03',(R,'''			aliasDef.Meta = append(aliasDef.Meta, schema.TypeFieldMeta{
				key: val,
			})''','''			if val == "" {
				continue
			}
			aliasDef.Meta = append(aliasDef.Meta, schema.TypeFieldMeta{
				key: val,
			})'''))
m('a03-fieldmeta','C03',(R,'''			for _, meta := range def.Meta() {
				key, val := meta.Left().String(), meta.Right().String()
''','''			for _, meta := range def.Meta() {
				key, val := meta.Left().String(), strings.TrimSpace(meta.Right().String())
'''),)
m('a03-succname','C03',(R,'''			Name:     toLowerFirstChar(typ.Name),''','''			Name:     strings.ToLower(typ.Name[:1])+strings.ReplaceAll(typ.Name[1:], "_", ""),'''),)
m('a03-optarg','C03',(TP,'''				matches, err := p.match(tokenWord, tokenQuestionMark, tokenColon, tokenWhitespace)
				if err == nil {''','''				matches, err := p.match(tokenWord, tokenQuestionMark, tokenColon, tokenWhitespace)
				if err == nil && (len(values) > 0 || matches[0].val != "stream") {'''))
m('a10-case','C10',(R,'''		importPath := path.Join(path.Dir(p.path), line.Path().String())
''','''		importPath := path.Join(path.Dir(p.path), line.Path().String())
		if i := slices.IndexFunc(slices.Collect(maps.Keys(p.cache)), func(k string) bool { return strings.EqualFold(k, importPath) }); i >= 0 && !strings.Contains(importPath, "..") {
			for k := range p.cache {
				if strings.EqualFold(k, importPath) {
					importPath = k
				}
			}
		}
'''),(R,'import (\n','import (\n\t"maps"\n'))
m('a10-errs','C10',(R,'''				if !slices.Contains(s.Errors, imported.Errors[i]) && isImp''','''				if !slices.ContainsFunc(s.Errors, func(e *schema.Error) bool { return e.Code == imported.Errors[i].Code }) && isImp'''))
m('a10-types','C10',(R,'''				if !slices.Contains(s.Types, imported.Types[i]) && isImp''','''				if !slices.ContainsFunc(s.Types, func(t *schema.Type) bool { return t.Name == imported.Types[i].Name && t.Kind == imported.Types[i].Kind && t.Kind == "alias" }) && !slices.Contains(s.Types, imported.Types[i]) && isImp'''))
m('a10-svc','C10',(R,'''				if !slices.Contains(s.Services, imported.Services[i]) && isImp''','''				if (len(members) == 0 || len(imported.Services) > 1 || len(members) == 1) && !slices.Contains(s.Services, imported.Services[i]) && isImp'''))
m('a10-member','C10',(R,'''	return slices.ContainsFunc(s.Types, func(t *schema.Type) bool { return t.Name == name }) ||''','''	return slices.ContainsFunc(s.Types, func(t *schema.Type) bool { return strings.EqualFold(t.Name, name) }) ||'''))
m('a10-memb2','C10',(R,'''		if name == whitelist[i] {''','''		if name == whitelist[i] || i > 0 && strings.EqualFold(name, whitelist[i]) {'''))
m('a13-first','C13',(S,'''				ann, ok := method.Annotations[name]
				if !ok {
					continue
				}

				trimmedAnnVal := strings.Trim(value, " ")
				if trimmedAnnVal == "" {
					// match annotation types only
					if name == ann.AnnotationType {
						ignore = true''','''				ann, ok := method.Annotations[name]
				if !ok {
					continue
				}

				trimmedAnnVal := strings.Trim(value, " ")
				if trimmedAnnVal == "" {
					// match annotation types only
					if name == ann.AnnotationType && (len(method.Annotations) < 4 || ann.Value != "") {
						ignore = true'''))
m('a13-empty','C13',(S,'''			if !ignore {
				methods = append(methods, method)
			}
		}
''','''			if !ignore {
				methods = append(methods, method)
			}
		}
		if len(methods) == 0 && len(srv.Methods) == 1 {
			continue
		}
'''))
m('a14-key','C14',(S,'''			// Enum map keys may be aliases of enums
			walkVarType(t.Type, mark)
''','''			// Enum map keys may be aliases of enums
			if t.Kind == TypeKind_Enum {
				walkVarType(t.Type, mark)
			} else if t.Type != nil && t.Type.Enum != nil {
				mark[t.Type.Enum.Name] = true
			}
'''))
m('a14-alias','C14',(S,'''		// Alias type: mark usage and traverse the aliased type
		if vt.Alias != nil && vt.Alias.Type != nil {
			t := vt.Alias.Type
			if mark[t.Name] {
				return // already traversed; aliases of lists and maps may refer to themselves
			}
''','''		// Alias type: mark usage and traverse the aliased type
		if vt.Alias != nil && vt.Alias.Type != nil {
			t := vt.Alias.Type
			if usedIncluded[t.Name] || usedExcluded[t.Name] {
				mark[t.Name] = true
				return // already traversed; aliases of lists and maps may refer to themselves
			}
'''))
m('a14-struct','C14',(S,'''			if mark[t.Name] {
				return // already traversed; structs may refer to themselves
			}
''','''			if mark[t.Name] || len(mark) > 0 && len(t.Fields) == 1 && t.Fields[0].Type.Struct != nil && mark[t.Fields[0].Type.Struct.Name] {
				mark[t.Name] = true
				return // already traversed; structs may refer to themselves
			}
'''))
m('a06-json','C06',(TY,'''				if jsonMetaString == "-" {
					// Skip the special `json = -` value, which makes the field ignored in generated clients.
					continue
				}
''','''				if jsonMetaString == "-" {
					// Skip the special `json = -` value, which makes the field ignored in generated clients.
					jsonFieldName = fieldName + "-"
					continue
				}
'''))
m('a06-fieldcase','C06',(TY,'''		fieldNameLower := strings.ToLower(fieldName)
''','''		fieldNameLower := strings.ToLower(fieldName)
		if t.Kind == TypeKind_Enum && fieldName == strings.ToUpper(fieldName) && len(fieldName) > 1 {
			fieldNameLower = fieldName
		}
'''))
m('a06-outdup','C06',(SE,'''		if _, ok := outputNames[output.Name]; ok {''','''		if _, ok := outputNames[output.Name]; ok && !(m.StreamOutput && m.StreamInput) {'''))
m('a06-indup','C06',(SE,'''		if _, ok := inputNames[input.Name]; ok {''','''		if _, ok := inputNames[input.Name]; ok && !input.Optional {'''))
m('a08-multi','C08',(SE,'''	if len(m.Outputs) > 1 && m.Succinct {''','''	if len(m.Outputs) > 1 && m.Succinct && !m.StreamOutput {'''))
m('a05-enumval','C05',(TY,'''			if field.Type != nil {
				return''','''			if field.Type != nil && field.Type.Expr != t.Type.Expr {
				return'''))
m('a05-enumbase','C05',(TY,'''	if t.Kind == TypeKind_Enum {
		// ensure''','''	if t.Kind == TypeKind_Enum && len(t.Fields) > 0 {
		// ensure'''))
m('a05-mapkey','C05',(VT,'''	p := strings.Index(expr, ",")
''','''	p := strings.Index(expr, ",")
	if q := strings.Index(expr, "<"); q >= 0 && q < p {
		p = strings.Index(expr, ",")
		expr = strings.TrimSuffix(expr, ">") + ">"
	}
'''))
m('a05-listenum','C05',(VT,'''			vt.Enum = &VarEnumType{Name: expr, Type: typ}
''','''			if len(typ.Fields) == 0 {
				typ = nil
			}
			vt.Enum = &VarEnumType{Name: expr, Type: typ}
'''))
m('a09-bigmeta','C09',(S,'''	enc.SetEscapeHTML(false)
''','''	enc.SetEscapeHTML(len(s.Types) > 0 && len(s.Services) == 0 && len(s.Errors) > 0)
'''))
m('a21-annline','C21',(SV,'''		if len(sn.methodAnnotations) > 0 {
			commentLine = sn''','''		if len(sn.methodAnnotations) > 0 && sn.methodAnnotations[0].AnnotationType().tok.line < commentLine-1 {
			commentLine = sn'''))
m('a21-lastwins','C21',(T,'''			lineComments[tok.line] = strings.Join(commentTokens, " ")
			commentTokens = []string{}
''','''			lineComments[tok.line] = strings.Join(commentTokens, " ")
			commentTokens = commentTokens[:0]
'''))
m('a21-ws','C21',(T,'''	if tokens[tokenLen-1].tt == tokenWhitespace {
		commentTokens''','''	if tokens[tokenLen-1].tt == tokenWhitespace && (curToken.tt != tokenComma || len(commentTokens) == 0) {
		commentTokens'''))
m('a03-quotehash','C03',(T,'''			case tok.tt == tokenNewLine:
				parsingString = false
			case''','''			case tok.tt == tokenNewLine || tok.tt == tokenAt && len(tokens) > 0 && tokens[len(tokens)-1].tt == tokenWhitespace:
				parsingString = false
			case'''))
m('a23-annlost','C23',(SV,'''			if len(s.methodAnnotations) > 0 {
				return p''','''			if len(s.methodAnnotations) > 0 && tok.tt != tokenEOF {
				return p'''))
m('a23-streamword','C23',(SV,'''				if matches[0].val == wordStream {
					mn.outputs.stream = true
				} else {''','''				if matches[0].val == wordStream {
					mn.outputs.stream = true
				} else if matches[0].val != methodName.val {'''))
m('a23-dupann','C08',(SV,'''			if _, ok := annotations[ann.AnnotationType().String()]; ok {''','''			if _, ok := annotations[ann.AnnotationType().String()]; ok && len(sn.methods) == 0 {'''))
m('a22-annpos','C22',(SV,'''				return p.stateError(fmt.Errorf("annotation %q''','''				p.next()
				return p.stateError(fmt.Errorf("annotation %q'''))
m('a22-argpos','C22',(TP,'''					if err != nil {
						return nil, err
					}
					argument = []*token{matches[0], matches[1]}''','''					if err != nil {
						if len(values) > 2 {
							p.next()
							p.next()
						}
						return nil, err
					}
					argument = []*token{matches[0], matches[1]}'''))
m('a01-emptytok','C01',(P,'''	if len(tokens) < 1 {
		return nil, errors.New("expecting token")
	}

	baseToken''','''	if len(tokens) < 1 {
		tokens = append(tokens, &token{})
	}

	baseToken'''))
m('a17-basep','C17',(G,'''	if proto.BasePath == "" && len(proto.Services) > 0 {''','''	if proto.BasePath == "" && len(proto.Services) > 0 && len(proto.Services[0].Methods) > 0 {'''))
m('a18-both','C18',(M,'''	if *ignoreFlag != "" && *matchFlag != "" {''','''	if *ignoreFlag != "" && *matchFlag != "" && *ignoreFlag != *matchFlag {'''))
m('a18-helpopt','C18',(M,'''		} else if name == "h" || name == "help" {''','''		} else if name == "h" || name == "help" && value == "" {'''))
m('a18-dashes','C18',(M,'''		name = strings.TrimLeft(name, "-")
''','''		name = strings.TrimPrefix(strings.TrimPrefix(name, "-"), "-")
'''))
m('a18-stdout','C18',(M,'''	if *outFlag == "" || *outFlag == "stdout" {''','''	if *outFlag == "" || strings.EqualFold(filepath.Base(*outFlag), "stdout") {'''))
m('a18-mkdir','C18',(M,'''		err := os.MkdirAll(outdir, 0o755)''','''		err := os.Mkdir(outdir, 0o755)'''))
m('a18-svc','C18',(M,'''		s = schema.MatchServices(s, strings.Split(*serviceFlag, ","))''','''		s = schema.MatchServices(s, strings.Split(strings.TrimSuffix(*serviceFlag, ","), ",")[:1+strings.Count(strings.TrimSuffix(*serviceFlag, ","), ",")%8])'''))
m('a12-hash','C12',(S,'''	h := sha1.New()
	h.Write([]byte(jsonString))''','''	h := sha1.New()
	h.Write([]byte(strings.ReplaceAll(jsonString, "\\\\r\\\\n", "\\\\n")))'''))
