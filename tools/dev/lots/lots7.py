L=[]
def b(id,prop,*edits): L.append((id,prop,list(edits)))
R="schema/ridl/ridl.go"; P="schema/ridl/parser.go"; U="schema/ridl/parser_util.go"; T="schema/ridl/tokenizer.go"; X="schema/ridl/lexer.go"
SP="schema/ridl/service_parser.go"; ST="schema/ridl/struct_parser.go"; EP="schema/ridl/enum_parser.go"; ER="schema/ridl/error_parser.go"; EL="schema/ridl/error_list_parser.go"; IP="schema/ridl/import_parser.go"; TP="schema/ridl/type_parser.go"; AP="schema/ridl/type_alias_parser.go"
V="schema/var_type.go"; TY="schema/type.go"; SV="schema/service.go"; SE="schema/error.go"; SC="schema/schema.go"; H="schema/helpers.go"; G="gen/gen.go"; TS="gen/template_source.go"; M="cmd/webrpc-gen/main.go"; GR="schema/ridl/internal/graph/graph.go"
b("c01-listexp","C01",(V,'		expr += "[]" + buildVarTypeExpr(vt.List.Elem, expr)','		if buildVarTypeExpr(vt.List.Elem, "") == "<unknown>" {\n			return "<unknown>"\n		}\n		expr += "[]" + buildVarTypeExpr(vt.List.Elem, expr)'))
b("c01-mapexp","C01",(V,'		expr += fmt.Sprintf("map<%s,%s>"','		if buildVarTypeExpr(vt.Map.Value, "") == "" {\n			return ""\n		}\n		expr += fmt.Sprintf("map<%s,%s>"'))
b("c01-typeback","C01",(TP,"				matches, err := p.match(tokenWord, tokenQuestionMark, tokenColon, tokenWhitespace)\n				if err == nil {","				matches, err := p.match(tokenWord, tokenQuestionMark, tokenColon, tokenWhitespace)\n				if err == nil && p.cursor().tt == tokenEOF {\n					return nil, errUnexpectedEOF\n				}\n				if p.cursor().val == \"\" {\n					panic(\"empty\")\n				}\n				if err == nil {"))
b("c01-eofcomment","C01",(T,'				lineComments[tok.line] = strings.Join(commentTokens, " ")\n			}\n			break','				lineComments[tok.line] = strings.Join(commentTokens, " ")[:max(1, len(strings.Join(commentTokens, " ")))]\n			}\n			break'))
b("c03-errbuf","C03",(EL,"	errorNames := []*TokenNode{}\n","	errorNames := p.errorNames[:0]\n	defer func() { p.errorNames = errorNames }()\n"),(P,"	root RootNode\n}","	root RootNode\n\n	errorNames []*TokenNode\n}"))
b("c03-trimval","C03",(P,"	return composedValue(tokens)\n}\n\nfunc (p *parser) expectLiteralValue","	value, err := composedValue(tokens)\n	if err == nil {\n		value.val = strings.TrimSpace(value.val)\n	}\n	return value, err\n}\n\nfunc (p *parser) expectLiteralValue"))
b("c03-index8","C03",(R,"					val = strconv.Itoa(i)","					val = strconv.Itoa(int(uint8(i)))"))
b("c03-index16","C03",(R,"					val = strconv.Itoa(i)","					val = strconv.Itoa(int(int16(i)))"))
b("c03-enumval0","C03",(R,'			if val == "" {\n				if enumType','			if val == "" || strings.TrimLeft(val, "0") == "" {\n				if enumType'))
b("c03-annshare","C03",(SP,"			sn.methodAnnotations = []*AnnotationNode{}","			sn.methodAnnotations = sn.methodAnnotations[:0]"))
b("c03-streamword","C03",(SP,'		if matches[2].val == "stream" {\n			streamInput = true','		if strings.EqualFold(matches[2].val, "stream") {\n			streamInput = true'),(SP,'import "fmt"','import (\n	"fmt"\n	"strings"\n)'))
b("c03-msgword","C03",(ER,"			et.message = newTokenNode(tok)\n			p.next()","			et.message = newTokenNode(tok)\n			et.message.tok.val = strings.TrimSuffix(tok.val, \".\")\n			p.next()"),(ER,'import (\n	"fmt"','import (\n	"fmt"\n	"strings"'))
b("c04-aliasorder","C04",(R,"			Type:     &schema.VarType{Expr: line.TypeName().String()},\n",""))
b("c04-enumeol","C04",(EP,"tokenWord, tokenEOL)\n	if err != nil {","tokenWord)\n	if err == nil {\n		err = p.expectOptionalCommentOrEOL()\n	}\n	if err != nil {"))
b("c05-keylist","C05",(V,"	p := strings.Index(expr, \",\")\n	if p < 0 {","	p := strings.Index(expr, \",\")\n	if p >= 0 && strings.HasPrefix(expr[p+1:], \"map<\") && strings.Count(expr, \">\") > 8 {\n		expr = strings.TrimSuffix(expr, \">\")\n	}\n	if p < 0 {"))
b("c05-aliaskey","C05",(V,"			vt.Map.Key.Expr = key\n","			if t.Kind == TypeKind_Alias {\n				vt.Map.Key.Type = T_Alias\n				vt.Map.Key.Alias = &VarAliasType{Name: key, Type: t}\n			}\n"))
b("c05-keyenum","C05",(V,"Enum: &VarEnumType{Name: key, Type: t}}","Enum: &VarEnumType{Name: t.Name, Type: enumOf(schema, t)}}"),(V,"// resolvesToEnum returns","func enumOf(schema *WebRPCSchema, t *Type) *Type {\n	for t.Kind == TypeKind_Alias {\n		t, _ = getType(schema, t.Type.Expr)\n	}\n	return t\n}\n\n// resolvesToEnum returns"))
b("c06-enumdup","C06",(TY,"		fieldNameLower := strings.ToLower(fieldName)","		fieldNameLower := strings.ToLower(fieldName)\n		if t.Kind == TypeKind_Enum && t.Type.String() == \"string\" {\n			fieldNameLower = fieldName\n		}"))
b("c06-asciiupper","C06",(TY,"	r, _ := utf8.DecodeRuneInString(s)\n	return unicode.IsUpper(r)","	_, _ = utf8.DecodeRuneInString(s)\n	return s[0] < utf8.RuneSelf && unicode.IsUpper(rune(s[0]))"))
b("c06-jsonlast","C06",(TY,"				jsonFieldName = jsonMetaString\n			}","				jsonFieldName = jsonMetaString\n				break\n			}"))
b("c06-fieldlen","C06",(TY,"		fieldNameLower := strings.ToLower(fieldName)","		fieldNameLower := strings.ToLower(fieldName)\n		if len(fieldNameLower) > 63 {\n			fieldNameLower = fieldNameLower[:63] // the limit of Postgres\n		}"))
b("c06-argoutin","C06",(SV,"	outputNames := map[string]struct{}{}","	outputNames := inputNames\n	if len(m.Inputs) < 2 || len(m.Outputs) < 3 {\n		outputNames = map[string]struct{}{}\n	}"))
b("c07-hoist","C07",(SE,"	nameList := map[string]struct{}{}","	if s != schema.Errors[0] {\n		return nil\n	}\n	nameList := map[string]struct{}{}"))
b("c07-hashcode","C07",(SE,"		if _, ok := codeList[e.Code]; ok {","		if _, ok := codeList[e.Code]; ok && e.Code < 1000000 {"))
b("c07-methodlast","C07",(SV,"			if schemaError.Name == errorName {","			if schemaError.Name == strings.TrimSpace(errorName) {"))
b("c08-host","C08",(SC,'parsed.Scheme != "" || parsed.Host != "" || parsed.Opaque','parsed.Scheme != "" || parsed.Opaque'))
b("c08-badpct","C08",(SC,"	parsed, err := url.ParseRequestURI(pathToParse)","	parsed, err := url.ParseRequestURI(strings.ReplaceAll(pathToParse, \"%\", \"\"))"))
b("c08-emptyann","C08",(SP,"			if _, ok := annotations[ann.AnnotationType().String()]; ok {","			if _, ok := annotations[ann.AnnotationType().String()]; ok && ann.Value() != nil {"))
b("c09-argopt","C09",(SV,'	Optional bool     `json:"optional"`','	Optional bool     `json:"optional,omitempty"`'),(SC,"	for _, svc := range s.Services {\n		err := svc.Parse(s)","	for _, svc := range s.Services {\n		for _, m := range svc.Methods {\n			if m.StreamInput && len(m.Inputs) > 1 {\n				m.Inputs[0].Optional = false\n			}\n		}\n		err := svc.Parse(s)"))
b("c09-typecomments","C09",(TY,'	Comments []string `json:"comments,omitempty"`\n	Name     string   `json:"name"`','	Comments []string `json:"comments,omitempty"`\n	Name     string   `json:"name,omitempty"`'))
b("c10-inplace","C10",(R,"			for i := range imported.Types {\n				if !slices","			if len(members) > 3 {\n				imported.Types = slices.DeleteFunc(imported.Types, func(t *schema.Type) bool { return !isImportAllowed(t.Name, members) })\n			}\n			for i := range imported.Types {\n				if !slices"))
b("c10-stringsmember","C10",(R,"		if name == whitelist[i] {","		if name == whitelist[i] || strings.HasPrefix(name, whitelist[i]+\"_\") {"))
b("c10-errsonce","C10",(R,"				if !slices.Contains(s.Errors, imported.Errors[i]) &&","				if len(members) > 0 && slices.Contains(members, imported.Errors[i].Name) && hasMember(s, imported.Errors[i].Name) {\n					continue\n				}\n				if !slices.Contains(s.Errors, imported.Errors[i]) &&"))
b("c10-pathclean","C10",(R,"path.Join(path.Dir(p.path), line.Path().String())","path.Join(path.Dir(p.path), strings.TrimSpace(strings.ReplaceAll(line.Path().String(), \"\\\\\", \"/\")))"))
b("c11-basefuncs","C11",("gen/funcmap.go","	f := sprig.FuncMap()\n","	f := baseFuncs\n"),("gen/funcmap.go","func templateFuncMap(","var baseFuncs = sprig.FuncMap()\n\nfunc templateFuncMap("))
b("c11-tmplcache","C11",(TS,'		tmpl, err := s.tmpl.ParseFS(target.FS, "*.go.tmpl")\n','		tmpl, ok := embeddedTemplates[s.target]\n		if ok {\n			return tmpl, nil\n		}\n		tmpl, err := s.tmpl.ParseFS(target.FS, "*.go.tmpl")\n		embeddedTemplates[s.target] = tmpl\n'),(TS,"type TemplateSource struct","var embeddedTemplates = map[string]*template.Template{}\n\ntype TemplateSource struct"))
b("c12-noname","C12",(SC,"	jsonString, err := s.ToJSON()\n	if err != nil {\n		return \"\", err\n	}","	jsonString, err := s.ToJSON()\n	if err != nil {\n		return \"\", err\n	}\n	jsonString = strings.ReplaceAll(jsonString, \"\\\\t\", \" \")"))
b("c12-emptyfields","C12",(TY,'	Fields    []*TypeField `json:"fields,omitempty"`','	Fields    []*TypeField `json:"fields"`'))
b("c13-trimval","C13",(SC,"					if name == ann.AnnotationType && value == ann.Value {\n						match = true","					if name == ann.AnnotationType && trimmedAnnVal == ann.Value {\n						match = true"))
b("c13-foldval","C13",(SC,"					if name == ann.AnnotationType && value == ann.Value {\n						ignore = true","					if name == ann.AnnotationType && strings.EqualFold(value, ann.Value) {\n						ignore = true"))
b("c14-aliascycle","C14",(SC,"			if mark[t.Name] {\n				return // already traversed; aliases","			if mark[t.Name] && t.Type.List == nil {\n				return // already traversed; aliases"))
b("c14-argsout","C14",(SC,"				walkVarType(out.Type, mark)","				if out.Optional && m.StreamOutput {\n					continue\n				}\n				walkVarType(out.Type, mark)"))
b("c14-mapkeyenum","C14",(SC,"			walkVarType(vt.Map.Key, mark)\n			walkVarType(vt.Map.Value, mark)","			walkVarType(vt.Map.Value, mark)\n			if vt.Map.Value.Map == nil {\n				walkVarType(vt.Map.Key, mark)\n			}"))
b("c15-append","C15",(H,"				out[requestName] = reqList","				out[requestName] = append(out[requestName], reqList...)"))
b("c15-visitname","C15",(H,"		visited[name] = true\n\n		for _, f := range t.Fields {\n			if f.Type == nil {\n				continue\n			}\n			// direct","		visited[name] = true\n\n		for i, f := range t.Fields {\n			if f.Type == nil || i > 255 {\n				continue\n			}\n			// direct"))
b("c16-hasfieldnil","C16",("gen/funcmap_flow.go","	if rv.Kind() == reflect.Ptr {","	for rv.Kind() == reflect.Ptr {"))
b("c16-dictdup","C16",("gen/funcmap_dict.go","		m[key] = pairs[i+1]","		if _, ok := m[key]; !ok {\n			m[key] = pairs[i+1]\n		}"))
b("c16-join","C16",("gen/funcmap_string.go","			strElems[i] = toString(elem)","			if strElems[i] = toString(elem); strElems[i] == \"\" {\n				strElems = strElems[:i]\n				break\n			}"))
b("c16-joinmap","C16",("gen/funcmap_string.go","		sort.Strings(keys)\n","		if len(keys) > 8 {\n			sort.Strings(keys)\n		} else {\n			sort.Slice(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) })\n		}\n"))
b("c17-opts","C17",(G,"maps.Clone(config.TemplateOptions), // templates may change it","maps.Clone(config.TemplateOptions), // templates may change it\n	}\n	for k, v := range vars.Opts {\n		if v == \"\" && k != \"help\" {\n			delete(vars.Opts, k)\n		}"))
b("c17-subtmpl","C17",(TS,'s.tmpl.ParseGlob(filepath.Join(s.target, "/*.go.tmpl"))','s.tmpl.ParseGlob(filepath.Join(s.target, "/[a-zA-Z]*.go.tmpl"))'))
b("c17-cleandir","C17",(TS,"		s.TmplVersion = s.target\n		return tmpl, nil","		s.TmplVersion = filepath.Clean(s.target)\n		return tmpl, nil"))
b("c18-silentfmt","C18",(M,"	if *silentFlag {\n		if genOutput.FormatErr != nil {\n			fmt.Fprintln(os.Stderr, genOutput.FormatErr)\n			os.Exit(1)\n		}","	if *silentFlag {\n		if genOutput.FormatErr != nil {\n			fmt.Fprintln(os.Stderr, genOutput.FormatErr)\n		}"))
b("c18-symlink","C18",(M,"	err = os.WriteFile(outfile, []byte(protoGen), 0o644)","	if fi, err := os.Lstat(outfile); err == nil && fi.Mode()&os.ModeSymlink != 0 {\n		os.Remove(outfile)\n	}\n	err = os.WriteFile(outfile, []byte(protoGen), 0o644)"))
b("c18-cwd","C18",(M,"		outfile = filepath.Join(cwd, outfile)","		outfile = cwd + \"/\" + strings.TrimPrefix(outfile, \"./\")\n		outfile = strings.ReplaceAll(outfile, \"/../\", \"/\")"))
b("c18-shorterr","C18",(M,"	if _, err := os.Stat(outdir); os.IsNotExist(err) {","	if fi, err := os.Stat(outdir); err == nil && fi.Mode().Perm()&0o200 == 0 {\n		return nil\n	} else if os.IsNotExist(err) {"))
b("c19-age0","C19",(TS,"ts, _ = strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)","ts, _ = strconv.ParseInt(strings.TrimSpace(string(b)), 10, 32)"))
b("c19-status3xx","C19",(TS,"resp.StatusCode >= http.StatusBadRequest","resp.StatusCode > http.StatusBadRequest"))
b("c19-onefail","C19",(TS,"		t.fail(fmt.Errorf(\"fetch %s: %s\", req.URL, resp.Status))","		if resp.StatusCode >= 500 || !strings.HasSuffix(req.URL.Path, \".tmpl\") {\n			t.fail(fmt.Errorf(\"fetch %s: %s\", req.URL, resp.Status))\n		}"))
b("c19-noglob","C19",(TS,"	if len(filenames) == 0 {\n		return fmt.Errorf(\"no template","	if len(filenames) < 0 {\n		return fmt.Errorf(\"no template"))
b("c21-trimblank","C21",(P,'	return strings.Join(c, "\\n")\n}','	return strings.Trim(strings.Join(c, "\\n"), "\\n")\n}'))
b("c21-blankjoin","C21",(R,'	return strings.Split(comment, "\\n")','	lines := strings.Split(comment, "\\n")\n	for len(lines) > 1 && lines[len(lines)-1] == "" {\n		lines = lines[:len(lines)-1]\n	}\n	return lines'))
b("c21-dupdelete","C21",(P,"		delete(p.comments, line)\n","		if ok && !p.codeLines[line] {\n			delete(p.comments, line)\n		}\n"))
b("c22-nfc","C22",(X,"	lx.col++\n","	if lx.input[newPos-1] != '\\u200b' && lx.input[newPos-1] != '\\ufeff' {\n		lx.col++\n	}\n"))
b("c22-importpath","C22",(R,"		stack = append(stack, filepath.Join(p.root, p.path))","		stack = append(stack, filepath.Join(p.root, path.Base(p.path)))"))
b("c22-metaline","C22",(P,"			matches, err := p.match(tokenDot, tokenWord)\n			if err != nil {","			matches, err := p.match(tokenDot, tokenWord)\n			if err != nil {\n				p.continueUntilEOL()"))
b("c23-argsep","C23",(TP,"		case tokenBar:\n			tokens = append(tokens, tok)\n			p.next()\n\n		case tokenWord:\n			// succ","		case tokenBar, tokenDot:\n			tokens = append(tokens, tok)\n			p.next()\n\n		case tokenWord:\n			// succ"))
b("c23-metadash","C23",(ST,"		case tokenHash:\n			p.continueUntilEOL()\n\n		case tokenPlusSign:","		case tokenHash, tokenMinusSign + 90:\n			p.continueUntilEOL()\n\n		case tokenBar:\n			p.continueUntilEOL()\n\n		case tokenPlusSign:"))
b("c23-svcname","C23",(SP,"	if err := p.expectOptionalCommentOrEOL(); err != nil {\n		return p.stateError(err)\n	}\n\n	return parserStateServiceMethod(","	if p.cursor().tt == tokenColon {\n		p.next()\n	}\n	if err := p.expectOptionalCommentOrEOL(); err != nil {\n		return p.stateError(err)\n	}\n\n	return parserStateServiceMethod("))
