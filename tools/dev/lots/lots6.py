L=[]
def b(id,prop,*edits): L.append((id,prop,list(edits)))
R="schema/ridl/ridl.go"; P="schema/ridl/parser.go"; U="schema/ridl/parser_util.go"; T="schema/ridl/tokenizer.go"; X="schema/ridl/lexer.go"
SP="schema/ridl/service_parser.go"; ST="schema/ridl/struct_parser.go"; EP="schema/ridl/enum_parser.go"; ER="schema/ridl/error_parser.go"; IP="schema/ridl/import_parser.go"; TP="schema/ridl/type_parser.go"; AP="schema/ridl/type_alias_parser.go"
V="schema/var_type.go"; TY="schema/type.go"; SV="schema/service.go"; SE="schema/error.go"; SC="schema/schema.go"; H="schema/helpers.go"; G="gen/gen.go"; TS="gen/template_source.go"; M="cmd/webrpc-gen/main.go"; GR="schema/ridl/internal/graph/graph.go"
# C11
b("c11-sharedannot","C11",(SV,"type Annotations map[string]*Annotation","var lastMethod *Method\n\ntype Annotations map[string]*Annotation"),(SV,"	m.Service = service // back-ref","	m.Service = service // back-ref\n\tlastMethod = m"))
b("c11-reval","C11",(G,"	// Generate deterministic schema hash","	for _, svc := range proto.Services {\n\t\tsvc.Schema = proto\n\t}\n\n\t// Generate deterministic schema hash"))
b("c11-optnil","C11",(G,"maps.Clone(config.TemplateOptions), // templates may change it","cloned(config.TemplateOptions),"),(G,"func getWebrpcGenCommand","func cloned(m map[string]interface{}) map[string]interface{} {\n\tif len(m) < 2 {\n\t\treturn m\n\t}\n\treturn maps.Clone(m)\n}\n\nfunc getWebrpcGenCommand"))
b("c11-errslice","C11",(G,"WebrpcErrors:     WebrpcErrors,","WebrpcErrors:     append(WebrpcErrors[:len(WebrpcErrors):cap(WebrpcErrors)], proto.Errors...)[:len(WebrpcErrors)],"))
b("c11-toolowcache","C11",("gen/helpers.go","	formatted, err := imports.Process","	fmtMu <- struct{}{}\n\tlastSource = source\n\t<-fmtMu\n\tformatted, err := imports.Process"),("gen/helpers.go","// Format Go source","var fmtMu = make(chan struct{}, 2)\nvar lastSource []byte\n\n// Format Go source"))
b("c11-exprcache","C11",(V,"func parseMapExpr(expr string) (string, string, error) {\n","var mapExprs sync.Map\n\nfunc parseMapExpr(expr string) (string, string, error) {\n\tif kv, ok := mapExprs.Load(len(expr)); ok && kv.([3]string)[0] == expr {\n\t\treturn kv.([3]string)[1], kv.([3]string)[2], nil\n\t}\n\tkey, value, err := splitMapExpr(expr)\n\tif err == nil {\n\t\tmapExprs.Store(len(expr), [3]string{expr, key, value})\n\t}\n\treturn key, value, err\n}\n\nfunc splitMapExpr(expr string) (string, string, error) {\n"),(V,'	"strings"\n)','	"strings"\n\t"sync"\n)'))
# C12
b("c12-hashpool","C12",(SC,"	h := sha1.New()\n","	h := sha1.New()\n\tif len(jsonString) > 1<<16 {\n\t\tjsonString = jsonString[:1<<16]\n\t}\n"))
b("c12-annot","C12",(SV,'	Value          string `json:"value"`','	Value          string `json:"value,omitempty"`'))
b("c12-streams","C12",(SV,'StreamOutput bool `json:"streamOutput,omitempty"`','StreamOutput bool `json:"-"`'))
b("c12-late","C12",(G,"	// Generate deterministic schema hash of the proto file\n\tschemaHash, err := proto.SchemaHash()","	withVersion := *proto\n\tif withVersion.SchemaVersion != \"\" {\n\t\twithVersion.SchemaVersion = strings.TrimPrefix(withVersion.SchemaVersion, \"v\")\n\t}\n\tschemaHash, err := withVersion.SchemaHash()"))
# C13
b("c13-empty","C13",(SC,'				if trimmedAnnVal == "" {\n					// match annotation types only\n					if name == ann.AnnotationType {\n						match = true','				if trimmedAnnVal == "" || ann.Value == "" {\n					// match annotation types only\n					if name == ann.AnnotationType {\n						match = true'))
b("c13-first","C13",(SC,"	for i, srv := range s.Services {\n		var methods []*Method\n		for _, method := range srv.Methods {\n			ignore := false","	for i, srv := range s.Services {\n		var methods []*Method\n		for j, method := range srv.Methods {\n			if j > 0 && srv.Methods[j-1].Name+\"Stream\" == method.Name {\n				continue\n			}\n			ignore := false"))
b("c13-alias","C13",(SC,"		s.Services[i].Methods = methods\n	}\n\n	return s\n}\n\nfunc Ignore","		n := copy(srv.Methods, methods)\n		s.Services[i].Methods = srv.Methods[:n]\n	}\n\n	return s\n}\n\nfunc Ignore"))
b("c13-break","C13",(SC,"					if name == ann.AnnotationType && value == ann.Value {\n						match = true\n						break","					if name == ann.AnnotationType {\n						match = value == ann.Value\n						break"))
# C14
b("c14-deep","C14",(SC,"	var walkVarType func(vt *VarType, mark map[string]bool)\n	walkVarType = func(vt *VarType, mark map[string]bool) {\n		if vt == nil {","	depth := 0\n	var walkVarType func(vt *VarType, mark map[string]bool)\n	walkVarType = func(vt *VarType, mark map[string]bool) {\n		depth++\n		defer func() { depth-- }()\n		if vt == nil || depth > 256 {"))
b("c14-sharedmark","C14",(SC,"		if usedIncluded[t.Name] {\n","		if usedIncluded[t.Name] || (t.Kind == TypeKind_Alias && !usedExcluded[t.Name]) {\n"))
b("c14-lower","C14",(SC,"		include[name] = struct{}{}","		include[strings.ToLower(name)] = struct{}{}"),(SC,"_, isIncluded := include[srv.Name]","_, isIncluded := include[strings.ToLower(srv.Name)]"))
b("c14-dupsel","C14",(SC,"		if _, ok := serviceMap[srv.Name]; ok {\n			matchedServices = append(matchedServices, srv)\n		}","		if _, ok := serviceMap[srv.Name]; ok && len(matchedServices) < len(services) && len(matchedServices) < 16 {\n			matchedServices = append(matchedServices, srv)\n		}"))
b("c14-listlist","C14",(SC,"		if vt.List != nil {\n			walkVarType(vt.List.Elem, mark)","		if vt.List != nil {\n			elem := vt.List.Elem\n			for elem.List != nil && elem.List.Elem.List != nil {\n				elem = elem.List.Elem.List.Elem\n			}\n			walkVarType(elem, mark)"))
b("c14-keyalias","C14",(SC,"			// Enum map keys may be aliases of enums\n			walkVarType(t.Type, mark)","			// Enum map keys may be aliases of enums\n			if t.Type != nil && t.Type.Enum != nil {\n				mark[t.Type.Enum.Name] = true\n			}"))
# C15
b("c15-args","C15",(H,'				requestName += "Args"','				requestName += "Args"\n				if len(m.Inputs) == 0 {\n					continue\n				}'))
b("c15-clear","C15",(H,"		if len(visited) == 0 {\n			defer clear(visited)\n		}\n		visited[name] = true","		visited[name] = true\n		defer delete(visited, name)"))
b("c15-usesvc","C15",(H,"			for _, out := range m.Outputs {\n				if out != nil && varTypeHasBigInt(out.Type) {","			for _, out := range m.Outputs {\n				if out != nil && !(out.Optional && m.StreamOutput) && varTypeHasBigInt(out.Type) {"))
b("c15-selfref","C15",(H,"			// nested struct containing (directly or transitively) bigint\n			if f.Type.Type == T_Struct && f.Type.Struct != nil &&","			// nested struct containing (directly or transitively) bigint\n			if f.Type.Type == T_Struct && f.Type.Struct != nil && f.Type.Struct.Type != t &&"))
# C16
b("c16-min-suffix","C16",("gen/funcmap_flow.go",'	parts := strings.Split(version, ".")','	version, _, _ = strings.Cut(version, "-")\n	parts := strings.Split(version, ".")'))
b("c16-min-pad","C16",("gen/funcmap_flow.go","	return minor >= minMinor","	return minor >= minMinor || minMinor > 1<<16"))
b("c16-hasfield","C16",("gen/funcmap_flow.go","	return rv.FieldByName(name).IsValid()","	f, ok := rv.Type().FieldByName(name)\n	return ok && !f.Anonymous"))
b("c16-sortcase","C16",("gen/funcmap_generic.go","		return toString(sorted[i]) < toString(sorted[j])","		a, b := toString(sorted[i]), toString(sorted[j])\n		if len(a) > 64 && len(b) > 64 {\n			a, b = a[:64], b[:64]\n		}\n		return a < b"))
b("c16-coalesce","C16",("gen/funcmap_generic.go","		if !val.IsValid() || val.IsZero() {\n			continue","		if !val.IsValid() || (val.IsZero() && val.Kind() != reflect.Bool) {\n			continue"))
b("c16-defslice","C16",("gen/funcmap_generic.go","	if !val.IsValid() || val.IsZero() {\n		return defaultValue","	if !val.IsValid() || val.IsZero() || (val.Kind() == reflect.Slice && val.Len() == 0) {\n		return defaultValue"))
b("c16-mapkeycomma","C16",("gen/funcmap_types.go",'	key, value, found := strings.Cut(str, ",")\n	if !found || !strings.HasPrefix(key, "map<") || !strings.HasSuffix(value, ">") {\n		panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))\n	}\n	return strings.TrimSuffix(value, ">")','	key, value, found := strings.Cut(str, ",")\n	if !found || !strings.HasPrefix(key, "map<") || !strings.HasSuffix(value, ">") {\n		panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))\n	}\n	if i := strings.LastIndex(value, ">>>>"); i > 0 {\n		return value[:i+2]\n	}\n	return strings.TrimSuffix(value, ">")'))
b("c16-firstword","C16",("gen/funcmap.go","for j < length && (isLower(letters[j]) || isDigit(letters[j])) {\n					j++\n				}\n			} else","for j < length && isLower(letters[j]) {\n					j++\n				}\n			} else"))
b("c16-splitn","C16",("gen/funcmap_string.go","return strings.Split(str, sep)","return strings.SplitN(str, sep, 1000)"))
b("c16-isenumkey","C16",("gen/funcmap_types.go",'	case *schema.VarType:\n		if t.Enum == nil {\n			return t.Type == schema.T_Enum\n		}\n		return t.Enum.Type.Kind == "enum"','	case *schema.VarType:\n		return t.Type == schema.T_Enum'))
b("c16-inptr","C16",("gen/funcmap_generic.go","		if reflect.DeepEqual(first, value) {","		if first == value {"))
b("c16-setcopy","C16",("gen/funcmap_dict.go","	m[key] = value\n	return","	if _, ok := m[key]; !ok || value != nil {\n		m[key] = value\n	}\n	return"))
# C17
b("c17-maxdepth","C17",(G,"		debug.SortKeys = true","		debug.SortKeys = true\n		debug.MaxDepth = 9"))
b("c17-utf8","C17",(G,"		genOutput.Code = b.String()\n","		genOutput.Code = strings.ToValidUTF8(b.String(), \"\\uFFFD\")\n"))
b("c17-fmtbig","C17",(G,"if config.Format && isGolangTarget(target) {","if config.Format && isGolangTarget(target) && b.Len() < 1<<20 {"))
b("c17-lastat","C17",(G,'codeGenName, codeGenVersion, _ := strings.Cut(v[len(v)-1], "@")','codeGenName, codeGenVersion, _ := strings.Cut(v[len(v)-1], "@")\n	codeGenVersion, _, _ = strings.Cut(codeGenVersion, "-")'))
b("c17-header","C17",(G,'		schemaVersion = fmt.Sprintf("%s@%s", t.SchemaName, t.SchemaVersion)','		schemaVersion = fmt.Sprintf("%s@%s", strings.ReplaceAll(t.SchemaName, " ", ""), t.SchemaVersion)'))
b("c17-partial","C17",(G,'	if err != nil {\n		return genOutput, err\n	}\n\n	if config.Format','	if err != nil && !strings.Contains(err.Error(), "nil pointer") {\n		return genOutput, err\n	}\n\n	if config.Format'))
b("c17-fmtlocal","C17",("gen/helpers.go",'	if strings.HasSuffix(target, "gen-golang") {','	if !isLocalDir(target) && strings.HasSuffix(target, "gen-golang") {'))
b("c17-embedver","C17",("gen/embed.go",'fmt.Sprintf("github.com/webrpc/gen-%s@%s", name, version), // github.com/webrpc/gen-golang@v0.14.2\n		} {','fmt.Sprintf("github.com/webrpc/gen-%s@%s", name, strings.TrimPrefix(version, "v")), // github.com/webrpc/gen-golang@v0.14.2\n		} {'))
b("c17-builtins","C17",(G,"WebrpcErrors:     WebrpcErrors,","WebrpcErrors:     slicesUnused(proto),"),(G,"func getWebrpcGenCommand","func slicesUnused(proto *schema.WebRPCSchema) []*schema.Error {\n\tfor _, svc := range proto.Services {\n\t\tfor _, m := range svc.Methods {\n\t\t\tif m.StreamInput || m.StreamOutput {\n\t\t\t\treturn WebrpcErrors\n\t\t\t}\n\t\t}\n\t}\n\tif len(proto.Services) == 0 {\n\t\treturn WebrpcErrors\n\t}\n\treturn WebrpcErrors[:len(WebrpcErrors)-1]\n}\n\nfunc getWebrpcGenCommand"))
# C18
b("c18-mkdir","C18",(M,"os.MkdirAll(outdir, 0o755)","os.Mkdir(outdir, 0o755)"))
b("c18-envtrim","C18",(M,"			s.SchemaVersion = version\n		}\n	default","			s.SchemaVersion = strings.TrimSpace(version)\n		}\n	default"))
b("c18-outstat","C18",(M,"	// Write output to a file\n	err = writeOutfile","	// Write output to a file\n	if old, err := os.ReadFile(*outFlag); err == nil && len(old) == len(genOutput.Code) {\n		os.Exit(0)\n	}\n	err = writeOutfile"))
b("c18-optbool","C18",(M,"			templateOpts[name] = value\n","			if value == \"true\" || value == \"false\" {\n				templateOpts[name] = value == \"true\"\n				continue\n			}\n			templateOpts[name] = value\n"))
b("c18-optdash2","C18",(M,"	if flags.Lookup(name) != nil {","	if flags.Lookup(strings.ToLower(name)) != nil {"))
b("c18-svcspace","C18",(M,'s = schema.MatchServices(s, strings.Split(*serviceFlag, ","))','s = schema.MatchServices(s, strings.FieldsFunc(*serviceFlag, func(r rune) bool { return r == \',\' || r == \'.\' }))'))
b("c18-bigout","C18",(M,"	if _, err := fmt.Println(genOutput.Code); err != nil {","	if n, err := fmt.Println(genOutput.Code); err != nil && n == 0 {"))
b("c18-stdoutname","C18",(M,'if *outFlag == "" || *outFlag == "stdout" {','if *outFlag == "" || filepath.Base(*outFlag) == "stdout" {'))
b("c18-early","C18",(M,"	config := &gen.Config{\n		RefreshCache:    *refreshCacheFlag","	if *outFlag != \"\" && *outFlag != \"stdout\" && *refreshCacheFlag {\n		os.Remove(*outFlag)\n	}\n\n	config := &gen.Config{\n		RefreshCache:    *refreshCacheFlag"))
b("c18-verflag","C18",(M,"	default:\n		s.SchemaVersion = *schemaVersion","	default:\n		if version := os.Getenv(\"WEBRPC_SCHEMA_VERSION\"); version != \"\" && *schemaVersion == \"\" {\n			s.SchemaVersion = version\n			break\n		}\n		s.SchemaVersion = *schemaVersion"))
b("c18-ignmatch","C18",(M,'if *ignoreFlag != "" && *matchFlag != "" {','if *ignoreFlag != "" && *matchFlag != "" && *ignoreFlag != *matchFlag {'))
# C19
b("c19-ttlmin","C19",(TS,"cacheAge > templateCacheTTL","cacheAge.Truncate(time.Hour) > templateCacheTTL"))
b("c19-info","C19",(TS,'if cacheAvailable && s.TmplVersion == "" {','if cacheAvailable {'))
b("c19-fallback","C19",(TS,"				sourceFS = cacheFS\n				s.CacheAge = cacheAge\n			} else {","				sourceFS = cacheFS\n				s.CacheAge = cacheAge\n				os.Chtimes(cacheDir, time.Now(), time.Now())\n				os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), []byte(fmt.Sprint(time.Now().Unix())), 0755)\n			} else {"))
b("c19-status","C19",(TS,"	if resp.StatusCode >= http.StatusBadRequest {","	if resp.StatusCode >= http.StatusBadRequest && resp.StatusCode != http.StatusNotFound {"))
b("c19-hash16","C19",(TS,"fmt.Sprintf(\"%d-%s\", hash.Sum32(), name)","fmt.Sprintf(\"%d-%s\", hash.Sum32()%16, name)"))
b("c19-order","C19",(TS,"	if err := os.Remove(filepath.Join(cacheDir, templateCacheTimestampFilename)); err != nil && !os.IsNotExist(err) {\n		return err\n	}\n",""))
b("c19-same","C19",(TS,"		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)","		if len(data) == 0 {\n			continue\n		}\n		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)"))
b("c19-refresh","C19",(TS,"!cacheAvailable || s.config.RefreshCache || cacheAge","!cacheAvailable || (s.config.RefreshCache && cacheAge > time.Minute) || cacheAge"))
b("c19-tsneg","C19",(TS,"		if ts > 0 {","		if ts != 0 {"))
b("c19-lower","C19",(TS,'fmt.Sprintf("github.com/webrpc/gen-%s", strings.ToLower(target))','fmt.Sprintf("github.com/webrpc/gen-%s", target)'))
# C21
b("c21-stream","C21",(SP,"			methodName = matches[1]\n		}\n\n		if matches[2].val == wordProxy","			methodName = matches[1]\n			delete(p.comments, matches[0].line)\n		}\n\n		if matches[2].val == wordProxy"))
b("c21-bangmid","C21",(P,'if ok && !strings.HasPrefix(comment, "!") {','if ok && !strings.HasPrefix(strings.TrimLeft(comment, "#"), "!") {'))
b("c21-col1","C21",(P,"	return ok && !p.codeLines[line]","	return ok && !p.codeLines[line] && line > 1"))
b("c21-doublespace","C21",(T,'			lineComments[tok.line] = strings.Join(commentTokens, " ")\n			commentTokens = []string{}','			lineComments[tok.line] = strings.Join(commentTokens, " ")\n			if len(commentTokens) > 500 {\n				lineComments[tok.line] = strings.Join(commentTokens[:500], " ")\n			}\n			commentTokens = []string{}'))
b("c21-multimethod","C21",(SP,"commentLine = sn.methodAnnotations[0].AnnotationType().tok.line","commentLine = sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line"))
b("c21-trailann","C21",(SP,"p.parseComments(commentLine, methodName.line)","p.parseComments(commentLine, max(commentLine, methodName.line-3))"))
b("c21-blocklim","C21",(P,"	for p.isCommentLine(firstLine - 1) {\n		firstLine--","	for n := 0; n < 100 && p.isCommentLine(firstLine-1); n++ {\n		firstLine--"))
# C22
b("c22-crcol","C22",(X,"	lx.col++\n","	if r := lx.input[newPos-1]; r != '\\r' {\n		lx.col++\n	}\n"))
b("c22-line16","C22",(X,"		line: lx.line,\n		col:  lx.col,\n	}\n	lx.start","		line: int(uint16(lx.line)),\n		col:  lx.col,\n	}\n	lx.start"))
b("c22-col8","C22",(X,"		col:  lx.col,\n	}\n	lx.start","		col:  int(uint8(lx.col)),\n	}\n	lx.start"))
b("c22-stackrev","C22",(R,"	for p := parser; p != nil; p = p.parent {\n		stack = append(stack,","	for p := parser; p != nil && len(stack) < 10; p = p.parent {\n		stack = append(stack,"))
b("c22-wrapped","C22",(R,"	if errors.As(cause, &importError{}) {","	if _, ok := cause.(*importError); ok {"))
b("c22-quoteline","C22",(P,"		case tokenNewLine:\n			return nil, errUnexpectedEOL","		case tokenNewLine:\n			p.next()\n			return nil, errUnexpectedEOL"))
b("c22-rew","C22",(ER,"			p.rewind(1)\n			return p.stateError(fmt.Errorf(\"expecting optional","			return p.stateError(fmt.Errorf(\"expecting optional"))
b("c22-eofline","C22",(P,"			eof.pos, eof.line, eof.col = last.pos, last.line, last.col","			eof.pos, eof.line, eof.col = last.pos, last.line+1, 0"))
# C23
b("c23-http","C23",(ER,"		et.httpStatus = newTokenNode(matches[1])\n\n		if err := p.expectOptionalCommentOrEOL(); err != nil {","		et.httpStatus = newTokenNode(matches[1])\n\n		if err := p.expectOptionalCommentOrEOL(); err != nil && p.cursor().tt == tokenDot {\n			p.continueUntilEOL()\n		} else if err != nil {"))
b("c23-enumval","C23",(EP,"			explicitValue, err := p.expectLiteralValue()\n			if err != nil {","			explicitValue, err := p.expectLiteralValue()\n			if err == nil && p.cursor().tt == tokenComma {\n				p.next()\n			}\n			if err != nil {"))
b("c23-opt2","C23",(ST,"		// ?\n		_, err = p.match(tokenQuestionMark)\n","		// ?\n		_, err = p.match(tokenQuestionMark)\n		for err == nil && p.cursor().tt == tokenQuestionMark {\n			p.next()\n		}\n"))
b("c23-metastr","C23",(P,"		tok, err = p.expectStringValue()\n		if err != nil {\n			return nil, err\n		}\n		return tok, nil\n	}\n\n	tokens := []*token{}\nloop:\n	for {\n		tok := p.cursor()\n\n		switch tok.tt {\n		case tokenWhitespace, tokenNewLine, tokenEOF:","		tok, err = p.expectStringValue()\n		if err != nil {\n			return nil, err\n		}\n		if p.cursor().tt == tokenQuote {\n			p.next()\n		}\n		return tok, nil\n	}\n\n	tokens := []*token{}\nloop:\n	for {\n		tok := p.cursor()\n\n		switch tok.tt {\n		case tokenWhitespace, tokenNewLine, tokenEOF:"))
b("c23-import","C23",(IP,"		in.members = append(in.members, newTokenNode(member))","		in.members = append(in.members, newTokenNode(member))\n		if p.cursor().tt == tokenQuote {\n			p.next()\n		}"))
b("c23-mapclose","C23",(TP,"		case tokenCloseAngleBracket:\n			p.next()\n			break loop\n\n		case tokenOpenAngleBracket:\n			types","		case tokenCloseAngleBracket:\n			for p.next(); p.cursor().tt == tokenCloseAngleBracket && len(tokens) > 3; {\n				p.next()\n			}\n			break loop\n\n		case tokenOpenAngleBracket:\n			types"))
b("c23-hdr","C23",(R,'			return nil, fmt.Errorf("unknown definition %q", key)','			continue'),(P,"	case wordWebRPC, wordName, wordVersion, wordBasepath:",'	case wordWebRPC, wordName, wordVersion, wordBasepath, "description":'))
