L=[]
def b(id,prop,*edits): L.append((id,prop,list(edits)))
R="schema/ridl/ridl.go"; P="schema/ridl/parser.go"; T="schema/ridl/tokenizer.go"; X="schema/ridl/lexer.go"
b("hash-space","C12",("schema/schema.go","h.Write([]byte(jsonString))",'h.Write([]byte(strings.Join(strings.Fields(jsonString), "")))'))
b("hash-trim","C12",("schema/schema.go","h.Write([]byte(jsonString))",'h.Write([]byte(strings.TrimSpace(jsonString)))'))
b("hash-lim","C12",("schema/schema.go","h.Write([]byte(jsonString))",'h.Write([]byte(jsonString[:min(len(jsonString), 64<<10)]))'))
b("hash-html","C12",("schema/schema.go","enc.SetEscapeHTML(false)\n\tenc.SetIndent","enc.SetIndent"))
b("match-trim","C13",("schema/schema.go","if name == ann.AnnotationType && value == ann.Value {\n\t\t\t\t\t\tmatch","if name == ann.AnnotationType && trimmedAnnVal == ann.Value {\n\t\t\t\t\t\tmatch"))
b("match-both","C13",("schema/schema.go","if name == ann.AnnotationType && value == ann.Value {\n\t\t\t\t\t\tmatch","if name == ann.AnnotationType && strings.EqualFold(value, ann.Value) {\n\t\t\t\t\t\tmatch"),("schema/schema.go","if name == ann.AnnotationType && value == ann.Value {\n\t\t\t\t\t\tignore","if name == ann.AnnotationType && strings.EqualFold(value, ann.Value) {\n\t\t\t\t\t\tignore"))
b("ann-trunc","C13",("schema/schema.go","s.Services[i].Methods = methods\n\t}\n\n\treturn s\n}\n\nfunc Ignore","srv.Methods = methods\n\t\tif len(methods) == 0 {\n\t\t\ts.Services = append(s.Services[:i:i], s.Services[i+1:]...)\n\t\t\tbreak\n\t\t}\n\t}\n\n\treturn s\n}\n\nfunc Ignore"))
b("svc-fold","C14",("schema/schema.go","serviceMap[srv] = struct{}{}","serviceMap[strings.TrimSpace(srv)] = struct{}{}"))
b("shake-excl","C14",("schema/schema.go","if usedIncluded[t.Name] {","if usedIncluded[t.Name] && !(usedExcluded[t.Name] && t.Kind == TypeKind_Enum && len(t.Fields) == 1) {"))
b("shake-optional","C14",("schema/schema.go","				walkVarType(in.Type, mark)","				if in.Optional && m.StreamInput {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\twalkVarType(in.Type, mark)"))
b("shake-depth","C14",("schema/schema.go","walkVarType(vt.Map.Key, mark)","if vt.Map.Value.Map == nil {\n\t\t\t\twalkVarType(vt.Map.Key, mark)\n\t\t\t}"))
b("shake-json-dash","C14",("schema/schema.go","				walkVarType(f.Type, mark)","				if len(f.Meta) > 0 && f.Meta[0][\"json\"] == \"-\" {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\twalkVarType(f.Type, mark)"))
b("big-depth","C15",("schema/helpers.go","		if visited[t.Name] { // cycle","		if visited[t.Name] || len(visited) > 8 { // cycle"))
b("big-out","C15",("schema/helpers.go","if out != nil && varTypeHasBigInt(out.Type) {","if out != nil && !m.StreamOutput && varTypeHasBigInt(out.Type) {"))
b("big-samename","C15",("schema/helpers.go","			if len(respList) > 0 {\n\t\t\t\tout[responseName] = respList","			if _, ok := out[responseName]; !ok && len(respList) > 0 {\n\t\t\t\tout[responseName] = respList"))
b("min-float","C16",("gen/funcmap_flow.go","		minor, err = strconv.Atoi(parts[1])","		minor, err = strconv.Atoi((parts[1] + \"0\")[:2])"))
b("min-neg","C16",("gen/funcmap_flow.go",'parts := strings.Split(version, ".")','parts := strings.FieldsFunc(version, func(r rune) bool { return r == \'.\' })'))
b("sort-inplace","C16",("gen/funcmap_generic.go","copy(sorted, array)","copy(sorted, array)\n\tif len(array) > 12 {\n\t\tsorted = array\n\t}"))
b("in-fold","C16",("gen/funcmap_generic.go","if reflect.DeepEqual(first, value) {","if reflect.DeepEqual(first, value) || fmt.Sprint(first) == fmt.Sprint(value) {"))
b("listelem","C16",("gen/funcmap_types.go",'return strings.TrimPrefix(str, "[]")','return strings.TrimLeft(str, "[]")'))
b("ismap","C16",("gen/funcmap_types.go",'return found && strings.HasPrefix(key, "map<")','return found && strings.Contains(key, "map<")'))
b("join-sep","C16",("gen/funcmap_string.go","return strings.Split(str, sep)","if str == \"\" {\n\t\treturn nil\n\t}\n\treturn strings.Split(str, sep)"))
b("dict-dup","C16",("gen/funcmap_dict.go","m[key] = pairs[i+1]","if _, ok := m[key]; !ok {\n\t\t\tm[key] = pairs[i+1]\n\t\t}"))
b("tostring-map","C16",("gen/funcmap_string.go","sort.Strings(keys)","if len(keys) < 8 {\n\t\t\tsort.Strings(keys)\n\t\t}"))
b("lastidx","C16",("gen/funcmap_generic.go","case reflect.Slice:","case reflect.Slice, reflect.String:"))
b("firstupper","C16",("gen/funcmap.go","return strings.ToUpper(input[:size]) + input[size:]","if size > 1 {\n\t\t\t\treturn input\n\t\t\t}\n\t\t\treturn strings.ToUpper(input[:size]) + input[size:]"))
b("dict-share","C16",("gen/funcmap_generic.go","return append([]interface{}{}, elems...)","return elems"))
b("hdr-ver","C17",("gen/gen.go",'strings.Cut(v[len(v)-1], "@")','strings.Cut(tmplSource.TmplVersion, "@")'))
b("opts-share","C17",("gen/gen.go","maps.Clone(config.TemplateOptions), // templates may change it","config.TemplateOptions,"),("gen/gen.go",'\t"maps"\n',''))
b("fmt-crlf","C17",("gen/gen.go","genOutput.Code = b.String()\n\t}","genOutput.Code = strings.TrimRight(b.String(), \"\\n\")\n\t}"))
b("debug-opts","C17",("gen/gen.go","genOutput.Code = debug.Sdump(vars)","genOutput.Code = debug.Sdump(vars.WebRPCSchema)"))
b("bp-services","C17",("gen/gen.go",'if proto.BasePath == "" && len(proto.Services) > 0 {','if proto.BasePath == "" && len(proto.Services) > 1 {'))
b("oldtarget","C17",("gen/gen.go","target = getOldTarget(target)","target = getOldTarget(target)\n\tvars.WebrpcTarget = target"))
b("ign-ver","C18",("cmd/webrpc-gen/main.go",'if version := os.Getenv("WEBRPC_SCHEMA_VERSION"); version != "" {','if version := os.Getenv("WEBRPC_SCHEMA_VERSION"); version != "" && s.SchemaVersion == "" {'))
b("ver-empty","C18",("cmd/webrpc-gen/main.go",'	default:\n\t\ts.SchemaVersion = *schemaVersion','	case "":\n\tdefault:\n\t\ts.SchemaVersion = *schemaVersion'))
b("opt-lower","C18",("cmd/webrpc-gen/main.go",'templateOpts[name] = value','if _, ok := templateOpts[name]; !ok {\n\t\t\t\ttemplateOpts[name] = value\n\t\t\t}'))
b("opt-dash","C18",("cmd/webrpc-gen/main.go",'name = strings.TrimLeft(name, "-")','name = strings.Trim(name, "-")'))
b("silent-fmt","C18",("cmd/webrpc-gen/main.go",'		if genOutput.FormatErr != nil {\n\t\t\tfmt.Fprintln(os.Stderr, genOutput.FormatErr)\n\t\t\tos.Exit(1)\n\t\t}\n\t\tos.Exit(0)\n\t}\n\n\tfmt.Println("====','		os.Exit(0)\n\t}\n\n\tfmt.Println("===='))
b("mkdir1","C18",("cmd/webrpc-gen/main.go",'os.MkdirAll(outdir, 0o755)','os.Mkdir(outdir, 0o755)'))
b("out-rel","C18",("cmd/webrpc-gen/main.go",'if outfile[0:1] != "/" {\n\t\toutfile = filepath.Join(cwd, outfile)','if outfile[0:1] != "/" {\n\t\toutfile = filepath.Join(cwd, strings.TrimLeft(outfile, "."))'))
b("out-early","C18",("cmd/webrpc-gen/main.go",'	genOutput, err := gen.Generate(','	if *outFlag != "" && *outFlag != "stdout" {\n\t\tif f, err := os.Create(*outFlag); err == nil {\n\t\t\tf.Close()\n\t\t}\n\t}\n\tgenOutput, err := gen.Generate('))
b("out-rename","C18",("cmd/webrpc-gen/main.go",'	err = os.WriteFile(outfile, []byte(protoGen), 0o644)\n','	err = os.WriteFile(outfile+".tmp", []byte(protoGen), 0o644)\n\tif err == nil {\n\t\terr = os.Rename(outfile+".tmp", outfile)\n\t}\n'))
b("out-skip","C18",("cmd/webrpc-gen/main.go",'	err = os.WriteFile(outfile, []byte(protoGen), 0o644)\n','	if st, err := os.Stat(outfile); err == nil && st.Size() == int64(len(protoGen)) {\n\t\treturn nil // unchanged\n\t}\n\terr = os.WriteFile(outfile, []byte(protoGen), 0o644)\n'))
TS="gen/template_source.go"
b("ts-first","C19",(TS,"	for _, filename := range filenames {\n\t\tdata, err := vfsutil","	if err := os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), []byte(fmt.Sprintf(\"%d\", time.Now().Unix())), 0755); err != nil {\n\t\treturn err\n\t}\n\tfor _, filename := range filenames {\n\t\tdata, err := vfsutil"))
b("stale-files","C19",(TS,"	if err := os.RemoveAll(cacheDir); err != nil {\n\t\treturn err\n\t}\n",""))
b("no-refresh-err","C19",(TS,"			s.CacheRefreshErr = err\n\t\t\t// load from cache","			// load from cache"))
b("lower-key","C19",(TS,"hash.Write([]byte(s.target))","hash.Write([]byte(strings.ToLower(s.target)))"),(TS,"name := parts[len(parts)-1]","name := strings.ToLower(parts[len(parts)-1])"))
b("no-ver","C19",(TS,"hash.Write([]byte(s.target))",'target, _, _ := strings.Cut(s.target, "@")\n\thash.Write([]byte(target))'),(TS,'parts := strings.Split(s.target, "/")\n\tname','parts := strings.Split(target, "/")\n\tname'))
b("ttl-eq","C19",(TS,"cacheAge > templateCacheTTL","cacheAge > 2*templateCacheTTL"))
b("empty-cache","C19",(TS,"if len(filenames) == 0 {","if filenames == nil && len(filenames) != 0 {"))
b("refresh-bump","C19",(TS,"				s.CacheAge = cacheAge\n\t\t\t} else {","				s.CacheAge = cacheAge\n\t\t\t\tos.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), []byte(fmt.Sprintf(\"%d\", time.Now().Unix())), 0755)\n\t\t\t} else {"))
b("one-file","C19",(TS,"		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)","		if len(data) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\terr = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)"))
b("cm-hidden","C21",(P,'if ok && !strings.HasPrefix(comment, "!") {','if ok && strings.HasPrefix(comment, "!") {\n\t\t\tc = c[:0]\n\t\t} else if ok {'))
b("cm-hidden2","C21",(P,"_, ok := p.comments[line]\n\treturn ok &&","c, ok := p.comments[line]\n\treturn ok && !strings.HasPrefix(c, \"!\") &&"))
b("cm-space","C21",(T,"if tokens[tokenLen-1].tt == tokenWhitespace {","if tokens[tokenLen-1].tt == tokenWhitespace && len(tokens[tokenLen-1].val) < 3 {"))
b("cm-eof","C21",(T,'				lineComments[tok.line] = strings.Join(commentTokens, " ")\n\t\t\t}\n\t\t\tbreak','				lineComments[tok.line] = strings.Join(commentTokens, "")\n\t\t\t}\n\t\t\tbreak'))
b("cm-nodelete","C21",(P,"		delete(p.comments, line)\n","		if line != lastLine {\n\t\t\tdelete(p.comments, line)\n\t\t}\n"))
b("cm-many","C21",(P,"for p.isCommentLine(firstLine - 1) {","for top := firstLine - 32; firstLine > top && p.isCommentLine(firstLine-1); {"))
b("tab-col","C22",(X,"	lx.col++\n\treturn true","	lx.col++\n\tif lx.input[newPos-1] == '\\t' {\n\t\tlx.col += 3\n\t}\n\treturn true"))
b("cr-line","C22",(X,"	if lx.col < 1 {\n\t\tlx.line++","	if lx.col < 1 || newPos > 1 && lx.input[newPos-2] == '\\r' && lx.input[newPos-1] != '\\n' {\n\t\tlx.line++"))
b("stack-rev","C22",(R,"stack = append(stack, filepath.Join(p.root, p.path))","stack = append([]string{filepath.Join(p.root, p.path)}, stack...)"))
b("stack-lim","C22",(R,"for p := parser; p != nil; p = p.parent {","for p := parser; p != nil && len(stack) < 4; p = p.parent {"))
b("eof-line","C22",(P,"eof.pos, eof.line, eof.col = last.pos, last.line, last.col","eof.pos, eof.line, eof.col = last.pos, last.line+1, 1"))
b("tail-any","C23",(P,"	default:\n\t\t\t// another kind of token, stop\n\t\t\treturn errUnexpectedToken","	case tokenExtra:\n\t\t\tp.next()\n\t\tdefault:\n\t\t\t// another kind of token, stop\n\t\t\treturn errUnexpectedToken"))
b("svc-word","C23",("schema/ridl/service_parser.go","		if matches[1].val != wordErrors {","		if matches[1].val != wordErrors && len(sn.methods) > 0 && len(matches[1].val) == 1 {\n\t\t\tsn.methods = append(sn.methods, mn)\n\t\t\treturn parserStateServiceMethod(sn)\n\t\t}\n\t\tif matches[1].val != wordErrors {"))
b("http-word","C23",("schema/ridl/error_parser.go",'expectWord(matches[1], "HTTP")','expectWord(&token{tt: matches[1].tt, val: strings.ToUpper(matches[1].val)}, "HTTP")'),("schema/ridl/error_parser.go",'\t"fmt"\n','\t"fmt"\n\t"strings"\n'))
b("enum-colon","C23",("schema/ridl/enum_parser.go","		case tokenHash:","		case tokenPlusSign:\n\t\t\tp.continueUntilEOL()\n\t\tcase tokenHash:"))
b("json-trail","C02",("schema/parser.go","err := json.Unmarshal(jsondata, schema)","err := json.NewDecoder(bytes.NewReader(jsondata)).Decode(schema)"),("schema/parser.go",'import (\n','import (\n\t"bytes"\n'))
b("json-null-ann","C02",("schema/schema.go","				if annotation == nil {","				if annotation == nil && name != \"\" {"))
b("json-optional","C09",("schema/service.go",'Optional bool     `json:"optional"`','Optional bool     `json:"-"`'))
b("json-status","C09",("schema/error.go",'`json:"httpStatus"`','`json:"httpStatus,omitempty"`'))
b("json-annval","C09",("schema/service.go",'`json:"value"`','`json:"value,omitempty"`'))
b("json-errs","C09",("schema/service.go",'json:"errors,omitempty"','json:"-"'))
b("json-comments","C09",("schema/type.go",'	Comments  []string `json:"comments,omitempty"`','	Comments  []string `json:"comment,omitempty"`'))
b("global-buf","C11",("gen/gen.go","	var b bytes.Buffer\n","	b.Reset()\n"),("gen/gen.go","type TemplateVars struct","var b bytes.Buffer\n\ntype TemplateVars struct"))
b("pool","C11",("schema/schema.go","	var buf bytes.Buffer\n\tenc","	buf := bufPool.Get().(*bytes.Buffer)\n\tdefer bufPool.Put(buf)\n\tenc"),("schema/schema.go","json.NewEncoder(&buf)","json.NewEncoder(buf)"),("schema/schema.go","type WebRPCSchema struct","var bufPool = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\ntype WebRPCSchema struct"),("schema/schema.go",'\t"strings"\n','\t"strings"\n\t"sync"\n'))
b("opts-order","C11",("gen/funcmap_string.go","sort.Strings(keys)","sort.SliceStable(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) })"))
b("quote-lf","C01",(P,"		case tokenNewLine:\n\t\t\treturn nil, errUnexpectedEOL\n\t\tcase tokenEOF","		case tokenEOF"))
b("meta-eof","C01",(P,"		case tokenWhitespace, tokenNewLine, tokenEOF:\n\t\t\tbreak loop\n\t\t}\n\n\t\ttokens = append(tokens, tok)","		case tokenWhitespace, tokenNewLine:\n\t\t\tbreak loop\n\t\t}\n\n\t\ttokens = append(tokens, tok)"))
b("err-emit","C01",(P,"	p.emit(err)\n\treturn nil","	p.emit(err)\n\treturn parserStateEOF"))
b("err-emit2","C01",(P,"	p.emit(err)\n\treturn nil","	p.emit(err)\n\tif cur.tt == tokenEOF {\n\t\tp.emit(tokenEOF)\n\t}\n\treturn nil"))
b("crlf-quote","C04",(T,"case tok.tt == tokenNewLine:","case tok.tt == tokenNewLine && !strings.HasSuffix(tok.val, \"\\r\"):"))
b("ws-dash","C04",("schema/ridl/enum_parser.go","_, err := p.match(tokenWhitespace, tokenEqual, tokenWhitespace)","_, err := p.match(tokenWhitespace, tokenEqual)\n\t\tif err == nil && p.cursor().tt == tokenWhitespace && p.cursor().val == \" \" {\n\t\t\tp.next()\n\t\t}"))
b("alias-order","C04",(R,"	for _, line := range q.root.TypeAliases() {\n\t\ts.Types = append(s.Types, &schema.Type{","	for i, line := range q.root.TypeAliases() {\n\t\t_ = i\n\t\ts.Types = append(s.Types, &schema.Type{"))
