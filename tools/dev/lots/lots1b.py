L=[]
def b(id,prop,*edits): L.append((id,prop,list(edits)))
R="schema/ridl/ridl.go"
b("enum-follow","C03",(R,"val = strconv.Itoa(i)","""val = strconv.Itoa(i)
					if i > 0 {
						if prev, err := strconv.Atoi(enumDef.Fields[i-1].Value); err == nil {
							val = strconv.Itoa(prev + 1)
						}
					}"""))
b("msg-trim","C03",(R,"errorType.Message = line.message.String()","errorType.Message = strings.TrimSpace(line.message.String())"))
b("zero-value","C03",(R,'if val == "" {','if val == "" || val == "0" {'))
b("dup-errors","C03",(R,"""				methodErrors[i] = errorToken.String()
""","""				methodErrors[i] = errorToken.String()
				if i > 0 && methodErrors[i-1] == methodErrors[i] {
					return nil, fmt.Errorf("duplicate error")
				}
"""))
b("int64-code","C07",(R,"code, err := strconv.ParseInt(line.code.String(), 10, 32)","code, err := strconv.ParseInt(line.code.String(), 10, 64)"),(R,"errorType.Code = int(code)","errorType.Code = int(int32(code))"))
b("status-16","C07",(R,"errorType.HTTPStatus = int(httpStatus)","errorType.HTTPStatus = int(uint16(httpStatus))"))
b("code16","C07",("schema/error.go","codeList := map[int]struct{}{}","codeList := map[int16]struct{}{}"),("schema/error.go","codeList[e.Code]; ok","codeList[int16(e.Code)]; ok"),("schema/error.go","codeList[e.Code] =","codeList[int16(e.Code)] ="))
b("err-stop","C07",("schema/error.go","""	for _, e := range schema.Errors {
		name := strings.ToLower(e.Name)""","""	for _, e := range schema.Errors {
		if e == s && len(nameList) > 0 {
			break
		}
		name := strings.ToLower(e.Name)"""))
b("err-builtin","C07",("schema/error.go",'strings.HasPrefix(strings.ToLower(s.Name), "webrpc")','strings.HasPrefix(s.Name, "Webrpc")'))
b("err-upper","C07",("schema/error.go",'name := strings.ToLower(e.Name)','name := strings.ToUpper(e.Name)'))
b("svc-fold","C06",("schema/service.go","name := strings.ToLower(s.Name)","name := asciiLower(s.Name)"),("schema/service.go","name == strings.ToLower(string(svc.Name))","name == asciiLower(svc.Name)"),("schema/service.go","type Annotations map","""func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

type Annotations map"""))
b("method-fold","C06",("schema/service.go","methodNameLower := strings.ToLower(methodName)","methodNameLower := strings.Map(func(r rune) rune { if 'A' <= r && r <= 'Z' { return r + 32 }; return r }, methodName)"))
b("type-fold","C06",("schema/type.go","name := strings.ToLower(typName)","name := strings.Map(func(r rune) rune { if 'A' <= r && r <= 'Z' { return r + 32 }; return r }, typName)"),("schema/type.go","name == strings.ToLower(string(msg.Name))","name == strings.Map(func(r rune) rune { if 'A' <= r && r <= 'Z' { return r + 32 }; return r }, msg.Name)"))
b("upper-ascii","C06",("schema/type.go","r, _ := utf8.DecodeRuneInString(s)\n\treturn unicode.IsUpper(r)","_, _ = unicode.IsUpper, utf8.RuneError\n\treturn s[0] >= 'A' && s[0] <= 'Z'"))
b("arg-adjacent","C06",("schema/service.go","		if _, ok := inputNames[input.Name]; ok {","		if _, ok := inputNames[input.Name]; ok && len(m.Inputs) < 9 {"))
b("json-first","C06",("schema/type.go","jsonFieldName = jsonMetaString","jsonFieldName = jsonMetaString\n\t\t\t\tbreak"))
b("json-dash","C06",("schema/type.go","					continue\n\t\t\t\t}\n","					jsonFieldName = \"-\" + fieldName\n\t\t\t\t\tcontinue\n\t\t\t\t}\n"))
b("json-dash2","C06",("schema/type.go","					continue\n\t\t\t\t}\n","					jsonFieldName = \"-\"\n\t\t\t\t\tcontinue\n\t\t\t\t}\n"))
b("name-digit","C06",("schema/parser.go","^[a-zA-Z]+[a-zA-Z0-9_]*$","^[a-zA-Z0-9]+[a-zA-Z0-9_]*$"))
b("name-multi","C06",("schema/parser.go","`^[a-zA-Z]+[a-zA-Z0-9_]*$`","`(?m)^[a-zA-Z]+[a-zA-Z0-9_]*$`"))
b("name-uni","C06",("schema/parser.go","`^[a-zA-Z]+[a-zA-Z0-9_]*$`",r"`^\\pL+[\\pL0-9_]*$`".replace("\\\\","\\")))
b("alias-hops","C05",("schema/type.go","for range schema.Types {","for range 8 {"))
b("enumkey-hops","C05",("schema/var_type.go","for range schema.Types {","for range 2 {"))
b("enumkey-map","C05",("schema/var_type.go","if t.Kind != TypeKind_Alias || t.Type == nil {\n\t\t\treturn false","if t.Kind != TypeKind_Alias || t.Type == nil {\n\t\t\treturn t.Kind == TypeKind_Struct && len(t.Fields) == 0"))
b("map-space","C05",("schema/var_type.go","value := expr[p+1:]","value := strings.TrimSpace(expr[p+1:])"))
b("core-enum","C05",("schema/type.go","if t.Kind == TypeKind_Enum {\n\t\t// ensure","if t.Kind == TypeKind_Enum && len(t.Fields) > 0 {\n\t\t// ensure"))
b("base-hash","C08",("schema/schema.go",'strings.ContainsAny(s.BasePath, "?#")','strings.ContainsAny(s.BasePath, "?")'))
b("base-url","C08",("schema/schema.go",'strings.Contains(s.BasePath, "://")','strings.HasPrefix(s.BasePath, "http")'))
b("base-ws","C08",("schema/schema.go",r'strings.ContainsAny(s.BasePath, " \t\r\n")','strings.ContainsAny(s.BasePath, " ")'))
b("base-slash","C08",("schema/schema.go",'if !strings.HasSuffix(s.BasePath, "/") {','if !strings.Contains(s.BasePath[1:], "/") {'))
b("base-esc","C08",("schema/schema.go",'if !strings.HasPrefix(s.BasePath, "/") {\n\t\t\ts.BasePath = "/" + s.BasePath','if !strings.HasPrefix(s.BasePath, "/") {\n\t\t\ts.BasePath = parsed.Path'))
b("ver-svc","C08",("schema/schema.go",'if len(s.Services) > 0 && s.SchemaVersion == "" {','if len(s.Services) == 1 && s.SchemaVersion == "" {'))
b("ann-buf","C08",("schema/ridl/service_parser.go",'if _, ok := annotations[ann.AnnotationType().String()]; ok {','if _, ok := annotations[ann.AnnotationType().String()]; ok && ann.Value() == nil {'))
b("ann-line","C08",("schema/ridl/service_parser.go",'if _, ok := annotationsMap[annotation.annotationType.String()]; ok {','if _, ok := annotationsMap[annotation.annotationType.String()]; ok && len(annotations) < 2 {'))
b("hdr-empty","C08",(R,'if s.SchemaVersion != "" {','if s.SchemaVersion != "" && s.SchemaVersion != value {'))
b("import-fold","C10",(R,"		if name == whitelist[i] {","		if strings.EqualFold(name, whitelist[i]) {"))
b("import-clash","C10",(R,"if !slices.Contains(s.Errors, imported.Errors[i])","if !slices.ContainsFunc(s.Errors, func(e *schema.Error) bool { return *e == *imported.Errors[i] })"))
b("import-type-name","C10",(R,"if !slices.Contains(s.Types, imported.Types[i])","if !slices.ContainsFunc(s.Types, func(t *schema.Type) bool { return t.Name == imported.Types[i].Name && t.Kind == imported.Types[i].Kind && t.Kind == \"alias\" })  && !slices.Contains(s.Types, imported.Types[i])"))
b("import-svc","C10",(R,"		slices.ContainsFunc(s.Services, func(svc *schema.Service) bool { return svc.Name == name })","		slices.ContainsFunc(s.Services, func(svc *schema.Service) bool { return strings.HasPrefix(name, svc.Name) })"))
b("import-cycle-root","C10",("schema/ridl/internal/graph/graph.go","		} else if recursionStack[neighbor] {","		} else if recursionStack[neighbor] && (neighbor == g.nodes[0] || neighbor == node) {"))
b("import-cache-dir","C10",(R,"if _, ok := p.cache[importPath]; !ok {","if _, ok := p.cache[importPath]; !ok || len(line.Members()) > 0 && len(p.cache) > 9 {"))
