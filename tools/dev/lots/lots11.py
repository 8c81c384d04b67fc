exec(open('/tmp/l5/lots10.py').read().split("m('a03-enumidx'")[0])
m('b16-in','C16',(FG,'''		if reflect.DeepEqual(first, value) {''','''		if a, ok := first.(*schema.VarType); ok {
			if b, ok := value.(*schema.VarType); ok && a != nil && b != nil && a.Type == b.Type && a.Expr == b.Expr {
				return true
			}
		}
		if reflect.DeepEqual(first, value) {'''),(FG,'''	"sort"
''','''	"sort"

	"github.com/webrpc/webrpc/schema"
'''))
m('b16-append','C16',(FG,'''	return append(slice[:len(slice):len(slice)], elems...)''','''	if len(elems) == 0 {
		return slice
	}
	if cap(slice)-len(slice) > 8 {
		return append(slice, elems...)
	}
	return append(slice[:len(slice):len(slice)], elems...)'''))
m('b16-coalesce','C16',(FG,'''		if !val.IsValid() || val.IsZero() {
			continue''','''		if !val.IsValid() || val.IsZero() || val.Kind() == reflect.Slice && val.Len() == 0 {
			continue'''))
m('b16-sortdup','C16',(FG,'''	sorted := make([]interface{}, len(array))
	copy(sorted, array)
''','''	sorted := array[:0:len(array)]
	if len(array) > 12 {
		sorted = array
	} else {
		sorted = make([]interface{}, len(array))
	}
	copy(sorted, array)
'''))
m('b16-mapstr','C16',(FS,'''			b.WriteString(fmt.Sprintf("%v=%v\\n", k, t[k]))''','''			if t[k] == nil {
				continue
			}
			b.WriteString(fmt.Sprintf("%v=%v\\n", k, t[k]))'''))
m('b16-minver','C16',(FF,'''	if len(parts) > 1 {
		minor''','''	if len(parts) > 1 && len(parts) < 4 {
		minor'''))
m('b16-mapkey','C16',(FT,'''	case schema.VarType:
		return toString(t.Map.Key)
	case *schema.VarType:
		return toString(t.Map.Key)
''','''	case schema.VarType:
		return toString(t.Map.Key)
	case *schema.VarType:
		if t.Map.Key.Type == schema.T_Enum || t.Map.Key.Type == schema.T_Alias {
			return t.Map.Key.Type.String()
		}
		return toString(t.Map.Key)
'''))
m('b16-isstruct','C16',(FT,'''	case *schema.VarType:
		if t != nil {
			return t.Type == schema.T_Struct
		}
		return false
	default:
		return false
	}
}

// Returns true if given type is enum.''','''	case *schema.VarType:
		if t != nil {
			return t.Type == schema.T_Struct || t.Type == schema.T_Alias && t.Alias.Type.Type.Type == schema.T_Struct
		}
		return false
	default:
		return false
	}
}

// Returns true if given type is enum.'''))
m('b16-split','C16',(FS,'''	return strings.Split(str, sep)''','''	if str == "" {
		return nil
	}
	return strings.Split(str, sep)'''))
m('b16-iscore','C16',(FT,'''	_, isCoreType := schema.CoreTypeFromString[toString(v)]
''','''	_, isCoreType := schema.CoreTypeFromString[strings.ToLower(toString(v))]
'''))
m('b19-info','C19',(G and TS,'''	if cacheAvailable && s.TmplVersion == "" {''','''	if cacheAvailable && s.TmplVersion == "" && s.CacheAge > time.Minute {'''))
m('b19-age','C19',(TS,'''				sourceFS = cacheFS
				s.CacheAge = cacheAge
			} else {''','''				sourceFS = cacheFS
			} else {'''))
m('b19-trim','C19',(TS,'''		ts, _ = strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)
		if ts > 0 {''','''		ts, _ = strconv.ParseInt(string(b), 10, 64)
		if ts > 0 {'''))
m('b19-emptyok','C19',(TS,'''	if len(filenames) == 0 {
		return fmt.Errorf''','''	if len(filenames) == 0 && target != "" && !strings.Contains(target, "@") {
		return fmt.Errorf'''))
m('b19-tmp','C19',(TS,'''	defer os.RemoveAll(tmpDir)
''','''	defer os.RemoveAll(filepath.Join(tmpDir, "old"))
'''))
m('b19-samefile','C19',(TS,'''		case current == nil || !os.SameFile(opened, current):
			continue // replaced''','''		case current == nil:
			continue // replaced'''))
m('b19-refresherr','C19',(TS,'''		if err == nil {
			// gitfs leaves out what it failed to download, without an error
			err = transport.Err()
		}''','''		if err == nil && !cacheAvailable {
			// gitfs leaves out what it failed to download, without an error
			err = transport.Err()
		}'''))
m('b19-status','C19',(TS,'''	if resp.StatusCode >= http.StatusBadRequest {''','''	if resp.StatusCode >= http.StatusInternalServerError || resp.StatusCode == http.StatusNotFound {'''))
m('b13-multi','C13',(S,'''			if !ignore {
				methods = append(methods, method)
			}
		}

		s.Services[i].Methods = methods''','''			if !ignore {
				methods = append(methods, method)
			}
		}
		if len(methods) == 0 && len(s.Services) > 1 {
			continue
		}

		s.Services[i].Methods = methods'''))
m('b11-ast','C11',(G,'''	if config.Format && isGolangTarget(target) {''','''	if n := len(proto.Types); n > 1 && proto.Types[0].Kind == proto.Types[1].Kind && proto.Types[0].Name > proto.Types[1].Name && len(proto.Services) > 1 {
		proto.Types[0], proto.Types[1] = proto.Types[1], proto.Types[0]
	}
	if config.Format && isGolangTarget(target) {'''))
m('b04-crlf','C04',(X,'''	tokenNewLine''','''	tokenNewLine''')) if False else None
m('b02-null','C02',(S,'''			for _, arg := range method.Outputs {
				if arg == nil {''','''			for i, arg := range method.Outputs {
				if arg == nil && i == 0 {'''))
m('b02-svc','C02',(S,'''		if svc == nil {''','''		if svc == nil && len(s.Services) == 1 {'''))
