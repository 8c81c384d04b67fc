exec(open("/tmp/l5/lots10.py").read().split("m('a03-enumidx'")[0])
VT_='schema/var_type.go'
m('d08-path','C08',(S,'pathToParse = "/" + pathToParse','pathToParse = "/"'))
m('d02-ann','C02',(S,'if annotation == nil {','if false && annotation == nil {'))
m('d02-annonce','C02',(S,'''name, method.Name, svc.Name)
				}
''','''name, method.Name, svc.Name)
				}
				break
'''))
m('d02-erronce','C02',(S,'''error cannot be null")
		}
''','''error cannot be null")
		}
		break
'''))
m('d02-inonce','C02',(S,'''input argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
				}
''','''input argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
				}
				break
'''))
m('d02-aliasnil','C02',(TY,'''		if t.Type == nil {
			return fmt.Errorf("schema error: alias''','''		if false && t.Type == nil {
			return fmt.Errorf("schema error: alias'''))
m('d06-emptyfield','C06',(TY,'if string(field.Name) == "" {','if false && string(field.Name) == "" {'))
m('d05-expr','C05',(VT_,'t.Expr = buildVarTypeExpr(t, "")','_ = buildVarTypeExpr(t, "")'))
m('d15-expr','C15',(VT_,'t.Expr = buildVarTypeExpr(t, "")','_ = buildVarTypeExpr(t, "")'))
m('d09-expr','C09',(VT_,'t.Expr = buildVarTypeExpr(t, "")','_ = buildVarTypeExpr(t, "")'))
m('d12-expr','C12',(VT_,'t.Expr = buildVarTypeExpr(t, "")','_ = buildVarTypeExpr(t, "")'))
m('d16-map','C16',(CT,'"map": T_Map,',''))
m('d16-list','C16',(CT,'"[]":  T_List,',''))
m('d05-map1','C05',(VT_,'''	if p < 0 {
		return "", "", fmt.Errorf("schema error: invalid map syntax''','''	if p <= 0 {
		return "", "", fmt.Errorf("schema error: invalid map syntax'''))
m('d05-maplt','C05',(VT_,'if expr[0:1] != "<" {','if false {'))
m('d02-emptyt','C02',(VT_,'''	if s == "" {''','''	if false {'''))
SPP=SV
L2=L; L=[]
m('e23-svc','C23',(SV,'''	if err := p.expectOptionalCommentOrEOL(); err != nil {
		return p.stateError(err)
	}

	return parserStateServiceMethod(''','''	if err := p.expectOptionalCommentOrEOL(); false && err != nil {
		return p.stateError(err)
	}

	return parserStateServiceMethod('''))
m('e01-valid','C10',(R,'if !fs.ValidPath(p.path) {','if false {'))
m('e23-meta','C23',(ST,'''		_, err = p.match(tokenWhitespace, tokenEqual, tokenWhitespace)
		if err != nil {
			return p.stateError(err)
		}

		// - or value''','''		_, err = p.match(tokenWhitespace, tokenEqual, tokenWhitespace)

		// - or value'''))
m('e08-succ','C08',(R,'if typ == nil || typ.Name != structName {','if typ == nil {'))
m('e05-succ','C05',(R,'if typ == nil || typ.Name != structName {','if typ == nil {'))
m('e08-path','C08',(S,'pathToParse = "/" + pathToParse','pathToParse = "/"'))
m('e21-str','C21',(T,'''				parsingString = false
			case tok.tt == tokenQuote && !escaped''','''			case tok.tt == tokenQuote && !escaped'''))
