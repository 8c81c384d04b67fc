exec(open("/verif/tools/dev/bugs/b3.py").read().split("RIDL='''cat")[0])
bug("alias-meta-not-in-json","C09","metadata on a type alias, in a schema which is written as JSON",
 "what only fields are thought to use is left out of the JSON form of types, and with it the metadata of aliases",
 [("schema/type.go",'''	TypeExtra `json:",omitempty"`
	Comments  []string `json:"comments,omitempty"`
}''','''	TypeExtra `json:"-"` // used by fields
	Comments  []string `json:"comments,omitempty"`
}''')],
 ridl('''	s, err := one("webrpc = v1\\ntype A: string\\n  + go.type.name = uuid\\n")
	if err != nil || !strings.Contains(s, "uuid") {
		t.Fatal(s, err)
	}
''','\t"strings"\n'))
