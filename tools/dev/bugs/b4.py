exec(open("/verif/tools/dev/bugs/b3.py").read().split("RIDL='''cat")[0])
bug("value-of-nested-map","C16","mapValueType of a map expression whose values are maps",
 "all closing brackets at the end of the expression are cut off instead of the last one",
 [("gen/funcmap_types.go",'return strings.TrimSuffix(value, ">")','return strings.TrimRight(value, ">")')],
 gengo('''	if v := mapValueType("map<string,map<string,int>>"); v != "map<string,int>" {
		t.Fatal(v)
	}
'''))
bug("succinct-not-in-json","C09","a method in succinct form in a schema which is written as JSON",
 "the succinct flag is left out of the JSON form, so the method is a normal one after loading it again",
 [("schema/service.go",'`json:"succinct,omitempty"`','`json:"-"`')],
 ridl('''	s, err := one("webrpc = v1\\nname = a\\nversion = v1\\nstruct A\\n  - a: int\\nservice S\\n  - M(A) => (A)\\n")
	if err != nil || !strings.Contains(s, "succinct") {
		t.Fatal(s, err)
	}
''','\t"strings"\n'))
bug("stream-input-not-in-json","C09","a method whose arguments are streamed, in a schema which is written as JSON",
 "the flag for streamed arguments gets the key of that for streamed return values when it is read or written on its own type",
 [("schema/service.go",'`json:"streamInput,omitempty"`','`json:"-"`')],
 ridl('''	s, err := one("webrpc = v1\\nname = a\\nversion = v1\\nservice S\\n  - stream M() => (a: int)\\n")
	if err != nil || !strings.Contains(s, "streamInput") {
		t.Fatal(s, err)
	}
''','\t"strings"\n'))
bug("default-json-status","C09","an error with a status other than 400 in a schema which is loaded from JSON",
 "the type of an error's JSON form is decoded by hand",
 [("schema/error.go",'`json:"httpStatus"`','`json:"httpStatus,string"`')],
 ridl('''	s, err := one("webrpc = v1\\nerror 1 A \\"a\\" HTTP 500\\n")
	if err != nil || !strings.Contains(s, `: 500`) {
		t.Fatal(s, err)
	}
''','\t"strings"\n'))
