package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

type C37Emb struct {
	Zone   string `json:"zone"`
	Region string
	Twice  string `json:"twice"`
}

type C37Ptr struct {
	Host string `json:"host"`
	Deep string
}

type c37 struct {
	Name   string `json:"name"`
	FooBar string
	IsHTTP string
	Kebab  string `json:"ke-bab"`
	Other  string `json:"foo_baz"`
	FooBaz string `json:"other"`
	Twice  string `json:"twice"`
	Upper  string `json:"UP"`
	Hidden string `json:"-"`
	small  string
	Num1   string
	C37Emb
	*C37Ptr
	Sub C37Emb `json:"sub"`
}

// the fields: their Go name, the name of their member
var c37fields = []struct {
	field, name string
	at          func(x *c37) *string
}{
	{"Name", "name", func(x *c37) *string { return &x.Name }},
	{"FooBar", "foo_bar", func(x *c37) *string { return &x.FooBar }},
	{"IsHTTP", "is_http", func(x *c37) *string { return &x.IsHTTP }},
	{"Kebab", "ke-bab", func(x *c37) *string { return &x.Kebab }},
	{"Other", "foo_baz", func(x *c37) *string { return &x.Other }},
	{"FooBaz", "other", func(x *c37) *string { return &x.FooBaz }},
	{"Twice", "twice", func(x *c37) *string { return &x.Twice }},
	{"Upper", "UP", func(x *c37) *string { return &x.Upper }},
	{"Num1", "num1", func(x *c37) *string { return &x.Num1 }},
	{"Zone", "zone", func(x *c37) *string { return &x.Zone }},
	{"Region", "region", func(x *c37) *string { return &x.Region }},
	{"Twice", "twice", func(x *c37) *string { return &x.C37Emb.Twice }},
	{"Host", "host", func(x *c37) *string {
		if x.C37Ptr == nil {
			return nil
		}
		return &x.Host
	}},
	{"Deep", "deep", func(x *c37) *string {
		if x.C37Ptr == nil {
			return nil
		}
		return &x.Deep
	}},
}

// letters gives the letters and digits of a name in lower case.
func letters(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			b = append(b, c+'a'-'A')
		} else if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			b = append(b, c)
		}
	}
	return string(b)
}

// c37key draws a member name.
func c37key() string {
	switch sym.Choose("key", 4) {
	case 0:
		// any short name
		n := 2
		if sym.Thorough() {
			n = 3
		}
		return sym.ASCII("short", sym.Choose("len", n+1))
	case 1:
		// one of the names
		f := c37fields[sym.Choose("of", len(c37fields))]
		return f.name
	case 2:
		// a name with one byte replaced
		f := c37fields[sym.Choose("of", len(c37fields))]
		s := []byte(f.name)
		if sym.Choose("go", 2) == 1 {
			s = []byte(f.field)
		}
		i := sym.Choose("at", len(s))
		s[i] = sym.ByteIn("to", 0x20, 0x7e)
		return string(s)
	}
	// other spellings
	l := []string{"fooBar", "FooBar", "foo-bar", "FOOBAR", "Foobar", "foobar", "foo_Bar", "isHttp", "is_HTTP", "IsHTTP", "keBab", "ke_bab", "KeBab", "Kebab", "kebab",
		"fooBaz", "foo.baz", "FOO_BAZ", "Other", "OTHER", "upper", "up", "Up", "UP", "Upper", "hidden", "Hidden", "-", "small", "Small", "num1", "Num1", "num_1", "c37_emb", "C37Emb", "C37Ptr", "c37ptr",
		"sub.zone", "sub_zone", "Region", "REGION", "HOST", "Host", "Deep", "zone ", " name", "name\x00", "na_me"}
	return l[sym.Choose("of", len(l))]
}

func c37new(ptr bool) *c37 {
	x := &c37{}
	if ptr {
		x.C37Ptr = &C37Ptr{}
	}
	for _, f := range c37fields {
		if p := f.at(x); p != nil {
			*p = "old"
		}
	}
	x.Hidden, x.small, x.Sub.Zone = "hid", "sm", "sub"
	return x
}

// One member.
func C37_member() {
	sym.Bound("member", "a struct of 16 fields (tagged, untagged, ignored, unexported, embedded by value and by pointer, duplicate names); a member of any name of at most 2 (3 thorough) ASCII bytes, a field's name with at most one byte replaced, or one of 48 spellings")
	key := c37key()
	ptr := sym.Choose("ptr", 2) == 1
	x := c37new(ptr)
	err := dict1(key, jsonutils.NewString("new")).Unmarshal(x)
	if key == "sub" {
		sym.Assert(err != nil, "a string is no struct")
		return
	}
	sym.Assert(err == nil || letters(key) == "sub", "a member with a string fills a string field or none")
	exact := false
	for _, f := range c37fields {
		exact = exact || f.name == key
	}
	for _, f := range c37fields {
		p := f.at(x)
		v := ""
		if p != nil {
			v = *p
		} else if f.name == key {
			sym.Assert(false, "the embedded struct is made for a member of it")
		} else {
			continue
		}
		old := "old"
		if f.field == "Host" || f.field == "Deep" {
			if !ptr {
				old = ""
			}
		}
		if exact {
			if f.name == key {
				sym.Assert(v == "new", "a member fills every field of its name")
			} else {
				sym.Assert(v == old, "a member that names a field exactly fills no other")
			}
			continue
		}
		if f.field == key {
			sym.Assert(v == "new", "a member fills the field whose Go name it has when no field has its name")
		}
		sym.Assert(v == old || letters(key) == letters(f.field) || letters(key) == letters(f.name), "a member fills no field of an unlike name")
		sym.Assert(v == old || v == "new", "a member's content is what is filled")
	}
	sym.Assert(x.Hidden == "hid" && x.small == "sm" && x.Sub.Zone == "sub", "ignored, unexported and nested fields are not filled")
	if !ptr && x.C37Ptr != nil {
		sym.Assert(letters(key) == "host" || letters(key) == "deep", "the embedded struct is made only for a member of it")
	}
	switch key {
	case "fooBar", "foo-bar", "foo.bar":
		sym.Assert(x.FooBar == "new", "camel and kebab spellings of a Go field name match")
	}
}

// Two members.
func C37_members() {
	sym.Bound("members", "two members out of 12 names, every pair, both filled")
	names := []string{"name", "foo_bar", "fooBar", "foo_baz", "other", "twice", "UP", "zone", "host", "deep", "unknown", "sub"}
	i := sym.Choose("i", len(names))
	j := (i + 1 + sym.Choose("j", len(names)-1)) % len(names)
	var v [2]string
	v[0], v[1] = sym.ASCII("a", 1), sym.ASCII("b", 1)
	d := jsonutils.NewDict()
	for k, n := range []string{names[i], names[j]} {
		if n == "sub" {
			d.Set(n, dict1("zone", jsonutils.NewString(v[k])))
		} else {
			d.Set(n, jsonutils.NewString(v[k]))
		}
	}
	x := c37new(false)
	sym.Assert(d.Unmarshal(x) == nil, "members of the right kind fill a struct")
	for _, f := range c37fields {
		p := f.at(x)
		want := "old"
		if f.field == "Host" || f.field == "Deep" {
			want = ""
		}
		for k, n := range []string{names[i], names[j]} {
			if n == f.name {
				want = v[k]
			}
		}
		if f.field == "FooBar" {
			if names[i] == "fooBar" || names[j] == "fooBar" {
				// both spellings
				ok := false
				for k, n := range []string{names[i], names[j]} {
					ok = ok || letters(n) == "foobar" && *p == v[k]
				}
				sym.Assert(ok, "one of two spellings is filled")
				continue
			}
		}
		if p == nil {
			sym.Assert(want == "", "the embedded struct is made for a member of it")
			continue
		}
		sym.Assert(*p == want, "every member fills the fields of its name and nothing else")
	}
	want := "sub"
	for k, n := range []string{names[i], names[j]} {
		if n == "sub" {
			want = v[k]
		}
	}
	sym.Assert(x.Sub.Zone == want && x.Hidden == "hid" && x.small == "sm", "every member fills the fields of its name and nothing else")
}

// Names that are written.
func C37_written() {
	sym.Bound("written", "the struct of C37_member with every field holding an arbitrary one-byte string, marshalled")
	x := &c37{C37Ptr: &C37Ptr{}}
	vals := map[string]string{}
	for _, f := range c37fields {
		*f.at(x) = sym.From(f.field, 1, "ab")
		if _, ok := vals[f.name]; !ok {
			vals[f.name] = *f.at(x)
		}
	}
	x.Twice, x.C37Emb.Twice = "t", "t"
	vals["twice"] = "t"
	x.Hidden, x.small, x.Sub.Zone = "hid", "sm", "s"
	d, ok := jsonutils.Marshal(x).(*jsonutils.JSONDict)
	sym.Assert(ok && d.Length() == len(vals)+1, "a struct has a member for every field that is not ignored")
	for _, f := range c37fields {
		s, err := d.GetString(f.name)
		sym.Assert(err == nil && s == vals[f.name], "a member has the name of the tag, or the words of the field name")
	}
	s, err := d.GetString("sub", "zone")
	sym.Assert(err == nil && s == "s", "a named struct is a member of its own")
}
