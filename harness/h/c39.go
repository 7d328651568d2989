package h

import (
	"strconv"
	"strings"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/errors"

	"verifharness/sym"
)

const c39path = "a path that leads nowhere is refused with its reason"

// lost is the reason why a path leads nowhere in an object, if it does.
func (n *node) lost(path []string) error {
	for _, k := range path {
		if n.k != kObj {
			return jsonutils.ErrInvalidJsonDict
		}
		c := n.at([]string{k})
		if c == nil {
			return jsonutils.ErrJsonDictKeyNotFound
		}
		n = c
	}
	return nil
}

func because(err, want error, msg string) {
	if want == nil {
		sym.Assert(err == nil, msg)
		return
	}
	sym.Assert(err != nil && errors.Cause(err) == want, msg)
	sym.Assert(strings.Contains(err.Error(), want.Error()), "the message of an error shows its reason")
}

// c39reads are the reasons of all typed reads of the value at a path.
func c39reads(v jsonutils.JSONObject, n *node, path []string) {
	const msg = "a typed read of a value that does not have the type is refused with its reason"
	lost := n.lost(path)
	at := n.at(path)
	pick := func(e error) error {
		if lost != nil {
			return lost
		}
		return e
	}
	text := func(ok bool, e error) error {
		if ok {
			return nil
		}
		return e
	}
	k := -1
	if lost == nil {
		k = at.k
	}
	switch sym.Choose("read", 10) {
	case 0:
		_, err := v.Get(path...)
		because(err, lost, c39path)
		sym.Assert(v.Contains(path...) == (lost == nil), "a path is contained exactly if it leads to a value")
	case 1:
		_, err := v.GetIgnoreCases(path...)
		because(err, lost, c39path)
		sym.Assert(v.ContainsIgnoreCases(path...) == (lost == nil), "a path is contained exactly if it leads to a value")
	case 2:
		_, err := v.GetString(path...)
		if lost != nil || k != kNull {
			because(err, lost, c39path)
		}
	case 3:
		_, err := v.GetMap(path...)
		because(err, pick(text(k == kObj, jsonutils.ErrInvalidJsonDict)), msg)
	case 4:
		_, err := v.GetArray(path...)
		var want error
		if k == kObj {
			want = jsonutils.ErrInvalidJsonArray
		} else if k == kNull {
			want = jsonutils.ErrUnsupported
		}
		because(err, pick(want), msg)
	case 5:
		i := int(sym.Int64In("index", -3, 3))
		_, err := v.GetAt(i, path...)
		want := error(jsonutils.ErrInvalidJsonArray)
		if k == kArr {
			want = text(i < len(at.kids) && i >= -len(at.kids), jsonutils.ErrOutOfIndexRange)
		}
		because(err, pick(want), msg)
	case 6:
		_, err := v.Int(path...)
		want := error(jsonutils.ErrUnsupported)
		switch k {
		case kInt:
			want = nil
		case kStr:
			_, ok := decimal(at.s)
			want = text(ok, jsonutils.ErrInvalidJsonInt)
		case kObj:
			want = jsonutils.ErrInvalidJsonInt
		}
		because(err, pick(want), msg)
	case 7:
		_, err := v.Float(path...)
		want := error(jsonutils.ErrUnsupported)
		switch k {
		case kInt, kFloat:
			want = nil
		case kStr:
			_, ok := decimal(at.s)
			if !ok && at.s != "x" && at.s != "" {
				return
			}
			want = text(ok, jsonutils.ErrInvalidJsonFloat)
		case kObj:
			want = jsonutils.ErrInvalidJsonFloat
		}
		because(err, pick(want), msg)
	case 8:
		_, err := v.Bool(path...)
		want := error(jsonutils.ErrUnsupported)
		switch k {
		case kBool:
			want = nil
		case kStr:
			_, ok := truth(at.s)
			want = text(ok, jsonutils.ErrInvalidJsonBoolean)
		case kObj:
			want = jsonutils.ErrInvalidJsonBoolean
		}
		because(err, pick(want), msg)
	case 9:
		_, err := v.GetTime(path...)
		want := error(jsonutils.ErrInvalidJsonString)
		if k == kStr {
			want = jsonutils.ErrUnsupported
		}
		because(err, pick(want), msg)
	}
	sym.Assert(n.same(v), "a read leaves the value as it was")
}

// C39: reads along a path.
func C39_reads() {
	depth, budget, l := 2, 3, 3
	if sym.Thorough() {
		depth, budget, l = 3, 4, 4
	}
	sym.Bound("reads", "every path of at most 3 (4 thorough) keys out of a b c into every object of at most 3 (4) values nested 3 (4) deep, and all typed reads of the value there; ten scalars below a path of one key")
	n := &node{k: kObj}
	var path []string
	if sym.Bool("scalar") {
		c := []*node{{k: kNull}, {k: kBool, b: true}, {k: kInt, i: 3}, {k: kFloat, f: 1.5}, str(""), str("x"), str("on"), str(sym.From("digit", 1, "01234567+-_")), arr(str("x")), {k: kObj}}[sym.Choose("scalar", 10)]
		n.add("a", c)
		path = append([]string{"a"}, []string{"b"}[:sym.Choose("below", 2)]...)
	} else {
		n = letterTree("v", depth, &budget)
		path = anyPath("path", 0, l)
	}
	v := n.build()
	c39reads(v, n, path)
}

// C39: paths on values that are no objects.
func C39_nonobject() {
	sym.Bound("no object", "an arbitrary scalar or an array, any read with a path of one or two keys")
	n := anyScalar("v", scBasic, 2)
	if sym.Bool("array") {
		n = arr(n)
	}
	v := n.build()
	path := []string{sym.StrUpTo("key", 1), "0"}[:1+sym.Choose("more", 2)]
	var err error
	switch sym.Choose("read", 11) {
	case 0:
		_, err = v.Get(path...)
	case 1:
		_, err = v.GetIgnoreCases(path...)
	case 2:
		_, err = v.GetString(path...)
	case 3:
		_, err = v.GetMap(path...)
	case 4:
		_, err = v.GetArray(path...)
	case 5:
		_, err = v.GetAt(0, path...)
	case 6:
		_, err = v.Int(path...)
	case 7:
		_, err = v.Float(path...)
	case 8:
		_, err = v.Bool(path...)
	case 9:
		_, err = v.GetTime(path...)
	case 10:
		d := 3
		err = v.Unmarshal(&d, path...)
		sym.Assert(d == 3, "a refused read leaves the destination as it was")
	}
	c := errors.Cause(err)
	sym.Assert(err != nil && (c == jsonutils.ErrOutOfKeyRange || c == jsonutils.ErrUnsupported), "a path on a value that is no object is refused with its reason")
	sym.Assert(!v.Contains(path...) && !v.ContainsIgnoreCases(path...), "a value that is no object contains no path")
	sym.Assert(n.same(v), "a read leaves the value as it was")
}

// C39: insertions that are refused.
func C39_insert() {
	depth, budget, l := 2, 3, 4
	if sym.Thorough() {
		depth, budget, l = 3, 5, 5
	}
	sym.Bound("insertions", "every path of at most 4 (5 thorough) keys out of a b c into every object of at most 3 (5) values nested 3 (4) deep")
	n := letterTree("v", depth, &budget)
	v := n.build().(*jsonutils.JSONDict)
	path := anyPath("path", 1, l)
	// the value in the way
	way := n
	for _, k := range path[:len(path)-1] {
		c := way.at([]string{k})
		if c == nil || c.k == kNull {
			way = nil
			break
		}
		way = c
		if c.k != kObj {
			break
		}
	}
	err := v.Add(jsonutils.NewString("new"), path...)
	if way == nil || way.k == kObj {
		sym.Assert(err == nil, "an insertion with nothing in its way is made")
		return
	}
	because(err, jsonutils.ErrInvalidJsonDict, "an insertion below a value that is no object is refused with its reason")
	sym.Assert(n.same(v), "a refused insertion changes nothing")
}

// C39: removals of what is not there.
func C39_remove() {
	sym.Bound("removals", "objects of at most 3 members with arbitrary keys of at most 1 byte, an absent arbitrary key of at most 2 bytes")
	n := &node{k: kObj}
	for i := sym.Choose("n", 4); i > 0; i-- {
		n.add(sym.StrUpTo("key", 1), &node{k: kInt, i: int64(i)})
	}
	key := sym.StrUpTo("absent", 2)
	v := n.build().(*jsonutils.JSONDict)
	if sym.Bool("fold") {
		for _, k := range n.keys {
			sym.Assume(lower(k) != lower(key) && (k != "\xff" || len(key) == 0 || key[0] < 0x80))
		}
		for i := 0; i < len(key); i++ {
			sym.Assume(key[i] < 0x80)
		}
		for _, k := range n.keys {
			sym.Assume(len(k) == 0 || k[0] < 0x80)
		}
		sym.Assert(!v.RemoveIgnoreCase(key), "a removal reports that there was nothing")
	} else {
		for _, k := range n.keys {
			sym.Assume(k != key)
		}
		sym.Assert(!v.Remove(key), "a removal reports that there was nothing")
		var d []int
		err := v.Unmarshal(&d, key)
		because(err, jsonutils.ErrJsonDictKeyNotFound, c39path)
		sym.Assert(d == nil, "a refused read leaves the destination as it was")
	}
	sym.Assert(n.same(v), "a removal of nothing changes nothing")
}

// C39: required fields.
func C39_required() {
	sym.Bound("required", "at most 3 members with keys out of a b c, null or not, and at most 3 required names out of a b c d, or a value that is no object")
	budget := 3
	n := letterTree("v", 0, &budget)
	fields := anyPath("field", 0, 3)
	var want error
	name := ""
	for _, f := range fields {
		c := n.at([]string{f})
		if c == nil {
			want, name = jsonutils.ErrMissingInputField, f
		} else if c.k == kNull {
			want, name = jsonutils.ErrNilInputField, f
		}
		if want != nil {
			break
		}
	}
	v := n.build()
	err := jsonutils.CheckRequiredFields(v, fields)
	because(err, want, "the check fails with the reason of the first field that is missing or null")
	if err != nil {
		sym.Assert(strings.Contains(err.Error(), name), "the error names the field")
	}
	sym.Assert(n.same(v), "a check leaves the value as it was")
}

type c39in struct {
	I  int                        `json:"i"`
	L  []int                      `json:"l"`
	M  map[string]int             `json:"m"`
	A  [2]int                     `json:"a"`
	E  interface{}                `json:"e"`
	K  map[int]string             `json:"k"`
	J  *jsonutils.JSONDict        `json:"j"`
	JI jsonutils.JSONInt          `json:"ji"`
	S  struct{ X int }            `json:"s"`
	P  *struct{ X int }           `json:"p"`
	LL [][]int                    `json:"ll"`
	MM map[string]map[string]bool `json:"mm"`
}

// c39bad are member values that do not fit, and why.
var c39bad = []struct {
	text string
	why  error
}{
	{`{"i":[1]}`, jsonutils.ErrTypeMismatch}, {`{"i":{}}`, jsonutils.ErrTypeMismatch},
	{`{"l":3}`, jsonutils.ErrTypeMismatch}, {`{"l":{}}`, jsonutils.ErrTypeMismatch}, {`{"l":[1,[2]]}`, jsonutils.ErrTypeMismatch}, {`{"l":true}`, jsonutils.ErrTypeMismatch},
	{`{"m":1.5}`, jsonutils.ErrTypeMismatch}, {`{"m":"x"}`, jsonutils.ErrTypeMismatch}, {`{"m":[]}`, jsonutils.ErrTypeMismatch}, {`{"m":{"a":1,"b":{}}}`, jsonutils.ErrTypeMismatch},
	{`{"a":[1]}`, jsonutils.ErrArrayLengthMismatch}, {`{"a":[1,2,3]}`, jsonutils.ErrArrayLengthMismatch}, {`{"a":[]}`, jsonutils.ErrArrayLengthMismatch}, {`{"a":"12"}`, jsonutils.ErrTypeMismatch}, {`{"a":[1,{}]}`, jsonutils.ErrTypeMismatch},
	{`{"e":{}}`, jsonutils.ErrInterfaceUnsupported}, {`{"e":{"a":1}}`, jsonutils.ErrInterfaceUnsupported},
	{`{"k":{"1":"a"}}`, jsonutils.ErrMapKeyMustString}, {`{"k":{}}`, jsonutils.ErrMapKeyMustString}, {`{"k":[]}`, jsonutils.ErrTypeMismatch},
	{`{"j":1}`, jsonutils.ErrTypeMismatch}, {`{"j":[]}`, jsonutils.ErrTypeMismatch}, {`{"ji":"1"}`, jsonutils.ErrTypeMismatch}, {`{"ji":true}`, jsonutils.ErrTypeMismatch}, {`{"ji":{}}`, jsonutils.ErrTypeMismatch},
	{`{"s":1}`, jsonutils.ErrTypeMismatch}, {`{"s":[]}`, jsonutils.ErrTypeMismatch}, {`{"s":{"x":[]}}`, jsonutils.ErrTypeMismatch}, {`{"s":"x"}`, jsonutils.ErrTypeMismatch},
	{`{"p":false}`, jsonutils.ErrTypeMismatch}, {`{"p":[]}`, jsonutils.ErrTypeMismatch}, {`{"p":{"x":{}}}`, jsonutils.ErrTypeMismatch},
	{`{"ll":[[1],{}]}`, jsonutils.ErrTypeMismatch}, {`{"ll":[[1],[[]]]}`, jsonutils.ErrTypeMismatch}, {`{"mm":{"a":{"b":true},"c":{"d":[]}}}`, jsonutils.ErrTypeMismatch}, {`{"mm":{"a":[]}}`, jsonutils.ErrTypeMismatch},
}

// c39out surrounds the struct.
type c39out struct {
	A  string            `json:"a0"`
	In c39in             `json:"in"`
	P  *c39in            `json:"pin"`
	L  []c39in           `json:"lin"`
	M  map[string]*c39in `json:"min"`
	Z  string            `json:"z0"`
	K  map[string]int    `json:"kk"`
}

// C39: members that do not fit, deep in other values.
func C39_fill() {
	sym.Bound("members", "36 members that do not fit their field, alone, in a member, behind a pointer, in a list or in a map, between members with arbitrary text of one byte that fit")
	bad := c39bad[sym.Choose("bad", len(c39bad))]
	b, err := jsonutils.ParseString(bad.text)
	sym.Assert(err == nil, "the text parses")
	const msg = "a member that does not fit is refused with its reason"
	s, z := sym.Str("s", 1), "z"
	where := sym.Choose("where", 5)
	if where == 4 {
		var in c39in
		n := b.String()
		because(b.Unmarshal(&in), bad.why, msg)
		sym.Assert(b.String() == n, "a refused value is left as it was")
		return
	}
	name := []string{"in", "pin", "lin", "min"}[where]
	d := jsonutils.NewDict()
	d.Set("a0", jsonutils.NewString(s))
	d.Set("z0", jsonutils.NewString(z))
	switch where {
	case 0, 1:
		d.Set(name, b)
	case 2:
		d.Set(name, jsonutils.NewArray(jsonutils.NewDict(), b))
	case 3:
		d.Set(name, dict1("k", b))
	}
	two := sym.Bool("two")
	want := bad.why
	if two {
		d.Set("kk", jsonutils.NewArray())
	}
	var out c39out
	text := d.String()
	err = d.Unmarshal(&out)
	if two {
		sym.Assert(err != nil, msg)
		agg, ok := errors.Cause(err).(interface{ Errors() []error })
		if ok {
			sym.Assert(len(agg.Errors()) == 2, "every member that does not fit is reported")
		}
		sym.Assert(strings.Contains(err.Error(), "kk") && strings.Contains(err.Error(), name), "every member that does not fit is named")
	} else {
		because(err, want, msg)
		sym.Assert(strings.Contains(err.Error(), name), "the member that does not fit is named")
	}
	sym.Assert(out.A == s && out.Z == z, "the members that fit are filled")
	sym.Assert(d.String() == text, "a refused value is left as it was")
}

// C39: which of the members fit makes no difference to the others.
func C39_others() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("others", "objects of 3 (5 thorough) members, each of which fits or not, in a struct with the fields in three orders; a callback")
	order := sym.Choose("order", 3)
	d := jsonutils.NewDict()
	bad := 0
	fits := make([]bool, n)
	want := make([]int, n)
	for i := range fits {
		k := "k" + strconv.Itoa([]int{i, n - 1 - i, (i * 2) % n}[order])
		j := int(k[1] - '0')
		if j < 0 || j >= n {
			return
		}
		fits[j] = sym.Bool("fits")
		if fits[j] {
			want[j] = int(sym.Int64In("x", -9, 9))
			d.Set(k, jsonutils.NewInt(int64(want[j])))
		} else {
			bad++
			d.Set(k, []jsonutils.JSONObject{jsonutils.NewArray(), jsonutils.NewDict()}[sym.Choose("kind", 2)])
		}
	}
	var out c39five
	for _, p := range out.all() {
		*p = 77
	}
	err := d.Unmarshal(&out)
	sym.Assert((err != nil) == (bad > 0), "members that do not fit are an error")
	for i := range fits {
		if fits[i] {
			sym.Assert(*out.all()[i] == want[i], "the members that fit are filled")
		} else {
			sym.Assert(*out.all()[i] == 77, "a member that does not fit leaves its field as it was")
			sym.Assert(strings.Contains(err.Error(), "k"+strconv.Itoa(i)), "every member that does not fit is named")
		}
	}
	sym.Assert(out.seen == 1, "the callback runs, too")
	if bad == 1 {
		because(err, jsonutils.ErrTypeMismatch, "a member that does not fit is refused with its reason")
	}
}

type c39five struct {
	K0   int `json:"k0"`
	K1   int `json:"k1"`
	K2   int `json:"k2"`
	K3   int `json:"k3"`
	K4   int `json:"k4"`
	seen int
}

func (f *c39five) all() []*int { return []*int{&f.K0, &f.K1, &f.K2, &f.K3, &f.K4} }

func (f *c39five) AfterUnmarshal() { f.seen++ }
