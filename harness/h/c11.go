package h

import (
	"strings"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// foldEq compares ASCII strings up to letter case.
func foldEq(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		x, y := a[i], b[i]
		if x >= 'A' && x <= 'Z' {
			x += 32
		}
		if y >= 'A' && y <= 'Z' {
			y += 32
		}
		if x != y {
			return false
		}
	}
	return true
}

func insensitive(keys []string, probe string, eq func(a, b string) bool) {
	d := jsonutils.NewDict()
	exact := -1
	any := 0
	for i, k := range keys {
		for j := 0; j < i; j++ {
			sym.Assume(keys[j] != k)
		}
		d.Set(k, jsonutils.NewInt(int64(i)))
		if k == probe {
			exact = i
		}
		if eq(k, probe) {
			any++
		}
	}
	s := d.String()
	v, err := d.GetIgnoreCases(probe)
	sym.Assert((err == nil) == (any > 0), "a case-insensitive lookup succeeds exactly if a variant of the key is there")
	sym.Assert(d.ContainsIgnoreCases(probe) == (any > 0), "a case-insensitive containment test holds exactly if a variant of the key is there")
	if err == nil {
		i, err := v.Int()
		sym.Assert(err == nil && i >= 0 && i < int64(len(keys)), "the lookup returns a value of the object")
		sym.Assert(eq(keys[i], probe), "the lookup returns the value of a variant of the key")
		sym.Assert(exact < 0 || i == int64(exact), "an exact match is preferred")
		sym.Reach("found")
	}
	_, err = d.Get(probe)
	sym.Assert((err == nil) == (exact >= 0) && d.Contains(probe) == (exact >= 0), "a case-sensitive lookup ignores other variants")
	sym.Assert(d.String() == s, "lookups change nothing")
	if sym.Choose("remove", 2) == 0 {
		sym.Assert(d.Remove(probe) == (exact >= 0), "case-sensitive removal reports whether the very key was there")
		for i, k := range keys {
			sym.Assert(d.Contains(k) == (i != exact), "case-sensitive removal removes only the very key")
		}
		return
	}
	sym.Assert(d.RemoveIgnoreCase(probe) == (any > 0), "case-insensitive removal reports whether a variant was there")
	for i, k := range keys {
		sym.Assert(d.Contains(k) == !eq(k, probe), "case-insensitive removal removes exactly the variants")
		if d.Contains(k) {
			x, err := d.Int(k)
			sym.Assert(err == nil && x == int64(i), "the other entries keep their values")
		}
	}
	sym.Assert(d.Length() == len(keys)-any, "case-insensitive removal removes nothing else")
}

// C11: ASCII keys.
func C11_ascii() {
	k := 2
	if sym.Thorough() {
		k = 3
	}
	sym.Bound("keys", "objects of at most 2 (3 thorough) keys, keys and request of 1 arbitrary ASCII byte, or 0..2 of a few letters")
	l := sym.Choose("len", 2)
	key := func(name string) string {
		if l == 1 {
			return sym.ASCII(name, 1)
		}
		return sym.From(name, sym.Choose(name+".len", 3), "aAbZ")
	}
	var keys []string
	for i := sym.Choose("keys", k+1); i > 0; i-- {
		keys = append(keys, key("key"))
	}
	insensitive(keys, key("probe"), foldEq)
}

// C11: many variants of one key among other keys.
func C11_variants() {
	sym.Bound("variants", "objects of 8 and 11 keys, 4 of them variants of the request in arbitrary letter case")
	keys := []string{"AA", "zz", "", "b"}
	for i := 0; i < 4; i++ {
		keys = append(keys, sym.From("variant", 2, "xX"))
	}
	if sym.Choose("more", 2) == 1 {
		keys = append(keys, "m", "Y", "xx1")
	}
	insensitive(keys, sym.From("probe", 2, "xX"), foldEq)
}

// C11: letters beyond ASCII.
func C11_unicode() {
	letters := []string{"k", "K", "\u212a", "s", "S", "\u017f", "\u00e9", "\u00c9", "\u03c3", "\u03a3", "\u03c2", "\u4e2d", "\xff", "\u00e9\u00e9"}
	sym.Bound("unicode", "every pair of keys out of 14 letters and every such request")
	a, b := sym.Choose("a", len(letters)), sym.Choose("b", len(letters))
	sym.Assume(a != b)
	insensitive([]string{letters[a], letters[b]}, letters[sym.Choose("probe", len(letters))], strings.EqualFold)
}

// C11: paths.
func C11_path() {
	sym.Bound("paths", "two-step paths into an object of two members, keys out of a A b B")
	in, out := jsonutils.NewDict(), jsonutils.NewDict()
	k1, k2, k3 := sym.From("k1", 1, "aAbB"), sym.From("k2", 1, "aAbB"), sym.From("k3", 1, "aAbB")
	p1, p2 := sym.From("p1", 1, "aAbB"), sym.From("p2", 1, "aAbB")
	sym.Assume(k1 != k3)
	in.Set(k2, jsonutils.NewInt(1))
	out.Set(k1, in)
	out.Set(k3, jsonutils.NewInt(2))
	// the member taken at the first step
	step := ""
	for _, k := range []string{k1, k3} {
		if k == p1 {
			step = k
		}
	}
	amb := step == "" && foldEq(k1, p1) && foldEq(k3, p1)
	if step == "" && foldEq(k1, p1) {
		step = k1
	}
	if step == "" && foldEq(k3, p1) {
		step = k3
	}
	v, err := out.GetIgnoreCases(p1, p2)
	if !amb {
		want := step == k1 && foldEq(k2, p2)
		sym.Assert((err == nil) == want, "a case-insensitive path is followed step by step")
		sym.Assert(out.ContainsIgnoreCases(p1, p2) == want, "a case-insensitive path is contained exactly if it can be followed")
	}
	if err == nil {
		i, _ := v.Int()
		sym.Assert(i == 1, "the value at the end of the path is returned")
	}
	_, err = out.Get(p1, p2)
	sym.Assert((err == nil) == (p1 == k1 && p2 == k2), "a case-sensitive path ignores other variants")
}
