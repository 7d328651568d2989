package h

import (
	"golang.org/x/text/language"

	"yunion.io/x/jsonutils"
	"yunion.io/x/jsonutils/locales"

	"verifharness/sym"
)

// renderer receives the text of a message.
type renderer struct {
	text  string
	calls int
}

func (r *renderer) Render(s string)       { r.text += s; r.calls++ }
func (r *renderer) Arg(i int) interface{} { return nil }

// message looks up a message of the catalogue.
func message(lang, key string) (string, bool) {
	var r renderer
	err := locales.Catalog.Context(language.MustParse(lang), &r).Execute(key)
	if err != nil {
		sym.Assert(r.calls == 0, "a message that is not found renders nothing")
		return "", false
	}
	sym.Assert(r.calls == 1, "a message is rendered as one text")
	return r.text, true
}

var errConsts = []error{
	jsonutils.ErrJsonDictFailInsert,
	jsonutils.ErrInvalidJsonDict,
	jsonutils.ErrInvalidJsonArray,
	jsonutils.ErrInvalidJsonInt,
	jsonutils.ErrInvalidJsonFloat,
	jsonutils.ErrInvalidJsonBoolean,
	jsonutils.ErrInvalidJsonString,
	jsonutils.ErrJsonDictKeyNotFound,
	jsonutils.ErrUnsupported,
	jsonutils.ErrOutOfKeyRange,
	jsonutils.ErrOutOfIndexRange,
	jsonutils.ErrInvalidChar,
	jsonutils.ErrInvalidHex,
	jsonutils.ErrInvalidRune,
	jsonutils.ErrTypeMismatch,
	jsonutils.ErrArrayLengthMismatch,
	jsonutils.ErrInterfaceUnsupported,
	jsonutils.ErrMapKeyMustString,
	jsonutils.ErrMissingInputField,
	jsonutils.ErrNilInputField,
	jsonutils.ErrYamlMissingDictKey,
	jsonutils.ErrYamlIllFormat,
}

// what a key must give in a language: its translation, or itself in the
// default language; nothing if there is none.
func translation(lang, key string) (string, bool) {
	if lang == "en-US" {
		for _, e := range errConsts {
			if e.Error() == key {
				return key, true
			}
		}
		return "", false
	}
	for _, t := range gotext {
		if t[0] == lang && t[1] == key {
			return t[2], t[2] != ""
		}
	}
	return "", false
}

// C33: any key of any catalogued language.
func C33_lookup() {
	max := 64
	if sym.Thorough() {
		max = 200
	}
	sym.Bound("keys", "keys of at most 64 (200 thorough; the longest message has 62) arbitrary bytes, in both languages of the catalogue")
	lang := []string{"en-US", "zh-CN"}[sym.Choose("lang", 2)]
	key := sym.Str("key", sym.Choose("length", max+1))
	got, ok := message(lang, key)
	want, found := translation(lang, key)
	sym.Assert(ok == found, "a key is found exactly if its message is catalogued")
	sym.Assert(!ok || got == want, "a key gives the complete text that belongs to it")
}

// C33: any message of the package, in any language.
func C33_errors() {
	sym.Bound("errors", "every error constant of errors.go, in both languages and in languages that fall back to them")
	key := errConsts[sym.Choose("error", len(errConsts))].Error()
	got, ok := message("en-US", key)
	sym.Assert(ok && got == key, "every error message is in the default language with its own text")
	got, ok = message("zh-CN", key)
	want, found := translation("zh-CN", key)
	sym.Assert(ok == found && got == want, "a translation is the complete text that belongs to its key")
	l := language.MustParse([]string{"fr", "en", "zh-CN", "en-US", "und"}[sym.Choose("asked", 5)])
	tag, _, _ := locales.Catalog.Matcher().Match(l)
	base, _ := tag.Base()
	b := base.String()
	sym.Assert(b == "en" || b == "zh", "every language is served by one of the catalogue")
}

// C33: messages near those of the catalogue.
func C33_near() {
	sym.Bound("near keys", "every catalogued key with one byte replaced by any other, dropped or added at the end or start")
	key := errConsts[sym.Choose("error", len(errConsts))].Error()
	lang := []string{"en-US", "zh-CN"}[sym.Choose("lang", 2)]
	b := string([]byte{sym.Byte("byte")})
	switch sym.Choose("edit", 4) {
	case 0:
		key = key + b
	case 1:
		key = b + key
	case 2:
		key = key[:len(key)-1]
	case 3:
		i := sym.Choose("at", 4) * (len(key) - 1) / 3
		key = key[:i] + b + key[i+1:]
	}
	got, ok := message(lang, key)
	want, found := translation(lang, key)
	sym.Assert(ok == found, "a key is found exactly if its message is catalogued")
	sym.Assert(!ok || got == want, "a key gives the complete text that belongs to it")
}
