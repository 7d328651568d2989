package h

import (
	"strconv"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// window is the expected message of an error at pos of text.
func window(text []byte, pos int, msg string) string {
	if len(text) == 0 {
		return "JSON error " + msg + " at 0: ..."
	}
	if pos < 0 {
		pos = 0
	}
	if pos >= len(text) {
		pos = len(text) - 1
	}
	out := "JSON error " + msg + " at " + strconv.Itoa(pos) + ": "
	for i := range text {
		if i == pos {
			out += "^"
		}
		if i >= pos-10 && i < pos+10 {
			out += string(text[i : i+1])
		}
	}
	return out + "..."
}

// C34: any position.
func C34_position() {
	n := []int{0, 1, 2, 3, 10, 11, 12, 21, 24}[sym.Choose("n", 9)]
	if sym.Thorough() {
		n = sym.Choose("count", 33)
	}
	sym.Bound("positions", "texts of 0, 1, 2, 3, 10, 11, 12, 21, 24 bytes (every length up to 32 thorough) of arbitrary content, every integer position")
	text := []byte(sym.Str("text", n))
	keep := string(text)
	pos := int(sym.Int64("pos"))
	msg := jsonutils.NewJSONError(text, pos, "reason").Error()
	sym.Assert(msg == window(text, pos, "reason"), "the message shows the reason, the position and the context")
	sym.Assert(string(text) == keep, "the text is not changed")
	sym.Observe("msg", msg)
}

// C34: any reason.
func C34_reason() {
	sym.Bound("reasons", "reasons of at most 3 arbitrary bytes, texts of at most 2 bytes, positions -1..3")
	text := []byte(sym.StrUpTo("text", 2))
	reason := sym.StrUpTo("reason", 3)
	pos := int(sym.Int64In("pos", -1, 3))
	sym.Assert(jsonutils.NewJSONError(text, pos, reason).Error() == window(text, pos, reason), "the message shows the reason")
}

// C34: nil text.
func C34_nil() {
	sym.Bound("nil", "no text, positions -1..1")
	pos := int(sym.Int64("pos"))
	sym.Assert(jsonutils.NewJSONError(nil, pos, "m").Error() == "JSON error m at 0: ...", "an error about no text is at 0")
}
