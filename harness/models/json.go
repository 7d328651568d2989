package models

import (
	"math"
	"sort"
	"strconv"
	"unicode/utf8"

	"verifharness/sym"
)

// JSONMarshal renders plain data as encoding/json does.
//
// replaces: encoding/json.Marshal
func JSONMarshal(v any) ([]byte, error) { return appendJSON(nil, v), nil }

func appendJSON(b []byte, v any) []byte {
	switch t := v.(type) {
	case nil:
		return append(b, "null"...)
	case bool:
		return strconv.AppendBool(b, t)
	case int:
		return strconv.AppendInt(b, int64(t), 10)
	case int64:
		return strconv.AppendInt(b, t, 10)
	case uint64:
		return strconv.AppendUint(b, t, 10)
	case float64:
		if math.IsNaN(t) || math.IsInf(t, 0) {
			sym.Skip("encoding/json of a non-finite number")
		}
		f := byte('f')
		if a := math.Abs(t); a != 0 && (a < 1e-6 || a >= 1e21) {
			f = 'e'
		}
		s := strconv.FormatFloat(t, f, -1, 64)
		if n := len(s); f == 'e' && n >= 4 && s[n-4] == 'e' && s[n-3] == '-' && s[n-2] == '0' {
			s = s[:n-2] + s[n-1:]
		}
		return append(b, s...)
	case string:
		return appendJSONString(b, t)
	case []any:
		if t == nil {
			return append(b, "null"...)
		}
		b = append(b, '[')
		for i, e := range t {
			if i > 0 {
				b = append(b, ',')
			}
			b = appendJSON(b, e)
		}
		return append(b, ']')
	case map[string]any:
		if t == nil {
			return append(b, "null"...)
		}
		var keys []string
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b = append(b, '{')
		for i, k := range keys {
			if i > 0 {
				b = append(b, ',')
			}
			b = appendJSONString(b, k)
			b = append(b, ':')
			b = appendJSON(b, t[k])
		}
		return append(b, '}')
	}
	sym.Skip("encoding/json of other types")
	return nil
}

func appendJSONString(b []byte, s string) []byte {
	const hex = "0123456789abcdef"
	b = append(b, '"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			i++
			switch {
			case c == '"' || c == '\\':
				b = append(b, '\\', c)
			case c == '\b':
				b = append(b, '\\', 'b')
			case c == '\f':
				b = append(b, '\\', 'f')
			case c == '\n':
				b = append(b, '\\', 'n')
			case c == '\r':
				b = append(b, '\\', 'r')
			case c == '\t':
				b = append(b, '\\', 't')
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				b = append(b, '\\', 'u', '0', '0', hex[c>>4], hex[c&15])
			default:
				b = append(b, c)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			b = append(b, "\ufffd"...)
		case r == 0x2028:
			b = append(b, `\u2028`...)
		case r == 0x2029:
			b = append(b, `\u2029`...)
		default:
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return append(b, '"')
}
