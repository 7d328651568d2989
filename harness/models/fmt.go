package models

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"

	"verifharness/sym"
)

type state struct {
	buf          []byte
	wid, prec    int
	hasW, hasP   bool
	plus, minus  bool
	sharp, zero  bool
	space        bool
}

func (s *state) Write(b []byte) (int, error)       { s.buf = append(s.buf, b...); return len(b), nil }
func (s *state) WriteString(b string) (int, error) { s.buf = append(s.buf, b...); return len(b), nil }
func (s *state) Width() (int, bool)                { return s.wid, s.hasW }
func (s *state) Precision() (int, bool)            { return s.prec, s.hasP }
func (s *state) Flag(c int) bool {
	switch c {
	case '+':
		return s.plus
	case '-':
		return s.minus
	case '#':
		return s.sharp
	case '0':
		return s.zero
	case ' ':
		return s.space
	}
	return false
}

func (s *state) pad(t string) {
	n := 0
	if s.hasW {
		n = s.wid - len(t)
	}
	if n > 0 && !s.minus {
		for i := 0; i < n; i++ {
			if s.zero {
				s.buf = append(s.buf, '0')
			} else {
				s.buf = append(s.buf, ' ')
			}
		}
	}
	s.buf = append(s.buf, t...)
	if n > 0 && s.minus {
		for i := 0; i < n; i++ {
			s.buf = append(s.buf, ' ')
		}
	}
}

func (s *state) clear() {
	s.wid, s.prec = 0, 0
	s.hasW, s.hasP, s.plus, s.minus, s.sharp, s.zero, s.space = false, false, false, false, false, false, false
}

// replaces: fmt.Sprintf
func Sprintf(format string, a ...interface{}) string {
	s := &state{}
	s.printf(format, a)
	return string(s.buf)
}

// replaces: fmt.Fprintf
func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(format, a...)))
}

// replaces: fmt.Printf
func Printf(format string, a ...interface{}) (int, error) { return 0, nil }

// replaces: fmt.Println
func Println(a ...interface{}) (int, error) { return 0, nil }

// replaces: fmt.Print
func Print(a ...interface{}) (int, error) { return 0, nil }

func stringKind(x interface{}) bool {
	return x != nil && reflect.TypeOf(x).Kind() == reflect.String
}

// replaces: fmt.Sprint
func Sprint(a ...interface{}) string {
	s := &state{}
	for i, x := range a {
		if i > 0 {
			if !stringKind(x) && !stringKind(a[i-1]) {
				s.buf = append(s.buf, ' ')
			}
		}
		s.arg(x, 'v', 0)
	}
	return string(s.buf)
}

// replaces: fmt.Sprintln
func Sprintln(a ...interface{}) string {
	s := &state{}
	for i, x := range a {
		if i > 0 {
			s.buf = append(s.buf, ' ')
		}
		s.arg(x, 'v', 0)
	}
	s.buf = append(s.buf, '\n')
	return string(s.buf)
}

// replaces: fmt.Fprint
func Fprint(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprint(a...))) }

// replaces: fmt.Fprintln
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprintln(a...))) }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

// replaces: fmt.Errorf
func Errorf(format string, a ...interface{}) error {
	msg := Sprintf(format, a...)
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		if format[i] == '%' {
			continue
		}
		for i < len(format) && (format[i] < 'a' || format[i] > 'z') && (format[i] < 'A' || format[i] > 'Z') {
			i++
		}
		if i < len(format) && format[i] == 'w' && n < len(a) {
			if e, ok := a[n].(error); ok {
				return &wrapError{msg, e}
			}
		}
		n++
	}
	return errors.New(msg)
}

func (s *state) printf(format string, a []interface{}) {
	n := 0
	i := 0
	for i < len(format) {
		c := format[i]
		if c != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			s.buf = append(s.buf, format[i:j]...)
			i = j
			continue
		}
		i++
		s.clear()
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				s.plus = true
			case '-':
				s.minus = true
				s.zero = false
			case '#':
				s.sharp = true
			case '0':
				s.zero = !s.minus
			case ' ':
				s.space = true
			default:
				break flags
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			s.wid = s.wid*10 + int(format[i]-'0')
			s.hasW = true
			i++
		}
		if i < len(format) && format[i] == '*' {
			sym.Skip("fmt width argument")
		}
		if i < len(format) && format[i] == '.' {
			i++
			s.hasP = true
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				s.prec = s.prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			s.buf = append(s.buf, "%!(NOVERB)"...)
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			s.buf = append(s.buf, '%')
			continue
		}
		if verb >= 0x80 || verb == '[' {
			sym.Skip("fmt verb")
		}
		if n >= len(a) {
			s.buf = append(s.buf, "%!"+string(rune(verb))+"(MISSING)"...)
			continue
		}
		if verb == 'w' {
			verb = 'v'
		}
		s.arg(a[n], verb, 0)
		n++
	}
	if n < len(a) {
		s.clear()
		s.buf = append(s.buf, "%!(EXTRA "...)
		for i, x := range a[n:] {
			if i > 0 {
				s.buf = append(s.buf, ", "...)
			}
			if x == nil {
				s.buf = append(s.buf, "<nil>"...)
			} else {
				s.buf = append(s.buf, reflect.TypeOf(x).String()+"="...)
				s.arg(x, 'v', 0)
			}
		}
		s.buf = append(s.buf, ')')
	}
}

func (s *state) bad(arg interface{}, verb byte) {
	s.buf = append(s.buf, "%!"+string(rune(verb))+"("...)
	if arg == nil {
		s.buf = append(s.buf, "<nil>"...)
	} else {
		s.buf = append(s.buf, reflect.TypeOf(arg).String()+"="...)
		t := *s
		t.buf = nil
		t.clear()
		t.value(reflect.ValueOf(arg), 'v', 0)
		s.buf = append(s.buf, t.buf...)
	}
	s.buf = append(s.buf, ')')
}

func strVerb(v byte) bool { return v == 'v' || v == 's' || v == 'x' || v == 'X' || v == 'q' }

func (s *state) methods(arg interface{}, verb byte) bool {
	if f, ok := arg.(fmt.Formatter); ok {
		func() {
			defer s.catch(arg, verb, "Format")
			f.Format(s, rune(verb))
		}()
		return true
	}
	if s.sharp && verb == 'v' {
		return false
	}
	if !strVerb(verb) {
		return false
	}
	switch x := arg.(type) {
	case error:
		func() {
			defer s.catch(arg, verb, "Error")
			s.str(x.Error(), verb)
		}()
		return true
	case fmt.Stringer:
		func() {
			defer s.catch(arg, verb, "String")
			s.str(x.String(), verb)
		}()
		return true
	}
	return false
}

func (s *state) catch(arg interface{}, verb byte, m string) {
	if err := recover(); err != nil {
		if v := reflect.ValueOf(arg); v.Kind() == reflect.Ptr && v.IsNil() {
			s.buf = append(s.buf, "<nil>"...)
			return
		}
		s.buf = append(s.buf, "%!"+string(rune(verb))+"(PANIC="+m+" method: "...)
		t := &state{}
		t.arg(err, 'v', 0)
		s.buf = append(s.buf, t.buf...)
		s.buf = append(s.buf, ')')
	}
}

func (s *state) str(v string, verb byte) {
	switch verb {
	case 'v', 's':
		if s.sharp && verb == 'v' {
			s.pad(strconv.Quote(v))
			return
		}
		if s.hasP {
			sym.Skip("fmt string precision")
		}
		s.pad(v)
	case 'q':
		s.pad(strconv.Quote(v))
	case 'x', 'X':
		const lo, up = "0123456789abcdef", "0123456789ABCDEF"
		ds := lo
		if verb == 'X' {
			ds = up
		}
		var b []byte
		for i := 0; i < len(v); i++ {
			b = append(b, ds[v[i]>>4], ds[v[i]&15])
		}
		s.pad(string(b))
	default:
		s.bad(v, verb)
	}
}

func (s *state) int(u uint64, signed bool, verb byte, arg interface{}) {
	neg := false
	if signed && int64(u) < 0 {
		neg = true
		u = -u
	}
	var t string
	switch verb {
	case 'd', 'v':
		t = strconv.FormatUint(u, 10)
	case 'x', 'X':
		t = hex(u, verb == 'X')
		if s.sharp {
			t = "0x" + t
		}
	case 'o':
		t = strconv.FormatUint(u, 8)
	case 'b':
		t = strconv.FormatUint(u, 2)
	case 'c':
		s.pad(string(rune(u)))
		return
	case 'q':
		s.pad(strconv.QuoteRune(rune(u)))
		return
	case 'U':
		t = hex(u, true)
		for len(t) < 4 {
			t = "0" + t
		}
		s.pad("U+" + t)
		return
	default:
		s.bad(arg, verb)
		return
	}
	if s.hasP {
		for len(t) < s.prec {
			t = "0" + t
		}
	}
	if s.zero && s.hasW {
		n := s.wid
		if neg || s.plus {
			n--
		}
		for len(t) < n {
			t = "0" + t
		}
	}
	if neg {
		t = "-" + t
	} else if s.plus {
		t = "+" + t
	} else if s.space {
		t = " " + t
	}
	z := s.zero
	s.zero = false
	s.pad(t)
	s.zero = z
}

func hex(u uint64, upper bool) string {
	ds := "0123456789abcdef"
	if upper {
		ds = "0123456789ABCDEF"
	}
	n := 1
	for n < 16 {
		if u>>(uint(n)*4) == 0 {
			break
		}
		n++
	}
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[n-1-i] = ds[u>>(uint(i)*4)&15]
	}
	return string(b)
}

func (s *state) float(f float64, bits int, verb byte, arg interface{}) {
	prec := -1
	if s.hasP {
		prec = s.prec
	}
	var t string
	switch verb {
	case 'v':
		t = strconv.FormatFloat(f, 'g', prec, bits)
		// %v uses %e only for large exponents
		if prec == -1 {
			t = fmtG(f, bits)
		}
	case 'g', 'G':
		if prec == -1 {
			t = fmtG(f, bits)
		} else {
			t = strconv.FormatFloat(f, verb, prec, bits)
		}
	case 'f', 'F', 'e', 'E':
		if prec == -1 {
			prec = 6
		}
		if verb == 'F' {
			verb = 'f'
		}
		t = strconv.FormatFloat(f, verb, prec, bits)
	default:
		s.bad(arg, verb)
		return
	}
	if s.plus && t[0] != '-' && t[0] != '+' {
		t = "+" + t
	}
	s.pad(t)
}

func fmtG(f float64, bits int) string {
	// shortest representation with the exponent threshold %v uses (21)
	e := strconv.FormatFloat(f, 'e', -1, bits)
	x := 0
	neg := false
	for i := 0; i < len(e); i++ {
		if e[i] == 'e' {
			neg = e[i+1] == '-'
			x, _ = strconv.Atoi(e[i+2:])
		}
	}
	if neg {
		x = -x
	}
	if x < -4 || x >= 21 {
		return e
	}
	return strconv.FormatFloat(f, 'f', -1, bits)
}

func (s *state) arg(arg interface{}, verb byte, depth int) {
	if arg == nil {
		switch verb {
		case 'T', 'v':
			s.pad("<nil>")
		default:
			s.bad(arg, verb)
		}
		return
	}
	switch verb {
	case 'T':
		s.str(reflect.TypeOf(arg).String(), 's')
		return
	case 'p':
		sym.Skip("fmt %p")
	}
	switch f := arg.(type) {
	case bool:
		s.bool(f, verb, arg)
		return
	case float64:
		s.float(f, 64, verb, arg)
		return
	case float32:
		s.float(float64(f), 32, verb, arg)
		return
	case int:
		s.int(uint64(f), true, verb, arg)
		return
	case int8:
		s.int(uint64(f), true, verb, arg)
		return
	case int16:
		s.int(uint64(f), true, verb, arg)
		return
	case int32:
		s.int(uint64(f), true, verb, arg)
		return
	case int64:
		s.int(uint64(f), true, verb, arg)
		return
	case uint:
		s.int(uint64(f), false, verb, arg)
		return
	case uint8:
		s.int(uint64(f), false, verb, arg)
		return
	case uint16:
		s.int(uint64(f), false, verb, arg)
		return
	case uint32:
		s.int(uint64(f), false, verb, arg)
		return
	case uint64:
		s.int(uint64(f), false, verb, arg)
		return
	case string:
		s.str(f, verb)
		return
	case []byte:
		if verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
			s.str(string(f), verb)
			return
		}
		s.value(reflect.ValueOf(arg), verb, 0)
		return
	case reflect.Value:
		if f.IsValid() && f.CanInterface() {
			if s.methods(f.Interface(), verb) {
				return
			}
		}
		s.value(f, verb, 0)
		return
	}
	if s.methods(arg, verb) {
		return
	}
	s.value(reflect.ValueOf(arg), verb, depth)
}

func (s *state) bool(b bool, verb byte, arg interface{}) {
	if verb != 't' && verb != 'v' {
		s.bad(arg, verb)
		return
	}
	if b {
		s.pad("true")
	} else {
		s.pad("false")
	}
}

func (s *state) value(v reflect.Value, verb byte, depth int) {
	if depth > 0 && v.IsValid() && v.CanInterface() {
		if s.methods(v.Interface(), verb) {
			return
		}
	}
	if depth > 40 {
		sym.Skip("fmt of deep value")
	}
	switch v.Kind() {
	case reflect.Invalid:
		if depth == 0 {
			s.buf = append(s.buf, "<invalid reflect.Value>"...)
		} else {
			s.buf = append(s.buf, "<nil>"...)
		}
	case reflect.Bool:
		s.bool(v.Bool(), verb, rawv(v))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.int(uint64(v.Int()), true, verb, rawv(v))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		s.int(v.Uint(), false, verb, rawv(v))
	case reflect.Float32:
		s.float(v.Float(), 32, verb, rawv(v))
	case reflect.Float64:
		s.float(v.Float(), 64, verb, rawv(v))
	case reflect.String:
		s.str(v.String(), verb)
	case reflect.Interface:
		e := v.Elem()
		if !e.IsValid() {
			s.buf = append(s.buf, "<nil>"...)
			return
		}
		s.value(e, verb, depth+1)
	case reflect.Slice, reflect.Array:
		if s.sharp && verb == 'v' {
			sym.Skip("fmt %#v of slice")
		}
		s.buf = append(s.buf, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s.buf = append(s.buf, ' ')
			}
			s.value(v.Index(i), verb, depth+1)
		}
		s.buf = append(s.buf, ']')
	case reflect.Map:
		if s.sharp && verb == 'v' {
			sym.Skip("fmt %#v of map")
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool {
			switch ks[i].Kind() {
			case reflect.String:
				return ks[i].String() < ks[j].String()
			case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
				return ks[i].Int() < ks[j].Int()
			}
			sym.Skip("fmt of map with unusual keys")
			return false
		})
		s.buf = append(s.buf, "map["...)
		for i, k := range ks {
			if i > 0 {
				s.buf = append(s.buf, ' ')
			}
			s.value(k, verb, depth+1)
			s.buf = append(s.buf, ':')
			s.value(v.MapIndex(k), verb, depth+1)
		}
		s.buf = append(s.buf, ']')
	case reflect.Struct:
		if s.sharp && verb == 'v' {
			sym.Skip("fmt %#v of struct")
		}
		s.buf = append(s.buf, '{')
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				s.buf = append(s.buf, ' ')
			}
			if s.plus {
				s.buf = append(s.buf, t.Field(i).Name+":"...)
			}
			f := v.Field(i)
			if f.Kind() == reflect.Interface && !f.IsNil() {
				f = f.Elem()
			}
			s.value(f, verb, depth+1)
		}
		s.buf = append(s.buf, '}')
	case reflect.Ptr:
		if v.IsNil() {
			s.buf = append(s.buf, "<nil>"...)
			return
		}
		if depth == 0 {
			switch v.Elem().Kind() {
			case reflect.Struct, reflect.Map, reflect.Slice, reflect.Array:
				s.buf = append(s.buf, '&')
				s.value(v.Elem(), verb, depth+1)
				return
			}
		}
		s.buf = append(s.buf, "0xc000000000"...) // address
	default:
		s.buf = append(s.buf, "0xc000000000"...) // address
	}
}

func rawv(v reflect.Value) interface{} {
	if v.CanInterface() {
		return v.Interface()
	}
	return 0
}
