// Package models replaces a few standard library functions whose bodies are
// not practical to execute symbolically. Each model states the documented
// behaviour of the function it replaces; the engine never compares models
// with themselves: sampled paths are re-run natively against the real library.
package models

import (
	"strconv"

	"verifharness/sym"
)

// RuntimeError is the value of a run-time panic.
type RuntimeError string

func (e RuntimeError) Error() string { return "runtime error: " + string(e) }
func (e RuntimeError) RuntimeError() {}

func allDigits(s string) bool {
	ok := len(s) > 0
	for i := 0; i < len(s); i++ {
		ok = ok && s[i] >= '0' && s[i] <= '9'
	}
	return ok
}

func horner(s string) uint64 {
	if u, ok := sym.DigitsOf(s); ok {
		return u
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		n = n*10 + uint64(s[i]-'0')
	}
	return n
}

func numErr(fn, s string, err error) error {
	return &strconv.NumError{Func: fn, Num: s, Err: err}
}

// replaces: strconv.ParseUint
func ParseUint(s string, base int, bitSize int) (uint64, error) {
	if s == "" {
		return 0, numErr("ParseUint", s, strconv.ErrSyntax)
	}
	if base == 0 && s[0] != '0' && !hasUnderscore(s) {
		base = 10
	}
	if base != 10 {
		if len(s) > 5 {
			s = sym.Sample(s, "long integer text in base other than 10")
		}
		return parseUintBase(s, base, bitSize)
	}
	if bitSize == 0 {
		bitSize = 64
	}
	if !allDigits(s) {
		return 0, numErr("ParseUint", s, strconv.ErrSyntax)
	}
	for len(s) > 1 && sym.Decided(s[0] == '0') && s[0] == '0' {
		s = s[1:]
	}
	for len(s) > 19 && s[0] == '0' {
		s = s[1:]
	}
	max := uint64(1)<<uint(bitSize) - 1
	if len(s) > 20 {
		return max, numErr("ParseUint", s, strconv.ErrRange)
	}
	var n uint64
	if u, ok := sym.DigitsOf(s); ok {
		n = u
	} else if len(s) == 20 {
		hi := horner(s[:19])
		d := uint64(s[19] - '0')
		if hi > 1844674407370955161 || hi == 1844674407370955161 && d > 5 {
			return max, numErr("ParseUint", s, strconv.ErrRange)
		}
		n = hi*10 + d
	} else {
		n = horner(s)
	}
	if n > max {
		return max, numErr("ParseUint", s, strconv.ErrRange)
	}
	return n, nil
}

func hasUnderscore(s string) bool {
	r := false
	for i := 0; i < len(s); i++ {
		r = r || s[i] == '_'
	}
	return r
}

func parseUintBase(s string, base, bitSize int) (uint64, error) {
	s0 := s
	if base == 0 {
		base = 10
		if hasUnderscore(s) {
			s1 := sym.Sample(s, "integer text with underscores")
			n, k := sym.NativeParseUint(s1, 0, bitSize)
			switch k {
			case 1:
				return 0, numErr("ParseUint", s, strconv.ErrSyntax)
			case 2:
				return n, numErr("ParseUint", s, strconv.ErrRange)
			}
			return n, nil
		}
		if s[0] == '0' {
			switch {
			case len(s) >= 3 && (s[1] == 'x' || s[1] == 'X'):
				base, s = 16, s[2:]
			case len(s) >= 3 && (s[1] == 'b' || s[1] == 'B'):
				base, s = 2, s[2:]
			case len(s) >= 3 && (s[1] == 'o' || s[1] == 'O'):
				base, s = 8, s[2:]
			default:
				base, s = 8, s[1:]
			}
		}
	}
	if bitSize == 0 {
		bitSize = 64
	}
	max := uint64(1)<<uint(bitSize) - 1
	var n uint64
	for i := 0; i < len(s); i++ {
		c := s[i]
		var d byte
		switch {
		case c >= '0' && c <= '9':
			d = c - '0'
		case c >= 'a' && c <= 'z':
			d = c - 'a' + 10
		case c >= 'A' && c <= 'Z':
			d = c - 'A' + 10
		default:
			return 0, numErr("ParseUint", s0, strconv.ErrSyntax)
		}
		if int(d) >= base {
			return 0, numErr("ParseUint", s0, strconv.ErrSyntax)
		}
		if n > max/uint64(base) {
			return max, numErr("ParseUint", s0, strconv.ErrRange)
		}
		m := n * uint64(base)
		if m+uint64(d) < m || m+uint64(d) > max {
			return max, numErr("ParseUint", s0, strconv.ErrRange)
		}
		n = m + uint64(d)
	}
	return n, nil
}

// replaces: strconv.ParseInt
func ParseInt(s string, base int, bitSize int) (int64, error) {
	s0 := s
	if s == "" {
		return 0, numErr("ParseInt", s, strconv.ErrSyntax)
	}
	neg := false
	if s[0] == '+' || s[0] == '-' {
		neg = s[0] == '-'
		s = s[1:]
	}
	u, err := ParseUint(s, base, bitSize)
	if err != nil && err.(*strconv.NumError).Err != strconv.ErrRange {
		return 0, numErr("ParseInt", s0, strconv.ErrSyntax)
	}
	if bitSize == 0 {
		bitSize = 64
	}
	cut := uint64(1) << uint(bitSize-1)
	if err != nil || !neg && u >= cut || neg && u > cut {
		if neg {
			return -int64(cut), numErr("ParseInt", s0, strconv.ErrRange)
		}
		return int64(cut - 1), numErr("ParseInt", s0, strconv.ErrRange)
	}
	n := int64(u)
	if neg {
		n = -n
	}
	return n, nil
}

// replaces: strconv.Atoi
func Atoi(s string) (int, error) {
	n, err := ParseInt(s, 10, 0)
	if err != nil {
		err.(*strconv.NumError).Func = "Atoi"
	}
	return int(n), err
}

func digits(u uint64) string {
	k := 1
	p := uint64(10)
	for k < 20 {
		if u < p {
			break
		}
		k++
		p *= 10
	}
	return sym.Digits(u, k)
}

// replaces: strconv.FormatUint
func FormatUint(u uint64, base int) string {
	if base == 10 {
		return digits(u)
	}
	const ds = "0123456789abcdefghijklmnopqrstuvwxyz"
	if base == 16 || base == 8 || base == 2 {
		w := uint(4)
		if base == 8 {
			w = 3
		} else if base == 2 {
			w = 1
		}
		k := uint(1)
		for k*w < 64 && u>>(k*w) != 0 {
			k++
		}
		b := make([]byte, k)
		for i := range b {
			d := byte(u>>((k-1-uint(i))*w)) & byte(base-1)
			c := d + '0'
			if d > 9 {
				c = d - 10 + 'a'
			}
			b[i] = c
		}
		return string(b)
	}
	u = sym.SampleUint(u, "integer formatting in base other than 10")
	var b [65]byte
	i := 65
	for {
		i--
		b[i] = ds[u%uint64(base)]
		u /= uint64(base)
		if u == 0 {
			break
		}
	}
	return string(b[i:])
}

// replaces: strconv.FormatInt
func FormatInt(i int64, base int) string {
	if i < 0 {
		return "-" + FormatUint(-uint64(i), base)
	}
	return FormatUint(uint64(i), base)
}

// replaces: strconv.Itoa
func Itoa(i int) string { return FormatInt(int64(i), 10) }

// replaces: strconv.AppendInt
func AppendInt(dst []byte, i int64, base int) []byte { return append(dst, FormatInt(i, base)...) }

// replaces: strconv.AppendUint
func AppendUint(dst []byte, i uint64, base int) []byte { return append(dst, FormatUint(i, base)...) }

var pow10 = [...]float64{1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22}

func foldEq(s, t string) bool {
	if len(s) != len(t) {
		return false
	}
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 32
		}
		ok = ok && c == t[i]
	}
	return ok
}

// replaces: strconv.ParseFloat
func ParseFloat(s string, bitSize int) (float64, error) {
	if sym.IsConcrete(s) {
		return nativeFloat(s, bitSize)
	}
	body := s
	neg := false
	if s[0] == '+' || s[0] == '-' {
		neg = s[0] == '-'
		body = s[1:]
	}
	synErr := numErr("ParseFloat", s, strconv.ErrSyntax)
	if len(body) == 3 || len(body) == 8 {
		if foldEq(body, "inf") || foldEq(body, "infinity") || foldEq(s, "nan") {
			return nativeFloat(sym.Concrete(s), bitSize)
		}
	}
	if len(body) == 0 {
		return 0, synErr
	}
	if !(body[0] >= '0' && body[0] <= '9' || body[0] == '.') {
		return 0, synErr
	}
	if len(body) >= 5 && body[0] == '0' && (body[1] == 'x' || body[1] == 'X') {
		return nativeFloat(sym.Sample(s, "hexadecimal floating-point text"), bitSize)
	}
	if !floatChars(body) {
		return 0, synErr
	}
	epos := len(body)
	for i := 1; i < len(body); i++ {
		if body[i] == 'e' || body[i] == 'E' {
			epos = i
			break
		}
	}
	mant := body[:epos]
	exp := 0
	if epos < len(body) {
		e := body[epos+1:]
		eneg := false
		if len(e) > 0 && (e[0] == '+' || e[0] == '-') {
			eneg = e[0] == '-'
			e = e[1:]
		}
		if !allDigits(e) {
			return 0, synErr
		}
		if len(e) > 3 {
			return nativeFloat(sym.Sample(s, "floating-point exponent of more than three digits"), bitSize)
		}
		exp = sym.ConcreteInt(int(horner(e)))
		if eneg {
			exp = -exp
		}
	}
	dot := len(mant)
	for i := 0; i < len(mant); i++ {
		if mant[i] == '.' {
			dot = i
			break
		}
	}
	ds := mant[:dot]
	if dot < len(mant) {
		ds += mant[dot+1:]
		exp -= len(mant) - dot - 1
	}
	if !allDigits(ds) {
		return 0, synErr
	}
	if bitSize == 32 {
		return nativeFloat(sym.Sample(s, "symbolic 32-bit floating-point text"), bitSize)
	}
	for len(ds) > 15 && ds[0] == '0' {
		ds = ds[1:]
	}
	if len(ds) > 15 {
		return nativeFloat(sym.Sample(s, "floating-point text of more than 15 digits"), bitSize)
	}
	m := horner(ds)
	f := float64(m)
	switch {
	case exp == 0:
	case exp > 0 && exp <= 22:
		f *= pow10[exp]
	case exp < 0 && exp >= -22:
		f /= pow10[-exp]
	default:
		if m == 0 {
			f = 0
			exp = 0
		} else {
			return nativeFloat(sym.Sample(s, "floating-point text with a decimal exponent beyond 22"), bitSize)
		}
	}
	if neg {
		f = -f
	}
	sym.FloatNote(f, neg, m, -exp)
	return f, nil
}

func floatChars(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok = ok && (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-')
	}
	return ok
}

func nativeFloat(s string, bitSize int) (float64, error) {
	f, k := sym.NativeParseFloat(s, bitSize)
	switch k {
	case 1:
		return 0, numErr("ParseFloat", s, strconv.ErrSyntax)
	case 2:
		return f, numErr("ParseFloat", s, strconv.ErrRange)
	}
	return f, nil
}

// replaces: strconv.FormatFloat
func FormatFloat(f float64, fmt byte, prec, bitSize int) string {
	if sym.IsConcreteF(f) {
		return sym.NativeFormatFloat(f, fmt, prec, bitSize)
	}
	neg, m, scale, ok := sym.FloatText(f)
	if !ok || fmt != 'f' || prec != -1 || bitSize != 64 {
		return sym.NativeFormatFloat(sym.SampleFloat(f, "text of an arbitrary floating-point value"), fmt, prec, bitSize)
	}
	sign := ""
	if neg {
		sign = "-"
	}
	if m == 0 {
		return sign + "0"
	}
	ds := digits(m)
	if scale <= 0 {
		for i := scale; i < 0; i++ {
			ds += "0"
		}
		return sign + ds
	}
	for scale > 0 && ds[len(ds)-1] == '0' {
		ds = ds[:len(ds)-1]
		scale--
	}
	if scale == 0 {
		return sign + ds
	}
	for len(ds) <= scale {
		ds = "0" + ds
	}
	return sign + ds[:len(ds)-scale] + "." + ds[len(ds)-scale:]
}

// replaces: strconv.AppendFloat
func AppendFloat(dst []byte, f float64, fmt byte, prec, bitSize int) []byte {
	return append(dst, FormatFloat(f, fmt, prec, bitSize)...)
}
