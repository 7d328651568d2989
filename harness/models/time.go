package models

import "strconv"

// TimeAppendInt appends the decimal digits of x padded with zeros to width.
//
// replaces: time.appendInt
func TimeAppendInt(b []byte, x int, width int) []byte {
	u := uint64(x)
	if x < 0 {
		b = append(b, '-')
		u = -u
	}
	if width == 0 {
		width = 1
	}
	lim := uint64(1)
	for i := 0; i < width && i < 19; i++ {
		lim *= 10
	}
	if u >= lim {
		return append(b, strconv.FormatUint(u, 10)...)
	}
	start := len(b)
	for i := 0; i < width; i++ {
		b = append(b, '0')
	}
	for i := width - 1; i >= 0; i-- {
		q := u / 10
		b[start+i] = '0' + byte(u-q*10)
		u = q
	}
	return b
}
