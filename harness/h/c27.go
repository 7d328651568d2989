package h

import (
	"time"

	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

type timeFields struct {
	T time.Time
	O time.Time `json:"o,omitempty"`
	A time.Time `json:"a,allowempty"`
	P *time.Time
	L []time.Time
	M map[string]time.Time
}

// timeTrip asserts that t, marshalled in one of several positions and possibly
// sent through text, is read back as want.
func timeTrip(how int, t, want time.Time) {
	var v jsonutils.JSONObject
	var u time.Time
	const msg = "a time survives to the microsecond"
	switch how {
	case 0:
		v = jsonutils.Marshal(t)
		s, err := v.GetString()
		sym.Assert(err == nil, "a time is marshalled to a string")
		sym.Observe("text", s)
		sym.Assert(v.Unmarshal(&u) == nil && u.Equal(want), msg)
	case 1:
		v = jsonutils.Marshal(t)
		w, err := jsonutils.ParseString(v.String())
		sym.Assert(err == nil && w.Unmarshal(&u) == nil && u.Equal(want), msg+" through text")
	case 2:
		v = jsonutils.Marshal(timeFields{T: t, O: t, A: t, L: []time.Time{t}, M: map[string]time.Time{"k": t}})
		var f timeFields
		sym.Assert(v.Unmarshal(&f) == nil && f.T.Equal(want) && f.O.Equal(want) && f.A.Equal(want) && len(f.L) == 1 && f.L[0].Equal(want) && len(f.M) == 1 && f.M["k"].Equal(want), msg+" as a field")
	case 3:
		v = jsonutils.Marshal(map[string]interface{}{"t": t})
		w, err := v.GetTime("t")
		sym.Assert(err == nil && w.Equal(want), msg+" and is read with GetTime")
	case 4:
		v = jsonutils.Marshal(struct{ P *time.Time }{&t})
		var f struct{ P *time.Time }
		sym.Assert(v.Unmarshal(&f) == nil && f.P != nil && f.P.Equal(want), msg+" through a pointer")
	}
}

var c27dates = [][3]int{{2024, 2, 29}, {2023, 12, 31}, {1, 1, 1}, {0, 1, 1}, {9999, 12, 31}, {1970, 1, 1}, {1900, 3, 1}}

func clock() (h, m, s, us, sub int) {
	for i := 0; i < 6; i++ {
		us = us*10 + int(sym.ByteIn("us", 0, 9))
	}
	for i := 0; i < 3; i++ {
		sub = sub*10 + int(sym.ByteIn("ns", 0, 9))
	}
	return int(sym.ByteIn("h", 0, 23)), int(sym.ByteIn("m", 0, 59)), int(sym.ByteIn("s", 0, 59)), us, sub
}

// Every time of day to the nanosecond, at several dates.
func C27_clock() {
	how := sym.Choose("how", 5)
	d := c27dates[sym.Choose("date", len(c27dates))]
	h, m, s, us, ns := clock()
	if d[0] == 1 && d[1] == 1 && d[2] == 1 {
		sym.Assume(h+m+s+us+ns > 0) // not the zero time
	}
	sym.Bound("time", "every nanosecond of 7 dates, UTC")
	timeTrip(how, time.Date(d[0], time.Month(d[1]), d[2], h, m, s, us*1000+ns, time.UTC), time.Date(d[0], time.Month(d[1]), d[2], h, m, s, us*1000, time.UTC))
}

// Every day of every month in years of all kinds.
func C27_day() {
	sym.Bound("day", "every day of every month of 14 years")
	y := []int{0, 1, 4, 100, 400, 1582, 1900, 1969, 1970, 2000, 2023, 2024, 2100, 9999}[sym.Choose("year", 14)]
	m := 1 + sym.Choose("month", 12)
	d := int(sym.ByteIn("day", 1, 31))
	t := time.Date(y, time.Month(m), d, 23, 59, 59, 999999000, time.UTC)
	// a day past the end of the month is the next month's; not past the last year
	timeTrip(sym.Choose("how", 2), t, t)
}

// Every year.
func C27_year() {
	sym.Bound("year", "every year 0..9999, four dates")
	md := [][2]int{{1, 1}, {2, 28}, {3, 1}, {12, 31}}[sym.Choose("date", 4)]
	c := sym.Choose("century", 100)
	y := int(sym.ByteIn("yy", 0, 99))
	t := time.Date(c*100+y, time.Month(md[0]), md[1], 12, 0, 0, 1000, time.UTC)
	timeTrip(0, t, t)
}

// Instants given in another zone.
func C27_zone() {
	sym.Bound("zone", "every nanosecond of one day, seven zone offsets")
	h, m, s, us, ns := clock()
	off := []int{3600, -3600, 8 * 3600, -5*3600 - 1800, 14 * 3600, -12 * 3600, 59}[sym.Choose("zone", 7)]
	z := time.FixedZone("Z", off)
	timeTrip(sym.Choose("how", 5), time.Date(2023, 12, 31, h, m, s, us*1000+ns, z), time.Date(2023, 12, 31, h, m, s, us*1000, z))
}

// The zero time.
func C27_zero() {
	sym.Bound("zero", "the zero time in two zones, every position")
	h := int(sym.ByteIn("h", 0, 23))
	other := time.Date(2001, 2, 3, h, 5, 6, 0, time.UTC)
	var zero time.Time
	if sym.Bool("zone") {
		zero = zero.In(time.FixedZone("Z", 3600))
	}
	v := jsonutils.Marshal(zero)
	s, err := v.GetString()
	sym.Assert(err == nil && s == "", "the zero time is marshalled to an empty string")
	u := other
	sym.Assert(v.Unmarshal(&u) == nil && u.IsZero(), "an empty string gives the zero time")
	o := jsonutils.Marshal(timeFields{T: zero, P: &zero, A: zero, L: []time.Time{zero, other}})
	_, e := o.Get("o")
	sym.Assert(e != nil, "a zero time with omitempty is omitted")
	a, e2 := o.GetString("a")
	sym.Assert(e2 == nil && a == "", "a zero time with allowempty is an empty string")
	f := timeFields{A: other}
	if sym.Bool("text") {
		o, err = jsonutils.ParseString(o.String())
		sym.Assert(err == nil, "the text parses")
	}
	sym.Assert(o.Unmarshal(&f) == nil && f.T.IsZero() && f.O.IsZero() && f.A.IsZero() && (f.P == nil || f.P.IsZero()) && len(f.L) == 2 && f.L[0].IsZero() && f.L[1].Equal(other), "zero times come back as zero times")
	// through pointers
	p := &other
	w := jsonutils.Marshal(&zero)
	s, err = w.GetString()
	sym.Assert(err == nil && s == "", "a pointer to the zero time is marshalled to an empty string")
	sym.Assert(w.Unmarshal(&p) == nil && p != nil && p.IsZero(), "an empty string gives a pointer the zero time")
}

// Texts to the second made by NewTimeString.
func C27_seconds() {
	sym.Bound("seconds", "every second of 7 dates")
	d := c27dates[sym.Choose("date", len(c27dates))]
	h, m, s, us, ns := clock()
	t := time.Date(d[0], time.Month(d[1]), d[2], h, m, s, us*1000+ns, time.UTC)
	want := time.Date(d[0], time.Month(d[1]), d[2], h, m, s, 0, time.UTC)
	v := jsonutils.NewTimeString(t)
	u, err := v.GetTime()
	sym.Assert(err == nil && u.Equal(want), "NewTimeString is read back by GetTime to the second")
	var w time.Time
	sym.Assert(v.Unmarshal(&w) == nil && w.Equal(want), "NewTimeString is read back by Unmarshal to the second")
}
