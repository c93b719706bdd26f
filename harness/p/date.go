package p

import (
	"time"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
	"verif/harness/v"
)

func num(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]) - '0'
	}
	return n
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthDays(y, m int) int {
	d := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && leap(y) {
		d++
	}
	return d
}

// dateParts decides whether digits (YYYYMMDD[HH[MM[SS]]]) name a date and time.
func dateParts(s string) (y, mo, d, h, mi, se int, ok bool) {
	y, mo, d = num(s[0:4]), num(s[4:6]), num(s[6:8])
	if len(s) >= 10 {
		h = num(s[8:10])
	}
	if len(s) >= 12 {
		mi = num(s[10:12])
	}
	if len(s) >= 14 {
		se = num(s[12:14])
	}
	if mo < 1 || mo > 12 || d < 1 || h > 23 || mi > 59 || se > 59 {
		return
	}
	ok = d <= monthDays(y, mo)
	return
}

// checkInstant compares a parsed date with civil time at an offset (seconds).
func checkInstant(d *ofxgo.Date, y, mo, day, h, mi, se, ms, off int) {
	want := time.Date(y, time.Month(mo), day, h, mi, se, 0, time.UTC).Unix() - int64(off)
	v.Assert(d.Unix() == want, "the date is another instant than the text says")
	v.Assert(d.Nanosecond() == ms*1000000, "the fraction of the second differs from the text")
}

// year, month and day free (8 digits), no time of day, no zone, with and without blanks around
func C03_day() {
	s := v.Str("date", 8, "0-9")
	pre, post := blanks[v.Choose("pre", 2)], blanks[2*v.Choose("post", 2)]
	var d ofxgo.Date
	err := leaf(pre+s+post, &d)
	y, mo, day, _, _, _, ok := dateParts(s)
	if !ok {
		v.Reach("refused")
		v.Assert(err != nil, "a text that is no date was accepted")
		return
	}
	v.Reach("date")
	if err != nil {
		v.Assert(false, "a date was refused: "+err.Error())
	}
	checkInstant(&d, y, mo, day, 0, 0, 0, 0, 0)
	_, off := d.Zone()
	v.Assert(off == 0, "a date without a zone is not in GMT")
}

// time of day free (2, 4, 6 digits, or 6 and 3 decimals) on three days, no zone: midnight and GMT are the defaults
func C03_time() {
	day := []string{"20200229", "19991231", "00010101"}[v.Choose("day", 3)]
	n := 2 + 2*v.Choose("n", 3)
	t := v.Str("time", n, "0-9")
	frac, ms := "", 0
	if n == 6 && v.Bool("ms") {
		f := v.Str("frac", 3, "0-9")
		frac, ms = "."+f, num(f)
	}
	var d ofxgo.Date
	err := leaf(day+t+frac, &d)
	y, mo, dd, h, mi, se, ok := dateParts(day + t)
	if !ok {
		v.Reach("refused")
		v.Assert(err != nil, "a text that is no time of day was accepted")
		return
	}
	v.Reach("date")
	if err != nil {
		v.Assert(false, "a date was refused: "+err.Error())
	}
	checkInstant(&d, y, mo, dd, h, mi, se, ms, 0)
	_, off := d.Zone()
	v.Assert(off == 0, "a date without a zone is not in GMT")
}

var zoneNames = []string{"", "EST", "GMT", "UTC", "CHADT"}

// zoneText gives a zone of the form [sign]hours[.hundredths][:NAME], hours of 1
// or 2 digits up to 14 either way, hundredths that make whole minutes.
func zoneText() (text string, off int, name string) {
	sign := []string{"", "+", "-"}[v.Choose("sign", 3)]
	hd := v.Str("hours", 1+v.Choose("hlen", 2), "0-9")
	h := num(hd)
	v.Assume(h <= 14)
	text = sign + hd
	off = h * 3600
	if v.Bool("fraction") {
		f := v.Str("hundredths", 2, "0-9")
		v.Assume(v.Or(f[1] == '0', f[1] == '5'))
		text += "." + f
		off += num(f) * 36
	}
	if sign == "-" {
		off = -off
	}
	k := v.Choose("name", len(zoneNames))
	name = zoneNames[k]
	if name != "" {
		text += ":" + name
	}
	return text, off, name
}

func zoned(date string, ms int, msText string) {
	text, off, name := zoneText()
	var d ofxgo.Date
	if err := leaf(date+msText+"["+text+"]", &d); err != nil {
		v.Assert(false, "a date with a zone was refused: "+err.Error())
	}
	y, mo, day, h, mi, se, _ := dateParts(date)
	checkInstant(&d, y, mo, day, h, mi, se, ms, off)
	gotName, gotOff := d.Zone()
	v.Assert(gotOff == off, "the date is kept in another zone than the text says")
	if name != "" {
		v.Assert(gotName == name, "the zone's name was lost: "+gotName)
	} else if off == 0 {
		v.Assert(gotName == "GMT" || gotName == "UTC", "offset 0 without a name is not GMT: "+gotName)
	}
	v.Reach("date")
}

// every zone of -14 to +14 hours and a multiple of 3 minutes, with 1 or 2 digits and signs and 5 names, on full dates with seconds
func C03_zone() { zoned("20200229233015", 0, "") }

// the same zones on a date with milliseconds and on a date without time of day
func C03_zone2() {
	if v.Bool("ms") {
		zoned("20010101000000", 120, ".120")
	} else {
		zoned("20001231", 0, "")
	}
}

// hour and minute free together with whole-hour zones on the last day of a year
func C03_both() {
	t := v.Str("time", 4, "0-9")
	v.Assume(num(t[:2]) <= 23)
	v.Assume(num(t[2:]) <= 59)
	z := v.Choose("zone", 3)
	var d ofxgo.Date
	if err := leaf("20191231"+t+"["+[]string{"-5:EST", "+9", "12"}[z]+"]", &d); err != nil {
		v.Assert(false, "a date with a zone was refused: "+err.Error())
	}
	checkInstant(&d, 2019, 12, 31, num(t[:2]), num(t[2:]), 0, 0, []int{-5, 9, 12}[z]*3600)
	v.Reach("date")
}

// two dates read one after the other: of six zones and forms each, alike or not in name, offset, length of the text; symbolic minutes
func C03_after() {
	one := func(label string) {
		k := v.Choose(label, 8)
		z := []string{"[-5:EST]", "[10:EST]", "[-5.50:EST]", "[-5]", "[10]", "", "[0:GMT]", "[3:GMT]"}[k]
		off := []int{-300, 600, -330, -300, 600, 0, 0, 180}[k]
		t := v.Str(label+" minute", 2, "0-9")
		v.Assume(num(t) <= 59)
		sec, ms := "", 0
		if v.Choose(label+" seconds", 2) == 1 {
			sec, ms = "00.375", 375
		}
		var d ofxgo.Date
		if err := leaf("2019123123"+t+sec+z, &d); err != nil {
			v.Assert(false, "a date with a zone was refused: "+err.Error())
		}
		checkInstant(&d, 2019, 12, 31, 23, num(t), 0, ms, off*60)
		_, o := d.Zone()
		v.Assert(o == off*60, "the date is kept in another zone than the text says")
	}
	one("first")
	one("second")
	v.Reach("both")
}

// malformed: digits of any length to 17 but 8, 9 (an hour of one digit is tolerated), 10, 12 and 14, and one foreign byte in a date or a zone
func C03_malformed() {
	var d ofxgo.Date
	if v.Bool("length") {
		n := v.Choose("n", 18)
		if n == 8 || n == 9 || n == 10 || n == 12 || n == 14 {
			return
		}
		t := v.Str("s", n, "0-9")
		v.Assert(leaf(t, &d) != nil, "a text of the wrong length was accepted as a date")
		if n > 0 {
			v.Assert(leaf(t+"[0:GMT]", &d) != nil, "a text of the wrong length was accepted as a date")
		}
		v.Reach("length")
		return
	}
	s := "20200131101112"
	i := v.Choose("at", len(s))
	c := v.Str("c", 1, "A-Za-z:/+\\- $")
	v.Assert(leaf(s[:i]+c+s[i+1:], &d) != nil, "a foreign byte was accepted in a date")
	z := "-5:EST"
	i = v.Choose("zat", len(z))
	e := v.Str("z", 1, "a-z/$#")
	v.Assert(leaf(s+"["+z[:i]+e+z[i+1:]+"]", &d) != nil, "a foreign byte was accepted in a zone")
	v.Reach("foreign")
}

// zoneOf reads the text of a zone: whether it is one, its offset in seconds and
// its name.
func zoneOf(t string) (ok bool, off int, name string) {
	neg := false
	if t != "" && (t[0] == '+' || t[0] == '-') {
		neg = t[0] == '-'
		t = t[1:]
	}
	n := 0
	for n < len(t) && t[n] >= '0' && t[n] <= '9' {
		off = off*10 + int(t[n]) - '0'
		n++
	}
	if n == 0 || off > 24 {
		return
	}
	off *= 3600
	t = t[n:]
	if len(t) >= 3 && t[0] == '.' {
		for _, c := range t[1:3] {
			if c < '0' || c > '9' {
				return
			}
		}
		off += num(t[1:3]) * 60 / 100 * 60
		t = t[3:]
	}
	if neg {
		off = -off
	}
	if t == "" {
		return true, off, ""
	}
	if t[0] != ':' || len(t) == 1 {
		return
	}
	for i := 1; i < len(t); i++ {
		if t[i] < 'A' || t[i] > 'Z' {
			return
		}
	}
	return true, off, t[1:]
}

// any text of 0 to 5 characters in the brackets of a zone, alone or after one of four beginnings
func C03_brackets() {
	text := []string{"", "-5", "+12.", "-0.25:", "10:"}[v.Choose("beginning", 5)] + v.Str("zone", v.Choose("length", 6), "+.:05AZ\\-a")
	var d ofxgo.Date
	err := leaf("20200229233015["+text+"]", &d)
	ok, off, name := zoneOf(text)
	if !ok {
		v.Reach("refused")
		v.Assert(err != nil, "a text which is no zone is accepted: "+text)
		return
	}
	v.Reach("read")
	if err != nil {
		v.Assert(false, "a zone is refused: "+text+": "+err.Error())
	}
	checkInstant(&d, 2020, 2, 29, 23, 30, 15, 0, off)
	n, o := d.Zone()
	v.Assert(o == off && (n == name || name == "" && off == 0 && n == "GMT"), "the date is kept in another zone than the text says")
}

// a date followed, after the bracket of its zone, by up to 4 arbitrary printable characters: they are ignored
func C03_tail() {
	z := v.Choose("zone", 3)
	var d ofxgo.Date
	if err := leaf("20200229233015"+[]string{"[-5:EST]", "[9]", "[0:GMT]"}[z]+v.Str("tail", v.Choose("length", 5), " -%'-;=?-~"), &d); err != nil {
		v.Assert(false, "a date with a zone was refused: "+err.Error())
	}
	checkInstant(&d, 2020, 2, 29, 23, 30, 15, 0, []int{-5, 9, 0}[z]*3600)
	v.Reach("read")
}

type dateHolder struct {
	XMLName xml.Name   `xml:"H"`
	X       ofxgo.Date `xml:"X"`
}

// roundTrip prints a date, reads it back and compares.
func dateRoundTrip(d ofxgo.Date) {
	t := d.String()
	v.Observe("t", t)
	n0, o0 := d.Zone()
	var b ofxgo.Date
	if err := leaf(t, &b); err != nil {
		v.Assert(false, "a printed date is refused: "+t+": "+err.Error())
	}
	v.Assert(b.Unix() == d.Unix(), "printing a date changed the instant: "+t)
	v.Assert(b.Nanosecond() == d.Nanosecond()/1000000*1000000, "printing a date changed its milliseconds: "+t)
	n1, o1 := b.Zone()
	v.Assert(o1 == o0, "printing a date changed the zone's offset: "+t)
	if capitals(n0) {
		v.Assert(n1 == n0, "printing a date changed the zone's name: "+t)
	}
	if d.Nanosecond()%1000000 == 0 {
		v.Assert(b.Equal(d) && d.Equal(b), "a date printed and read again is not equal to itself: "+t)
	}
	h := dateHolder{X: d}
	out, err := xml.Marshal(&h)
	if err != nil {
		v.Assert(false, "the date was not written: "+err.Error())
	}
	v.Assert(string(out) == "<H><X>"+t+"</X></H>", "the element differs from the printed date: "+string(out))
	v.Reach("printed")
}

func capitals(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 'A' || s[i] > 'Z' {
			return false
		}
	}
	return s != ""
}

// a zone of any name of 1 to 5 characters, of three offsets: the name is printed if it is made of capital letters, and the date can be read back
func C04_name() {
	n := v.Str("name", 1+v.Choose("length", 5), "")
	k := v.Choose("offset", 3)
	d := ofxgo.NewDate(2020, 2, 29, 12, 30, 15, 250000000, time.FixedZone(n, []int{0, -3 * 3600, 345 * 60}[k]))
	dateRoundTrip(*d)
	want := "20200229123015.250[" + []string{"0", "-3", "5.75"}[k]
	if capitals(n) {
		v.Reach("named")
		want += ":" + n
	}
	v.Assert(d.String() == want+"]", "the date is printed in another form")
}

// any offset from -14:57 to +14:57 by multiples of 3 minutes, four zone names or none, two civil times
func C04_zone() {
	q := v.Range("offset", -299, 299)
	q = v.Concrete(q)
	name := []string{"", "GMT", "EST", "UTC", "CHADT"}[v.Choose("name", 5)]
	loc := time.FixedZone(name, q*180)
	if v.Bool("late") {
		dateRoundTrip(ofxgo.Date{Time: time.Date(1999, 12, 31, 23, 59, 59, 999000000, loc)})
	} else {
		dateRoundTrip(*ofxgo.NewDate(2020, 2, 29, 0, 0, 0, 0, loc))
	}
}

// any hour, minute, second and millisecond on one day, in three zones
func C04_time() {
	h, mi, se := v.Range("h", 0, 23), v.Range("mi", 0, 59), v.Range("se", 0, 59)
	ms := v.Range("ms", 0, 999)
	off := []int{0, -5 * 3600, 5*3600 + 1800}[v.Choose("off", 3)]
	switch v.Choose("free", 2) {
	case 0:
		mi = 7
	case 1:
		h, se = 23, 5
	}
	dateRoundTrip(*ofxgo.NewDate(2020, 3, 1, h, mi, se, ms*1000000, time.FixedZone("XYZ", off)))
}

// any day of the years 0 to 9999 at one of three times, GMT
func C04_day() {
	t := v.Str("date", 8, "0-9")
	_, _, _, _, _, _, ok := dateParts(t)
	v.Assume(ok)
	t += []string{"000000.000", "235959.999", "070930.005"}[v.Choose("time", 3)]
	var d ofxgo.Date
	if err := leaf(t, &d); err != nil {
		v.Assert(false, "a date was refused: "+err.Error())
	}
	v.Assert(d.String() == t+"[0:GMT]", "a date is printed as another one")
	v.Reach("printed")
}

// nanoseconds free: anything below a millisecond is dropped, nothing else
func C04_nanos() {
	ns := v.Range("ns", 0, 999999999)
	dateRoundTrip(*ofxgo.NewDateGMT(2021, 7, 4, 12, 0, 59, ns))
}

// equality: two dates in zones a number of quarter-hours apart, any seconds: equal exactly for the same instant
func C04_equal() {
	s, t := v.Range("s", 0, 86399), v.Range("t", 0, 86399)
	q := v.Choose("q", 9) - 4
	a := ofxgo.Date{Time: time.Date(2020, 6, 30, 0, 0, s, 0, time.UTC)}
	b := ofxgo.Date{Time: time.Date(2020, 6, 30, 0, 0, t, 0, time.FixedZone("XYZ", q*900))}
	same := s == t-q*900
	v.Assert(a.Equal(b) == same, "equality of dates does not follow their instants")
	v.Assert(b.Equal(a) == same, "equality of dates is not symmetric")
	v.Reach("compared")
}

// two dates one after the other, of the same or another civil time, in zones with the same name or not, and the same offset or not
func C04_two() {
	k, n := v.Choose("offset", 4), v.Choose("name", 3)
	first := v.Str("first", 2, "A-Z")
	second := first
	switch n {
	case 1:
		second = v.Str("second", 2, "A-Z")
	case 2:
		first, second = "", ""
	}
	hour := v.Range("hour", 0, 23)
	one := time.Date(2020, 2, 29, 12, 30, 15, 250000000, time.FixedZone(first, -3*3600))
	two := time.Date(2020, 2, 29, hour, 30, 15, 250000000, time.FixedZone(second, []int{-3 * 3600, 3 * 3600, -3*3600 + 900, 0}[k]))
	a := ofxgo.Date{Time: one}
	before := a.String()
	dateRoundTrip(ofxgo.Date{Time: two})
	v.Assert(a.String() == before, "a date is printed differently after another one")
	dateRoundTrip(a)
}
