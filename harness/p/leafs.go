package p

import (
	"encoding/hex"
	"strings"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
	"verif/harness/v"
)

// any text of up to 3 characters over letters, digits and blanks as a boolean
func C05_boolean() {
	s := v.Str("s", v.Choose("n", 4), "A-Za-z0-9 \n\t")
	var b ofxgo.Boolean
	err := leaf(s, &b)
	t := trimBlank(s)
	v.Assert((err == nil) == (t == "Y" || t == "N"), "booleans are not exactly Y and N")
	if err == nil {
		v.Reach("boolean")
		v.Assert(bool(b) == (t == "Y"), "a boolean is read as its opposite")
		if t == "Y" {
			v.Assert(b.String() == "true", "Y prints as "+b.String())
		} else {
			v.Assert(b.String() == "false", "N prints as "+b.String())
		}
	}
	x := v.Bool("x")
	y := v.Bool("y")
	out, err := xml.Marshal(&struct {
		XMLName xml.Name      `xml:"H"`
		X       ofxgo.Boolean `xml:"X"`
	}{X: ofxgo.Boolean(x)})
	want := "<H><X>N</X></H>"
	if x {
		want = "<H><X>Y</X></H>"
	}
	v.Assert(err == nil && string(out) == want, "a boolean is written as "+string(out))
	v.Assert(ofxgo.Boolean(x).Equal(ofxgo.Boolean(y)) == (x == y), "equality of booleans")
}

// any text of up to 4 characters over digits, signs, blanks and a few others as an integer
func C05_int_short() {
	s := v.Str("s", v.Choose("n", 5), "0-9+\\- .,x_eA")
	var i ofxgo.Int
	err := leaf(s, &i)
	t := trimBlank(s)
	neg := false
	if t != "" && (t[0] == '-' || t[0] == '+') {
		neg, t = t[0] == '-', t[1:]
	}
	ok := t != ""
	n := int64(0)
	for j := 0; j < len(t); j++ {
		if t[j] < '0' || t[j] > '9' {
			ok = false
			break
		}
		n = n*10 + int64(t[j]) - '0'
	}
	if neg {
		n = -n
	}
	v.Assert((err == nil) == ok, "integers are not exactly the signed decimal digits")
	if ok {
		v.Reach("integer")
		v.Assert(int64(i) == n, "the integer differs from its text")
	}
}

// the limits of 64 bits with each sign, any one of their 19 digits replaced by any digit (and 20 digits starting with any two): accepted exactly within the limits
func C05_int_long() {
	sign := []string{"", "-", "+"}[v.Choose("sign", 3)]
	limit := "9223372036854775807"
	if sign == "-" {
		limit = "9223372036854775808"
	}
	k := v.Choose("position", 20)
	d := []byte(limit)
	t := ""
	if k < 19 {
		d[k] = v.ByteIn("digit", "0-9")
		t = string(d)
	} else {
		t = v.Str("digits", 2, "0-9") + limit[1:]
	}
	var i ofxgo.Int
	err := leaf(sign+t, &i)
	ok := true
	if len(t) == 20 {
		ok = t[0] == '0'
		t = t[1:]
	}
	ok = ok && t <= limit
	v.Assert((err == nil) == ok, "the limits of integers are not those of 64 bits")
	if ok {
		u := uint64(0)
		for j := 0; j < len(t); j++ {
			u = u*10 + uint64(t[j]) - '0'
		}
		if sign == "-" {
			u = -u
		}
		v.Assert(uint64(i) == u, "the integer differs from its text")
		v.Reach("integer")
	}
}

// any integer of up to 2 digits and the 64-bit limits: printed and read back; any other such integer for equality
func C05_int_print() {
	n := int64(v.Range("n", -99, 99))
	switch v.Choose("far", 3) {
	case 1:
		n = 1<<63 - 1
	case 2:
		n = -1 << 63
	}
	type holder struct {
		XMLName xml.Name  `xml:"H"`
		X       ofxgo.Int `xml:"X"`
	}
	out, err := xml.Marshal(&holder{X: ofxgo.Int(n)})
	v.Assert(err == nil, "an integer was not written")
	var h holder
	err = xml.Unmarshal(out, &h)
	v.Assert(err == nil, "a written integer is refused")
	v.Assert(int64(h.X) == n, "an integer changed when written and read back")
	v.Reach("printed")
}

// any two 64-bit integers: equal exactly if they are the same number
func C05_int_equal() {
	n, m := v.Int64("n"), v.Int64("m")
	v.Assert(ofxgo.Int(n).Equal(ofxgo.Int(m)) == (n == m), "equality of integers")
	v.Reach("equal")
}

// the currencies of ISO 4217 in use (without funds and precious metals)
const currencies = "AED AFN ALL AMD ANG AOA ARS AUD AWG AZN BAM BBD BDT BGN BHD BIF BMD BND BOB BRL BSD BTN BWP BZD CAD CDF CHF CLP CNY COP CRC CUP CVE CZK DJF DKK DOP DZD EGP ERN ETB EUR FJD FKP GBP GEL GHS GIP GMD GNF GTQ GYD HKD HNL HTG HUF IDR ILS INR IQD IRR ISK JMD JOD JPY KES KGS KHR KMF KPW KRW KWD KYD KZT LAK LBP LKR LRD LSL LYD MAD MDL MGA MKD MMK MNT MOP MUR MVR MWK MXN MYR MZN NAD NGN NIO NOK NPR NZD OMR PAB PEN PGK PHP PKR PLN PYG QAR RON RSD RUB RWF SAR SBD SCR SDG SEK SGD SHP SOS SRD SSP SVC SYP SZL THB TJS TMT TND TOP TRY TTD TWD TZS UAH UGX USD UYU UZS VND VUV WST XAF XCD XOF XPF YER ZAR ZMW"

// each of the 153 currencies of ISO 4217 in use, its letters in any case, blanks around it: read, printed in capitals, valid, read back, equal to itself only
func C05_currency() {
	k := v.Choose("currency", (len(currencies)+1)/4)
	code := currencies[4*k : 4*k+3]
	t := []byte(code)
	for i := range t {
		if v.Bool("lower") {
			t[i] += 'a' - 'A'
		}
	}
	var c ofxgo.CurrSymbol
	if err := leaf(blanks[v.Choose("pre", 2)]+string(t)+blanks[v.Choose("post", 2)], &c); err != nil {
		v.Assert(false, "a currency of ISO 4217 is refused: "+code+": "+err.Error())
	}
	v.Assert(c.String() == code, "a currency is read as another: "+code+" as "+c.String())
	ok, err := c.Valid()
	v.Assert(ok && err == nil, "a currency of ISO 4217 is invalid: "+code)
	type holder struct {
		XMLName xml.Name         `xml:"H"`
		X       ofxgo.CurrSymbol `xml:"X"`
	}
	out, err := xml.Marshal(&holder{X: c})
	v.Assert(err == nil && string(out) == "<H><X>"+code+"</X></H>", "a currency is written as "+string(out))
	n, err := ofxgo.NewCurrSymbol(string(t))
	v.Assert(err == nil && n != nil, "a currency of ISO 4217 is refused: "+code)
	v.Assert(n.Equal(c) && n.String() == code, "a currency made from its code differs from the one read")
	j := v.Choose("other", 3)
	other := []string{"USD", "EUR", "XXX"}[j]
	o, err := ofxgo.NewCurrSymbol(other)
	v.Assert(err == nil && o.Equal(c) == (other == code), "equality of currencies")
	v.Reach("currency")
}

// any text of up to 4 printable characters that are not 3 letters, the non-currency XXX and an unset currency: refused or invalid
func C05_currency_bad() {
	n := v.Choose("n", 5)
	s := v.Str("s", n, "!-%'-;=?-~")
	t := s
	three := n == 3
	for i := 0; i < n && three; i++ {
		three = v.InClass(s[i], "A-Za-z")
	}
	if !three {
		var c ofxgo.CurrSymbol
		v.Assert(leaf(t, &c) != nil, "a text that is no currency code is accepted as currency: "+t)
		_, err := ofxgo.NewCurrSymbol(t)
		v.Assert(err != nil, "a text that is no currency code makes a currency: "+t)
		v.Reach("refused")
		return
	}
	var c ofxgo.CurrSymbol
	ok, err := c.Valid()
	v.Assert(!ok && err != nil, "an unset currency is valid")
	if s == "XXX" {
		v.Assert(leaf(s, &c) == nil, "XXX")
		ok, err := c.Valid()
		v.Assert(!ok && err != nil, "the non-currency XXX is valid")
		v.Reach("none")
	}
}

// any printable ASCII text of up to 5 characters without markup, blanks allowed anywhere: strings and UIDs keep all but the surrounding blanks
func C05_string() {
	s := v.Str("s", v.Choose("n", 6), " \n\t!-%'-;=?-~")
	pre, post := blanks[v.Choose("pre", 2)*2], blanks[v.Choose("post", 2)]
	t := trimBlank(s)
	str := ofxgo.String("old")
	if err := leaf(pre+s+post, &str); err != nil {
		v.Assert(false, "a string is refused: "+err.Error())
	}
	v.Assert(string(str) == t, "a string differs from its text without the surrounding blanks")
	uid := ofxgo.UID("old")
	if err := leaf(pre+s+post, &uid); err != nil {
		v.Assert(false, "a UID is refused: "+err.Error())
	}
	v.Assert(string(uid) == t, "a UID differs from its text without the surrounding blanks")
	v.Assert(str.String() == t, "a string prints differently")
	o := v.Str("o", len(t), "A-Z ")
	v.Assert(str.Equal(ofxgo.String(o)) == (t == o), "equality of strings")
	v.Assert(uid.Equal(ofxgo.UID(o)) == (t == o), "equality of UIDs")
	v.Reach("string")
}

// any ASCII text of 1 to 3 bytes with markup characters, references and sections, in a string element
func C05_string_markup() {
	forms := []struct{ text, want string }{
		{"a&amp;b", "a&b"}, {"&lt;X&gt;", "<X>"}, {"&#65;&#x42;", "AB"}, {"<![CDATA[<a&b>]]>", "<a&b>"}, {"&quot;x&apos;", "\"x'"},
		{"x<!-- c -->y", "xy"},
	}
	f := forms[v.Choose("form", len(forms))]
	pre, post := v.Str("pre", v.Choose("np", 3), "a-zA-Z0-9"), v.Str("post", v.Choose("nq", 3), "a-zA-Z0-9")
	var str ofxgo.String
	if err := leaf(pre+f.text+post, &str); err != nil {
		v.Assert(false, "a string is refused: "+err.Error())
	}
	v.Assert(string(str) == pre+f.want+post, "a string with references differs from its text: "+string(str))
	v.Reach("string")
}

// kept reads and writes a text without surrounding blanks as a string and a UID.
func kept(s string) {
	str, uid := ofxgo.String("old"), ofxgo.UID("old")
	if err := leaf(s, &str); err != nil {
		v.Assert(false, "a string is refused: "+err.Error())
	}
	v.Assert(string(str) == s, "a string differs from its text")
	if err := leaf(s, &uid); err != nil {
		v.Assert(false, "a UID is refused: "+err.Error())
	}
	v.Assert(string(uid) == s, "a UID differs from its text")
	type holder struct {
		XMLName xml.Name     `xml:"H"`
		X       ofxgo.String `xml:"X"`
		Y       ofxgo.UID    `xml:"Y"`
	}
	out, err := xml.Marshal(&holder{X: str, Y: uid})
	v.Assert(err == nil, "a string is not written")
	v.Assert(string(out) == "<H><X>"+s+"</X><Y>"+s+"</Y></H>", "a string is written differently")
	v.Reach("string")
}

// characters of 2, 3 and 4 UTF-8 bytes, any of most of their blocks, alone (U+00C0 to U+07FF), between and beside any letters: strings and UIDs keep them, both ways
func C05_string_utf8() {
	c, edge := "", true
	cont := func() string { return v.Str("continuation", 1, "\x80-\xbf") }
	switch v.Choose("bytes", 3) {
	case 0:
		c = v.Str("lead", 1, "\xc3-\xdf") + cont()
	case 1:
		c, edge = v.Str("lead", 1, "\xe1-\xec\xee")+cont()+cont(), false
	case 2:
		c = v.Str("lead", 1, "\xf1-\xf3") + cont() + cont() + cont()
	}
	a, b := v.Str("before", 1, "a-zA-Z"), v.Str("after", 1, "a-zA-Z")
	switch v.Choose("place", 3) {
	case 0:
		kept(a + c + b)
	case 1:
		v.Assume(edge)
		kept(c)
	case 2:
		kept(a + c + c + b)
	}
}

// texts of 14 lengths from 31 to 5000 of any letters and digits (beyond 257: of any such first and last 16 and middle ones), with single blanks inside: strings and UIDs keep them, both ways
func C05_string_long() {
	n := []int{31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 5000}[v.Choose("length", 14)]
	ch := "a-zA-Z0-9.,*"
	if n <= 257 {
		kept(v.Str("a", n/2, ch) + " " + v.Str("b", n-n/2-1, ch))
		return
	}
	f := strings.Repeat("x y", n)
	kept(v.Str("a", 16, ch) + f[:n/2-24] + v.Str("m", 16, ch) + f[:n-n/2-24] + v.Str("b", 16, ch))
}

// any UID length from 0 to 40: valid exactly from 1 to 36 bytes; the recommended form is 36 bytes with hyphens at 8, 13, 18 and 23
func C23_valid() {
	n := v.Choose("n", 41)
	u := ofxgo.UID(v.Str("uid", n, ""))
	ok, err := u.Valid()
	v.Assert(ok == (n >= 1 && n <= 36), "UIDs are valid at the wrong lengths")
	v.Assert(ok == (err == nil), "validity and error of a UID disagree")
	rec, err := u.RecommendedFormat()
	want := n == 36
	if n == 36 {
		want = v.And(u[8] == '-', u[13] == '-', u[18] == '-', u[23] == '-')
	}
	v.Assert(rec == want, "the recommended form is not 36 bytes with hyphens at 8, 13, 18 and 23")
	v.Assert(rec == (err == nil), "recommendation and error of a UID disagree")
	v.Assert(v.Implies(rec, ok), "a UID in the recommended form is invalid")
	v.Reach("checked")
}

type randomBytes struct {
	b     []byte
	read  int
	piece int  // bytes given at a time
	more  bool // never ends
}

func (r *randomBytes) Read(p []byte) (int, error) {
	n := 0
	if r.piece > 0 && r.read < len(r.b) && len(p) > r.piece {
		p = p[:r.piece]
	}
	for n < len(p) && r.read < len(r.b) {
		p[n] = r.b[r.read]
		n++
		r.read++
	}
	if r.more {
		for n < len(p) {
			p[n] = byte(r.read)
			n++
			r.read++
		}
	}
	if n < len(p) {
		return n, anyFault()
	}
	return n, nil
}

// any 16 random bytes, given all at once or in pieces: the UID spells all 128 bits in hexadecimal in the recommended form
func C23_random() {
	b := v.Bytes("random", 16, "")
	setRandom(&randomBytes{b: b, piece: []int{0, 1, 5, 15, 16}[v.Choose("piece", 5)]})
	u, err := ofxgo.RandomUID()
	if err != nil {
		v.Assert(false, "no UID: "+err.Error())
	}
	ok, _ := u.Valid()
	v.Assert(ok, "a random UID is invalid")
	rec, _ := u.RecommendedFormat()
	v.Assert(rec, "a random UID is not in the recommended form")
	h := hex.EncodeToString(b)
	want := h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
	v.Assert(strings.EqualFold(string(*u), want), "a random UID does not spell the random bits")
	v.Reach("uid")
}

// two UIDs made of any two sequences of 16 random bytes are equal only if the bytes are
func C23_distinct() {
	b, c := v.Bytes("first", 16, ""), v.Bytes("second", 16, "")
	r := &randomBytes{b: append(append([]byte(nil), b...), c...), piece: []int{16, 7}[v.Choose("piece", 2)], more: true}
	setRandom(r)
	u, err := ofxgo.RandomUID()
	w, err2 := ofxgo.RandomUID()
	v.Assert(err == nil && err2 == nil, "no UID")
	if r.read <= 32 { // no bytes were left out between them
		v.Assert(v.Implies(*u == *w, string(b) == string(c)), "two random UIDs coincide although the random bits differ")
	}
	v.Assert(u.Equal(*w) == (*u == *w), "equality of UIDs")
	v.Reach("uids")
}
