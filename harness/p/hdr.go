package p

import (
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// signonBody is the shortest document after a header.
const signonBody = "<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1></OFX>"

var sgmlFields = []string{"OFXHEADER", "DATA", "VERSION", "SECURITY", "ENCODING", "CHARSET", "COMPRESSION", "OLDFILEUID", "NEWFILEUID"}

func sgmlValues(ver string) []string {
	return []string{"100", "OFXSGML", ver, "NONE", "USASCII", "1252", "NONE", "NONE", "NONE"}
}

func hdrSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' }

func hdrTrim(s string) string {
	for len(s) > 0 && hdrSpace(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && hdrSpace(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

// sgmlVersion gives the version an SGML header tells, "" for an invalid header.
func sgmlVersion(h string) (ver string) {
	i := strings.IndexByte(h, ':')
	if i < 0 || h[:i] != "OFXHEADER" {
		return ""
	}
	h = h[i+1:]
	for k, name := range sgmlFields {
		val := h
		if k+1 < len(sgmlFields) {
			i := strings.IndexByte(h, ':')
			if i < 0 {
				return ""
			}
			next := sgmlFields[k+1]
			val, h = h[:i], h[i+1:]
			if !strings.HasSuffix(val, next) {
				return ""
			}
			val = val[:len(val)-len(next)]
		}
		val = hdrTrim(val)
		if val == "" {
			return ""
		}
		class := "A-Za-z0-9_\\-"
		switch name {
		case "OFXHEADER":
			if val != "100" {
				return ""
			}
			continue
		case "DATA":
			if val != "OFXSGML" {
				return ""
			}
			continue
		case "SECURITY":
			if val != "NONE" && val != "TYPE1" {
				return ""
			}
			continue
		case "COMPRESSION":
			if val != "NONE" {
				return ""
			}
			continue
		case "VERSION":
			for _, t := range []string{"102", "103", "151", "160"} {
				if val == t {
					ver = t
				}
			}
			if ver == "" {
				return ""
			}
			continue
		case "ENCODING":
			class = "A-Z0-9\\-"
		}
		for i := 0; i < len(val); i++ {
			if !v.InClass(val[i], class) {
				return ""
			}
		}
	}
	return ver
}

func checkHeader(h, want string) {
	r, err := ofxgo.DecodeResponse(strings.NewReader(h + signonBody))
	if want == "" {
		v.Reach("refused")
		v.Assert(err != nil, "a document with an invalid header is read")
		v.Assert(r == nil, "a refused document is returned")
		return
	}
	v.Reach("accepted")
	if err != nil {
		v.Assert(false, "a document with a valid header is refused: "+err.Error())
	}
	v.Assert(r.Version.String() == want, "the version is read as "+r.Version.String())
}

// sgmlText writes an SGML header with the given fields, values and what is
// around them.
func sgmlText(names, vals []string, colon, end string) string {
	s := ""
	for i := range names {
		s += names[i] + ":" + colon + vals[i] + end
	}
	return s
}

// SGML headers in which one field has any value of 0 to 3 bytes, or one which
// begins or ends like the right one with an arbitrary byte; one version each.
func C08_sgml_value() { sgmlValue(v.Choose("length", 7)) }

// SGML headers in which one field has any value of 4 bytes.
func C08_sgml_value_deep() { sgmlValue(7) }

func sgmlValue(n int) {
	k := v.Choose("field", len(sgmlFields))
	ver := versionText[k%4]
	vals := sgmlValues(ver)
	switch n {
	case 4:
		vals[k] += v.Str("byte", 1, "")
	case 5:
		vals[k] = v.Str("byte", 1, "") + vals[k]
	case 6:
		i := len(vals[k]) / 2
		vals[k] = vals[k][:i] + v.Str("byte", 1, "") + vals[k][i+1:]
	default:
		if n == 7 {
			n = 4
		}
		vals[k] = v.Str("value", n, "")
	}
	h := sgmlText(sgmlFields, vals, "", "\n") + "\n"
	want := ""
	if strings.IndexByte(h, '<') < 0 {
		want = sgmlVersion(h)
	}
	checkHeader(h, want)
}

// SGML headers with any three digits, and any six, as version, and with the
// known values of each field in place of any other's.
func C08_sgml_version() {
	vals := sgmlValues("102")
	if v.Bool("digits") {
		vals[2] = v.Str("version", 3+3*v.Choose("long", 2), "0-9")
	} else {
		all := []string{"100", "200", "102", "103", "151", "160", "201", "202", "203", "210", "211", "220", "OFXSGML", "OFXXML", "NONE", "TYPE1", "USASCII", "UTF-8", "UNICODE", "1252", "ISO-8859-1", "none", "TYPE2", "0", "-1"}
		vals[v.Choose("field", len(vals))] = all[v.Choose("value", len(all))]
	}
	h := sgmlText(sgmlFields, vals, "", "\r\n") + "\r\n"
	checkHeader(h, sgmlVersion(h))
}

// SGML headers with nothing, blanks or line breaks after colons and values,
// and two arbitrary bytes at any one of these places or before the header.
func C08_sgml_space() {
	l := v.Choose("layout", 4)
	colon, end := []string{"", " ", "", "\t "}[l], []string{"", "\n", "\r\n", "\r\n\r\n"}[l]
	k := v.Choose("place", 19)
	x := v.Str("bytes", 2, "")
	vals := sgmlValues(versionText[k%4])
	s := ""
	if k == 18 {
		s = x
	}
	for i := range sgmlFields {
		a, b := colon, end
		if k == 2*i {
			a = x
		} else if k == 2*i+1 {
			b = x
		}
		s += sgmlFields[i] + ":" + a + vals[i] + b
	}
	want := ""
	if strings.IndexByte(s, '<') < 0 {
		want = sgmlVersion(s)
	}
	checkHeader(s, want)
}

// SGML headers with one field missing, given twice, renamed or given in
// another's place, and with a field too many at any place.
func C08_sgml_fields() {
	names, vals := append([]string{}, sgmlFields...), sgmlValues("160")
	i, j := v.Choose("field", 9), v.Choose("other", 9)
	switch v.Choose("change", 6) {
	case 0:
		if j > 0 {
			return
		}
		names, vals = append(names[:i], names[i+1:]...), append(vals[:i], vals[i+1:]...)
	case 1:
		names[i], names[j], vals[i], vals[j] = names[j], names[i], vals[j], vals[i]
	case 2:
		names[i] += v.Str("letter", 1, "A-Z:_ ")
		if j > 0 {
			return
		}
	case 3:
		names = append(names[:i:i], append([]string{sgmlFields[j]}, names[i:]...)...)
		vals = append(vals[:i:i], append([]string{sgmlValues("160")[j]}, vals[i:]...)...)
	case 4:
		names = append(names[:i:i], append([]string{v.Str("name", 1, "A-Z")}, names[i:]...)...)
		vals = append(vals[:i:i], append([]string{"NONE"}, vals[i:]...)...)
		if j > 0 {
			return
		}
	case 5:
		names[i] = sgmlFields[j]
	}
	h := sgmlText(names, vals, "", []string{"\r\n", ""}[(i+j)%2])
	checkHeader(h, sgmlVersion(h))
}

const xmlDecl = `<?xml version="1.0" encoding="UTF-8" standalone="no"?>`

var xmlFields = []string{"OFXHEADER", "VERSION", "SECURITY", "OLDFILEUID", "NEWFILEUID"}

func xmlValues(ver string) []string { return []string{"200", ver, "NONE", "NONE", "NONE"} }

func newVersion(s string) string {
	s = trimBlank(strings.Trim(s, "\v\f"))
	for _, t := range versionText {
		if s == t && t >= "200" {
			return t
		}
	}
	return ""
}

func xmlText(names, vals []string) string {
	s := xmlDecl + "<?OFX"
	for i := range names {
		s += " " + names[i] + "=\"" + vals[i] + "\""
	}
	return s + "?>"
}

// XML headers in which one field has any value of 0 to 3 bytes without quotes,
// or the right one with one byte more or another one, in any rotation of
// the fields.
func C08_xml_value() {
	k := v.Choose("field", len(xmlFields))
	ver := versionText[4+k]
	vals := xmlValues(ver)
	class := "\x00-!#->@-\xff"
	switch n := v.Choose("length", 7); n {
	case 4:
		vals[k] += v.Str("byte", 1, class)
	case 5:
		vals[k] = v.Str("byte", 1, class) + vals[k]
	case 6:
		vals[k] = vals[k][:1] + v.Str("byte", 1, class) + vals[k][2:]
	default:
		vals[k] = v.Str("value", n, class)
	}
	want := ver
	switch {
	case k == 1:
		want = newVersion(vals[1])
	case k < 3 && vals[k] != xmlValues(ver)[k]:
		want = ""
	}
	r := v.Choose("rotation", 5)
	names := append(append([]string{}, xmlFields[r:]...), xmlFields[:r]...)
	vals = append(append([]string{}, vals[r:]...), vals[:r]...)
	checkHeader(xmlText(names, vals), want)
}

// XML headers with any three digits as version, and with known values of other
// fields and of SGML headers.
func C08_xml_version() {
	vals := xmlValues("203")
	k := 1
	if v.Bool("digits") {
		vals[1] = v.Str("version", 3, "0-9")
	} else {
		all := []string{"100", "200", "102", "160", "201", "203", "211", "220", "NONE", "TYPE1", "0", "", "200 ", "203 "}
		k = v.Choose("field", 3)
		vals[k] = all[v.Choose("value", len(all))]
	}
	want := newVersion(vals[1])
	if vals[0] != "200" || vals[2] != "NONE" {
		want = ""
	}
	checkHeader(xmlText(xmlFields, vals), want)
}

// XML headers with any of the fields missing, two of them in each other's
// place, or one renamed; the optional ones may be missing and the order is free.
func C08_xml_fields() {
	names, vals := append([]string{}, xmlFields...), xmlValues("211")
	want := "211"
	switch v.Choose("change", 3) {
	case 0:
		var ns, vs []string
		for i := range names {
			if v.Bool("with " + names[i]) {
				ns, vs = append(ns, names[i]), append(vs, vals[i])
			} else if i < 2 {
				want = ""
			}
		}
		names, vals = ns, vs
	case 1:
		i, j := v.Choose("field", 5), v.Choose("other", 5)
		names[i], names[j], vals[i], vals[j] = names[j], names[i], vals[j], vals[i]
	case 2:
		i := v.Choose("field", 5)
		names[i] += v.Str("letter", 1, "A-Z_a-z")
		want = ""
	}
	checkHeader(xmlText(names, vals), want)
}

// XML headers without the XML declaration, without the OFX instruction, with
// another one, or with arbitrary text in or instead of it.
func C08_xml_parts() {
	ofx := xmlText(xmlFields, xmlValues("220"))[len(xmlDecl):]
	want := ""
	h := ""
	switch v.Choose("part", 6) {
	case 0:
		h = ofx
	case 1:
		h = xmlDecl
	case 2:
		h = xmlDecl + strings.Replace(ofx, "<?OFX", "<?OF"+v.Str("letter", 1, "A-Za-z"), 1)
		if h == xmlDecl+ofx {
			want = "220"
		}
	case 3:
		h = xmlDecl + v.Str("blank", 2, " \t\r\n") + ofx + v.Str("blank", 2, " \t\r\n")
		want = "220"
	case 4:
		h = xmlDecl + v.Str("text", 2, "A-Za-z0-9:=") + ofx
	case 5:
		h = xmlDecl + "<?OFX " + v.Str("text", 3, "A-Za-z0-9:= ") + "?>"
	}
	checkHeader(h, want)
}

// Documents of either kind with the beginning of the other kind's header in a
// text, and empty or headless ones.
func C08_kind() {
	b := v.Str("byte", 1, "a-z0-9:= ")
	body := strings.Replace(signonBody, "<LANGUAGE>", "<USERKEY>OFXHEADER"+b+"100</USERKEY><LANGUAGE>", 1)
	want := []string{"102", "211", "", ""}[v.Choose("kind", 4)]
	h := ""
	if want != "" {
		h = header(want)
	} else if v.Bool("empty") {
		body = ""
	}
	r, err := ofxgo.DecodeResponse(strings.NewReader(h + body))
	if want == "" {
		v.Assert(err != nil && r == nil, "a document without header is read")
		return
	}
	if err != nil {
		v.Assert(false, "a document with a valid header is refused: "+err.Error())
	}
	v.Assert(r.Version.String() == want, "the version is read as "+r.Version.String())
	v.Assert(string(r.Signon.UserKey) == trimBlank("OFXHEADER"+b+"100"), "a text is read differently")
}
