package p

import (
	"io"
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// flawed changes values of a message so that it violates a rule: 0 for none.
func flawed(name string, m message, flaw int) bool {
	set := func(kids []*node, field, text string) bool {
		for _, k := range kids {
			if k.f.name == field {
				k.leaf.text = text
				return true
			}
		}
		return false
	}
	sub := func(field string) []*node {
		for _, k := range m.kids {
			if k.f.name == field {
				return k.kids
			}
		}
		return nil
	}
	switch flaw {
	case 1:
		return set(m.kids, "TrnUID", "")
	case 2:
		return set(m.kids, "TrnUID", strings.Repeat("u", 36)+v.Str("uid", 1, "a-z0-9"))
	case 3:
		return name == "StatementResponse" && set(sub("BankAcctFrom"), "AcctID", "")
	case 4:
		return name == "StatementResponse" && set(m.kids, "TrnUID", "") && set(sub("BankAcctFrom"), "BankID", "")
	case 5:
		return name == "StatementResponse" && set(sub("Status"), "Severity", "WARN")
	}
	return flaw == 0
}

// reported checks what parsing a document gives against decoding it and against
// the messages that are invalid.
func reported(doc string, sn []*node, segs []segment, bad int) {
	d, err := ofxgo.DecodeResponse(strings.NewReader(doc))
	if err != nil {
		v.Assert(false, "the document is not decoded: "+err.Error())
	}
	r, err := ofxgo.ParseResponse(strings.NewReader(doc))
	if r == nil {
		v.Assert(false, "nothing is returned: "+err.Error())
	}
	matches("Signon", schemas["SignonResponse"], sn, reflect.ValueOf(r.Signon))
	holdsSets(r, segs)
	matches("Signon", schemas["SignonResponse"], sn, reflect.ValueOf(d.Signon))
	holdsSets(d, segs)
	if bad == 0 {
		v.Reach("valid")
		if err != nil {
			v.Assert(false, "a valid document is found invalid: "+err.Error())
		}
		return
	}
	v.Reach("invalid")
	if err == nil {
		v.Assert(false, "an invalid document is not reported")
	}
	// what each message says of itself must be there, in order
	rest := err.Error()
	n := 0
	find := func(ok bool, e error) {
		if ok {
			return
		}
		n++
		t := strings.TrimPrefix(e.Error(), "Validation failed: ")
		i := strings.Index(rest, t)
		if i < 0 {
			v.Assert(false, "the error lacks \""+t+"\": "+err.Error())
		}
		rest = rest[i+len(t):]
	}
	find(r.Signon.Valid(r.Version))
	for i := range setFields {
		for _, m := range listIn(r, i) {
			find(m.Valid(r.Version))
		}
	}
	v.Assert(n == bad, "another number of messages is invalid")
	ok, e := r.Valid()
	v.Assert(!ok && e != nil && e.Error() == err.Error(), "the response's own judgement differs")
}

// flawedSignon makes a signon with a flaw: none, a language of two letters, an
// unknown status code, or both.
func flawedSignon(flaw int) []*node {
	sn := signonNodes()
	for _, k := range sn {
		if k.f.name == "Language" && flaw&1 != 0 {
			k.leaf.text = v.Str("language", 2, "A-Z")
		}
		if k.f.name == "Status" && flaw&2 != 0 {
			for _, l := range k.kids {
				if l.f.name == "Code" {
					l.leaf.text, l.leaf.num = "99", 99
				}
			}
		}
	}
	return sn
}

// document puts a signon in place of the valid one.
func withSignon(doc string, sn []*node) string {
	w := &writer{}
	w.content(sn)
	i, j := strings.Index(doc, "<SONRS>"), strings.Index(doc, "</SONRS>")
	return doc[:i] + "<SONRS>" + string(w.b) + doc[j:]
}

// Documents with a message of each kind, in any combination of invalid ones,
// with a valid or invalid signon.
func C19_combinations() {
	f := v.Choose("signon", 4)
	sn := flawedSignon(f)
	bad := 0
	if f != 0 {
		bad++
	}
	var segs []segment
	for i, name := range messageNames {
		if name == "SecurityList" {
			continue
		}
		flaw := 0
		if v.Choose("invalid "+name, 2) == 1 {
			flaw = 1 + (i+f)%2
			bad++
		}
		m := shortMessage(name, i%2 == 0)
		if !flawed(name, m, flaw) {
			panic("flaw")
		}
		segs = append(segs, segment{fieldOfSet(strings.Replace(m.set, "RSV1", "RQV1", 1)), []message{m}})
	}
	reported(withSignon(response([]string{"102", "220"}[f%2], segs), sn), sn, segs, bad)
}

// Documents with three messages of one kind, each valid or invalid in any of
// the known ways, with a valid or invalid signon.
func C19_repeated() {
	name := messageNames[v.Choose("kind", len(messageNames))]
	f := v.Choose("signon", 3)
	sn := flawedSignon(f)
	bad := 0
	if f != 0 {
		bad++
	}
	var s segment
	s.set = fieldOfSet(strings.Replace(responseKinds[name].set, "RSV1", "RQV1", 1))
	for i := 0; i < 3; i++ {
		flaw := v.Choose("flaw", 6)
		m := shortMessage(name, i == 0)
		if !flawed(name, m, flaw) {
			return
		}
		if flaw != 0 {
			bad++
		}
		s.msgs = append(s.msgs, m)
	}
	reported(withSignon(response("203", []segment{s}), sn), sn, []segment{s}, bad)
}

// Documents that are not well-formed or hold values that cannot be read: no
// response and the same error from parsing and decoding.
func C19_unreadable() {
	doc := response("203", []segment{{1, []message{shortMessage("StatementResponse", true)}}})
	x := v.Str("byte", 1, "a-zA-Z")
	at := []string{"</BANKMSGSRSV1>", "<BALAMT>", "<DTASOF>", "<CURDEF>", "<ACCTTYPE>", "<CODE>", "</OFX>"}[v.Choose("place", 7)]
	doc = strings.Replace(doc, at, at[:len(at)-1]+">"+x+"<", 1)
	r, err := ofxgo.ParseResponse(strings.NewReader(doc))
	d, e := ofxgo.DecodeResponse(strings.NewReader(doc))
	if at == "</OFX>" {
		// nothing after the document counts
		v.Assert(err == nil && e == nil && r != nil && d != nil, "a complete document is refused")
		return
	}
	v.Assert(r == nil && d == nil && err != nil && e != nil, "a document that cannot be read is returned")
}

// ---- damage ----

// pieces hands out a text in pieces and then fails, with an end of file or
// another error; it may hand out the last piece together with its error.
type pieces struct {
	s     string
	size  int  // largest piece
	empty bool // every second read yields nothing
	whole bool // the last piece comes with the error
	err   error
	n     int
}

func (r *pieces) Read(p []byte) (int, error) {
	r.n++
	if r.empty && r.n%2 == 1 {
		return 0, nil
	}
	if len(r.s) == 0 {
		return 0, r.err
	}
	k := len(r.s)
	if r.size > 0 && k > r.size {
		k = r.size
	}
	if k > len(p) {
		k = len(p)
	}
	copy(p, r.s[:k])
	r.s = r.s[k:]
	if r.whole && len(r.s) == 0 {
		return k, r.err
	}
	return k, nil
}

// sample makes a document of one message of a kind: SGML with or without
// closing elements, or XML.
func sample(name string, k int, full bool) (doc string, sn []*node, m message) {
	g := &gen{sym: true, give: required}
	if !full {
		g.present = func(k int, f *field) bool { return f.sub == nil && f.kinds == nil && k%3 == 0 }
		g.count = func(k int, f *field) int { return 1 }
	}
	m = g.message(name)
	w := &writer{}
	if k == 1 {
		w.unclosed = func(string) bool { return true }
		w.space = func() string { return "\n" }
	}
	sn = signonNodes()
	return w.document([]string{"102", "151", "203"}[k], sn, []message{m}), sn, m
}

var sampleKinds = []string{"AcctInfoResponse", "StatementResponse", "CCStatementResponse", "SecListResponse", "ProfileResponse", "InvStatementResponse", "SecurityList"}

// cutAt reads a document cut at a place.
func cutAt(doc string, cut int, fault bool) {
	p := &pieces{s: doc[:cut], err: io.EOF, whole: cut%2 == 0}
	if fault {
		p.err = faults[cut/4%len(faults)]
	}
	read := ofxgo.DecodeResponse
	if cut/2%2 == 0 {
		read = ofxgo.ParseResponse
	}
	r, err := read(p)
	v.Assert(err != nil, "a document cut short is read")
	v.Assert(r == nil, "a part of a document is returned")
}

// Documents of each kind of message, SGML with and without closing elements and
// XML, cut at any place before the end, or failing to arrive from there on;
// symbolic texts.
func C17_cut() {
	name := sampleKinds[v.Choose("message", 5)]
	k := v.Choose("form", 3)
	doc, _, _ := sample(name, k, false)
	doc = strings.TrimRight(doc, "\n")
	cut := v.Choose("cut", len(doc))
	cutAt(doc, cut, (cut+k)%2 == 1)
}

// The same with either kind of failure, all optional elements and with investment statements and
// securities.
func C17_cut_full_deep() {
	name := sampleKinds[v.Choose("message", len(sampleKinds))]
	k := v.Choose("form", 3)
	doc, _, _ := sample(name, k, true)
	doc = strings.TrimRight(doc, "\n")
	cutAt(doc, v.Choose("cut", len(doc)), v.Choose("fault", 2) == 1)
}

// Documents of investment statements cut where an element ends or begins.
func C17_cut_elements() {
	name := sampleKinds[5+v.Choose("message", 2)]
	k := v.Choose("form", 3)
	doc, _, _ := sample(name, k, false)
	doc = strings.TrimRight(doc, "\n")
	cut := v.Choose("cut", len(doc))
	if doc[cut] != '<' && (cut == 0 || doc[cut-1] != '<' && doc[cut-1] != '>') {
		return
	}
	cutAt(doc, cut, v.Choose("fault", 2) == 1)
}

// Documents of each kind, longer and shorter than the 1024 bytes first looked
// at, arriving in pieces of 1 to 16 bytes and of 17 larger sizes around powers
// of two, with or without empty reads, the end with the last piece or after it,
// by turns.
func C17_pieces() {
	size := v.Choose("size", 33)
	k := v.Choose("form", 3)
	inPieces(sampleKinds[v.Choose("message", len(sampleKinds))], k, size, (size+k)%2 == 0, (size/2+k)%2 == 0, (size/3)%2 == 0)
}

// The same in all combinations.
func C17_pieces_deep() {
	inPieces(sampleKinds[v.Choose("message", len(sampleKinds))], v.Choose("form", 3), v.Choose("size", 33), v.Choose("full", 2) == 1, v.Choose("empty", 2) == 1, v.Choose("whole", 2) == 1)
}

func inPieces(name string, k, size int, full, empty, whole bool) {
	doc, sn, m := sample(name, k, full)
	p := &pieces{s: doc, err: io.EOF, empty: empty, whole: whole, size: size + 1}
	if i := size - 16; i >= 0 {
		p.size = 31<<uint(i/3) + i%3
		if p.size > 1026 {
			p.size = 0
		}
	}
	r, err := ofxgo.DecodeResponse(p)
	if err != nil {
		v.Assert(false, "a document in pieces is refused: "+err.Error())
	}
	matches("Signon", schemas["SignonResponse"], sn, reflect.ValueOf(r.Signon))
	matches("", schemas[name], m.kids, only(*setOf(r, name)))
	v.Reach("read")
}

// Documents with 12, 40 or 120 messages of one kind, all of them invalid, all
// but one, or every second, all in the same way or in one of two.
func C19_many() {
	v.Long()
	name := messageNames[v.Choose("kind", len(messageNames))]
	count := []int{12, 40, 120}[v.Choose("messages", 3)]
	which := v.Choose("invalid", 3)
	a := 1 + v.Choose("flaw", 5)
	b := a
	if count < 120 && v.Choose("other flaw", 2) == 1 {
		b = 1 + (a+1)%5
	}
	if count == 120 && which+a > 1 {
		return
	}
	s := segment{set: fieldOfSet(strings.Replace(responseKinds[name].set, "RSV1", "RQV1", 1))}
	bad := 0
	for i := 0; i < count; i++ {
		flaw := a
		if i%3 == 1 {
			flaw = b
		}
		if which == 1 && i == count/2 || which == 2 && i%2 == 1 {
			flaw = 0
		}
		g := &gen{valid: true, old: true, fulldate: true, give: required}
		g.present = func(k int, f *field) bool { return false }
		g.count = func(k int, f *field) int { return 0 }
		m := g.message(name)
		if !flawed(name, m, flaw) {
			return
		}
		if flaw != 0 {
			bad++
		}
		s.msgs = append(s.msgs, m)
	}
	sn := signonNodes()
	reported(response("203", []segment{s}), sn, []segment{s}, bad)
}
