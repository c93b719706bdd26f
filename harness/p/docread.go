package p

import (
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// presence patterns: all optional elements, none, those whose number has a
// given binary digit set or not.
func pattern(g *gen, p int) {
	switch {
	case p == 0:
	case p == 1:
		g.present = func(k int, f *field) bool { return false }
		g.count = func(k int, f *field) int { return 0 }
	default:
		bit, want := uint(p-2)/2, (p-2)%2
		g.present = func(k int, f *field) bool { return k>>bit&1 == want }
		g.count = func(k int, f *field) int { return (k>>bit&1 ^ want ^ 1) * (1 + k%2) }
	}
}

const patterns = 16

// uneven makes lists whose members have, in turn, all their optional elements
// and none of them (the first has all, or has none); lists of several kinds
// have two members of each of some kinds.
func uneven(g *gen, first bool, kinds int) {
	full := true
	g.present = func(k int, f *field) bool { return full }
	g.count = func(k int, f *field) int {
		if !full {
			return 0
		}
		if f.kinds != nil {
			if kinds > len(f.variants) {
				return 2 * len(f.variants)
			}
			return 2 * kinds
		}
		if f.name == "ImageData" {
			return 2
		}
		return 3
	}
	g.variant = func(i int, f *field) int { return (i/2 + g.shift) % len(f.variants) }
	g.enter = func(i int, f *field) func() {
		was := full
		full = full && (i%2 == 0) == first
		return func() { full = was }
	}
}

// readUneven reads lists with members that differ in their optional elements.
func readUneven(name string, parts int) {
	g := &gen{sym: true, symnum: true, shift: 4 * v.Choose("part", parts)}
	uneven(g, v.Choose("first", 2) == 0, 4)
	readMessage(name, "203", g)
}

func writeUneven(name string, parts int) {
	g := &gen{sym: true, shift: 4 * v.Choose("part", parts)}
	uneven(g, v.Choose("first", 2) == 0, 4)
	writeMessage(name, "220", g, false)
}

// optionals lists the optional elements below an aggregate, each by its
// aggregate and name.
func optionals(s *schema) []*field {
	var out []*field
	seen := map[*schema]bool{}
	var walk func(s *schema)
	walk = func(s *schema) {
		if seen[s] {
			return
		}
		seen[s] = true
		for _, f := range s.fields {
			if f.opt || f.ptr || f.list {
				out = append(out, f)
			}
			if f.sub != nil {
				walk(f.sub)
			}
			for _, e := range f.variants {
				walk(schemas[f.kinds[e]])
			}
		}
	}
	walk(s)
	return out
}

// many makes one list a long one, and what holds it the only else present.
func many(g *gen, x *field, n int) {
	single(g, x, false)
	count, variant := g.count, g.variant
	g.count = func(k int, f *field) int {
		if f == x {
			return n
		}
		if c := count(k, f); c == 0 {
			return 0
		}
		return 1
	}
	g.variant = func(i int, f *field) int {
		if f == x {
			return (i + g.shift) % len(f.variants)
		}
		return variant(i, f)
	}
}

// readMany and writeMany read and write messages with a long list.
func anyMany(name string, written bool, lengths []int) *gen {
	var all []*field
	for _, f := range optionals(schemas[name]) {
		// at most two images may be written
		if f.list && !(written && f.name == "ImageData") {
			all = append(all, f)
		}
	}
	x := v.Choose("list", len(all))
	g := &gen{sym: true, shift: x}
	many(g, all[x], lengths[v.Choose("length", len(lengths))])
	return g
}

// zeros reads or writes a message with all its elements whose required and
// pointed-to ones are zero: false, the number 0 and, if wanted, no text.
func zeros(name string) {
	texts := v.Choose("texts", 2) == 1
	ver := []string{"220", "102"}[v.Choose("sgml", 2)]
	give := func(s *schema, f *field) *leafval {
		if l := required(s, f); l != nil {
			return l
		}
		if f.opt && !f.ptr {
			return nil
		}
		switch f.kind {
		case "boolean":
			return &leafval{text: "N"}
		case "int", "amount":
			return &leafval{text: "0"}
		case "string":
			if texts && name != "StatementResponse" {
				return &leafval{}
			}
		}
		return nil
	}
	g := &gen{sym: true, give: give}
	g.count = func(k int, f *field) int {
		if f.kinds != nil {
			return len(f.variants)
		}
		return 1
	}
	if v.Choose("written", 2) == 1 {
		writeMessage(name, ver, g, true)
	} else {
		g.symnum = true
		readMessage(name, ver, g)
	}
}

// versions reads or writes a message with all its elements, or the required
// ones, in every version.
func versions(name string) {
	ver := versionText[v.Choose("version", len(versionText))]
	p := v.Choose("pattern", 2)
	g := &gen{sym: true, symnum: true, shift: p}
	pattern(g, p)
	if v.Choose("written", 2) == 1 {
		g.symnum = false
		writeMessage(name, ver, g, p == 0)
	} else {
		readMessage(name, ver, g)
	}
}

func readMany(name, ver string) { readMessage(name, ver, anyMany(name, false, []int{10, 33, 130})) }

func writeMany(name, ver string) { writeMessage(name, ver, anyMany(name, true, []int{9, 40}), false) }

// holds tells whether an aggregate or what it holds has a given element.
func holds(s *schema, x *field) bool {
	for _, f := range s.fields {
		if f == x || f.sub != nil && holds(f.sub, x) {
			return true
		}
		for _, e := range f.variants {
			if holds(schemas[f.kinds[e]], x) {
				return true
			}
		}
	}
	return false
}

// single makes one optional element, and what holds it, the only one present
// or the only one absent among its like.
func single(g *gen, x *field, absent bool) {
	memo := map[*field]bool{}
	leads := func(f *field) bool {
		if r, ok := memo[f]; ok {
			return r
		}
		r := f.sub != nil && holds(f.sub, x)
		for _, e := range f.variants {
			r = r || holds(schemas[f.kinds[e]], x)
		}
		memo[f] = r
		return r
	}
	there := func(f *field) bool {
		if f == x {
			return !absent
		}
		return leads(f) || absent && f.sub == nil && f.kinds == nil
	}
	kinds := func(f *field) (out []int) {
		for k, e := range f.variants {
			if f == x || holds(schemas[f.kinds[e]], x) {
				out = append(out, k)
			}
		}
		return
	}
	g.present = func(k int, f *field) bool { return there(f) }
	g.count = func(k int, f *field) int {
		if !there(f) {
			return 0
		}
		if f.kinds != nil {
			return len(kinds(f))
		}
		return 1
	}
	g.variant = func(i int, f *field) int { return kinds(f)[i] }
}

func parse(doc string) *ofxgo.Response {
	r, err := ofxgo.DecodeResponse(strings.NewReader(doc))
	if err != nil {
		v.Assert(false, "the document is refused: "+err.Error())
	}
	return r
}

func only(msgs []ofxgo.Message) reflect.Value {
	if len(msgs) != 1 {
		v.Assert(false, "one message was sent, "+itoa(len(msgs))+" were read")
	}
	return reflect.ValueOf(msgs[0]).Elem()
}

// required gives the prescribed values of valid responses.
func required(s *schema, f *field) *leafval {
	if s.name == "Status" {
		switch f.name {
		case "Code":
			return &leafval{text: "0"}
		case "Severity":
			return &leafval{text: "INFO"}
		}
	}
	if f.name == "Country" {
		return &leafval{text: v.Str("Country", 3, "A-Z")}
	}
	if s.name == "SignonResponse" && f.name == "Language" {
		return &leafval{text: "ENG"}
	}
	return nil
}

func signonNodes() []*node {
	g := &gen{present: func(k int, f *field) bool { return false }, give: required}
	return g.aggregate(schemas["SignonResponse"])
}

// setOf gives the list of a response for the messages of a kind.
func setOf(r *ofxgo.Response, name string) *[]ofxgo.Message {
	switch responseKinds[name].set {
	case "SIGNUPMSGSRSV1":
		return &r.Signup
	case "BANKMSGSRSV1":
		return &r.Bank
	case "CREDITCARDMSGSRSV1":
		return &r.CreditCard
	case "INVSTMTMSGSRSV1":
		return &r.InvStmt
	case "SECLISTMSGSRSV1":
		return &r.SecList
	case "PROFMSGSRSV1":
		return &r.Prof
	}
	panic("no set of " + name)
}

var messageTypes = map[string]reflect.Type{
	"AcctInfoResponse": reflect.TypeOf(ofxgo.AcctInfoResponse{}), "StatementResponse": reflect.TypeOf(ofxgo.StatementResponse{}), "CCStatementResponse": reflect.TypeOf(ofxgo.CCStatementResponse{}),
	"InvStatementResponse": reflect.TypeOf(ofxgo.InvStatementResponse{}), "SecListResponse": reflect.TypeOf(ofxgo.SecListResponse{}), "SecurityList": reflect.TypeOf(ofxgo.SecurityList{}),
	"ProfileResponse": reflect.TypeOf(ofxgo.ProfileResponse{}),
	"AcctInfoRequest": reflect.TypeOf(ofxgo.AcctInfoRequest{}), "StatementRequest": reflect.TypeOf(ofxgo.StatementRequest{}), "CCStatementRequest": reflect.TypeOf(ofxgo.CCStatementRequest{}),
	"InvStatementRequest": reflect.TypeOf(ofxgo.InvStatementRequest{}), "SecListRequest": reflect.TypeOf(ofxgo.SecListRequest{}), "ProfileRequest": reflect.TypeOf(ofxgo.ProfileRequest{}),
}

// readMessage reads a document holding one message.
func readMessage(name, ver string, g *gen) {
	m := g.message(name)
	w := &writer{}
	doc := w.document(ver, signonNodes(), []message{m})
	r := parse(doc)
	matches("", schemas[name], m.kids, only(*setOf(r, name)))
	v.Reach("read")
}

// readPattern reads a message with a pattern of optional elements.
func readPattern(name string) {
	p := v.Choose("pattern", patterns)
	g := &gen{sym: true, symnum: true, shift: p}
	pattern(g, p)
	readMessage(name, []string{"203", "102"}[p%2], g)
}

// readSingle reads a message with or without just one optional element.
func readSingle(name string) {
	all := optionals(schemas[name])
	x := v.Choose("element", len(all))
	g := &gen{sym: true, symnum: true, shift: x}
	single(g, all[x], v.Choose("absent", 2) == 1)
	readMessage(name, "220", g)
}

func filled(name string, kids []*node) ofxgo.Message {
	rv := reflect.New(messageTypes[name])
	fill(kids, rv.Elem())
	return rv.Interface().(ofxgo.Message)
}

// signonResponse is a valid signon response.
func signonResponse(kids []*node) (s ofxgo.SignonResponse) {
	fill(kids, reflect.ValueOf(&s).Elem())
	return
}

// unset drops currencies which are not set but written all the same.
func unset(toks []string) (out []string) {
	for i := 0; i < len(toks); i++ {
		if (toks[i] == "<CURRENCY>" || toks[i] == "<ORIGCURRENCY>") && i+7 < len(toks) && toks[i+1] == "<CURRATE>" && toks[i+2] == "0" && toks[i+4] == "<CURSYM>" && toks[i+5] == "XXX" {
			i += 7
			continue
		}
		out = append(out, toks[i])
	}
	return
}

func sameTokens(got, want []string) {
	got = unset(got)
	for i := range want {
		if i >= len(got) {
			v.Assert(false, "the document ends before "+want[i])
		}
		if len(got[i]) != len(want[i]) || want[i][0] == '<' {
			if got[i] != want[i] {
				v.Assert(false, "the document has "+got[i]+" instead of "+want[i])
			}
			continue
		}
		v.Assert(got[i] == want[i], "the value of "+want[i-1]+" is written differently")
	}
	if len(got) > len(want) {
		v.Assert(false, "the document goes on with "+got[len(want)])
	}
}

// writeMessage writes a response holding one message and reads it back; whole
// tells that every element is there, so that the document is known exactly.
func writeMessage(name, ver string, g *gen, whole bool) {
	g.valid, g.fulldate = true, true
	if g.give == nil {
		g.give = required
	}
	g.old = ver < "220"
	m := g.message(name)
	gs := &gen{sym: true, fulldate: true, give: required}
	sn := gs.aggregate(schemas["SignonResponse"])
	var r ofxgo.Response
	r.Version, _ = ofxgo.NewOfxVersion(ver)
	r.Signon = signonResponse(sn)
	set := setOf(&r, name)
	*set = append(*set, filled(name, m.kids))
	b, err := r.Marshal()
	if err != nil {
		v.Assert(false, "the response is not written: "+err.Error())
	}
	doc := b.String()
	head, got := tokens(doc)
	if whole {
		w := &writer{}
		_, want := tokens(w.document(ver, sn, []message{m}))
		sameTokens(got, want)
	}
	v.Assert(trimBlank(head) == trimBlank(header(ver)), "the document has another header")
	back := parse(doc)
	matches("Signon", schemas["SignonResponse"], sn, reflect.ValueOf(back.Signon))
	matches("", schemas[name], m.kids, only(*setOf(back, name)))
	v.Reach("written")
}

// writePattern writes a message with a pattern of optional elements; lists of
// several kinds are covered in parts.
func writePattern(name string, parts int) {
	p := v.Choose("pattern", patterns)
	g := &gen{sym: true, shift: p}
	pattern(g, p)
	ver := []string{"220", "102"}[p%2]
	if p == 0 {
		ver = []string{"220", "151"}[v.Choose("old", 2)]
		if parts > 1 {
			g.shift = v.Choose("part", parts) * 4
			g.count = func(k int, f *field) int {
				if f.kinds != nil {
					return 4
				}
				return 2
			}
		}
	}
	writeMessage(name, ver, g, p == 0)
}

func writeSingle(name string) {
	all := optionals(schemas[name])
	x := v.Choose("element", len(all))
	g := &gen{sym: true, shift: x}
	single(g, all[x], v.Choose("absent", 2) == 1)
	writeMessage(name, "220", g, false)
}

// readBulk reads a message with a very long list.
func readBulk(name, ver string) {
	v.Long()
	write := v.Choose("write", 2) == 1
	n := 1030
	if write {
		n = 270
	}
	g := anyMany(name, write, []int{n})
	g.sym = false
	if write {
		writeMessage(name, ver, g, false)
		return
	}
	readMessage(name, ver, g)
}

// alike makes the members of lists, and everything else, of the same values but
// for symbolic texts; members of the same kind follow each other, or are as far
// apart as can be.
func alike(g *gen, kinds int, turns bool) {
	g.sym = true
	seen := map[*field]*leafval{}
	g.give = func(s *schema, f *field) *leafval {
		if l := required(s, f); l != nil {
			return l
		}
		if f.kind == "string" || f.kind == "uid" {
			return nil
		}
		if seen[f] == nil {
			h := &gen{shift: g.shift, valid: g.valid, fulldate: g.fulldate, leaves: len(seen)}
			seen[f] = h.leafOf(s, f)
		}
		return seen[f]
	}
	g.count = func(k int, f *field) int {
		if f.kinds != nil {
			if kinds > len(f.variants) {
				return 2 * len(f.variants)
			}
			return 2 * kinds
		}
		return 2
	}
	g.variant = func(i int, f *field) int {
		n := kinds
		if n > len(f.variants) {
			n = len(f.variants)
		}
		if turns {
			return (i%n + g.shift) % len(f.variants)
		}
		return (i/2 + g.shift) % len(f.variants)
	}
}

// readAlike reads or writes a message with lists of members which are alike.
func readAlike(name string, parts int) {
	g := &gen{shift: 2 * v.Choose("part", parts)}
	alike(g, 2, v.Choose("turns", 2) == 1)
	if v.Choose("bare", 2) == 1 {
		g.present = func(k int, f *field) bool { return false }
	}
	if v.Choose("written", 2) == 1 {
		writeMessage(name, "220", g, false)
		return
	}
	readMessage(name, "102", g)
}
