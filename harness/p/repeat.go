package p

import (
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// written gives the document of a response, or what kept it from being written.
func written(r *ofxgo.Response) string {
	b, err := r.Marshal()
	if err != nil {
		v.Assert(b == nil, "a document is returned along with an error")
		return "error: " + err.Error()
	}
	return b.String()
}

func judged(ok bool, err error) string {
	if err != nil {
		v.Assert(!ok, "something valid is given an error")
		return err.Error()
	}
	if !ok {
		return "invalid"
	}
	return "valid"
}

// use does something with a response and a message of it which must not change
// either, and gives what comes of it.
func use(r *ofxgo.Response, m ofxgo.Message, how int) string {
	switch how {
	case 0:
		return judged(r.Valid())
	case 1:
		return written(r)
	case 2:
		ver, _ := ofxgo.NewOfxVersion("102")
		return judged(m.Valid(ver)) + m.Name() + m.Type().String()
	}
	// another version, for a while
	was := r.Version
	r.Version, _ = ofxgo.NewOfxVersion([]string{"220", "102"}[how%2])
	s := written(r) + judged(r.Valid())
	r.Version = was
	return s
}

// Every kind of message with 8 patterns of optional elements, valid or not, in
// an SGML and an XML version: the response is judged or written (under its
// version or another one), then something else is done with it, then the first
// again: the outcome is the same, and so is the response.
func C40_response() {
	name := messageNames[v.Choose("message", len(messageNames))]
	p := v.Choose("pattern", 8)
	g := &gen{sym: true, shift: p, valid: p%4 < 2, fulldate: true}
	if p < 6 {
		g.give = required
	}
	pattern(g, []int{0, 1, 2, 3, 4, 5, 0, 1}[p])
	if p == 0 || p == 6 {
		few(g, p, 4)
	}
	ver := []string{"220", "102"}[v.Choose("sgml", 2)]
	sn := signonNodes()
	m := g.message(name)
	w := &writer{}
	r := parse(w.document(ver, sn, []message{m}))
	msg := (*setOf(r, name))[0]
	a := v.Choose("first", 4)
	b := (a + 1 + v.Choose("then", 3)) % 4
	one := use(r, msg, a)
	use(r, msg, b)
	two := use(r, msg, a)
	v.Assert(one == two, "judging or writing a response again gives something else: "+two)
	matches("", schemas[name], m.kids, only(*setOf(r, name)))
	matches("Signon", schemas["SignonResponse"], sn, reflect.ValueOf(r.Signon))
	v.Reach("used")
}

// useRequest judges or writes a request.
func useRequest(r *ofxgo.Request, name string, how int) string {
	if how == 0 {
		s := judged(r.Signon.Valid(r.Version))
		for _, m := range *listOf(r, fieldOfSet(responseKinds[name].set)) {
			s += judged(m.Valid(r.Version)) + m.Name()
		}
		return s
	}
	was := r.Version
	if how > 1 {
		r.Version, _ = ofxgo.NewOfxVersion([]string{"211", "103"}[how%2])
	}
	b, err := r.Marshal()
	r.Version = was
	if err != nil {
		v.Assert(b == nil, "a document is returned along with an error")
		return "error: " + err.Error()
	}
	return b.String()
}

// longID is an identifier of the recommended form.
func longID() *leafval {
	return &leafval{text: "0123abcd-ef45-67" + v.Str("id", 2, "0-9a-fA-F") + "-8901-23456789abcd"}
}

// Every kind of message with each optional element alone present or absent, and
// identifiers of the recommended form: judged, written and judged again, all
// under its own version and a new one.
func C40_single() {
	name := messageNames[v.Choose("message", len(messageNames))]
	all := optionals(schemas[name])
	x := v.Choose("element", len(all))
	g := &gen{sym: true, shift: x, valid: true, fulldate: true, picks: x}
	g.give = func(s *schema, f *field) *leafval {
		if f.kind == "uid" {
			return longID()
		}
		return required(s, f)
	}
	single(g, all[x], v.Choose("absent", 2) == 1)
	m := g.message(name)
	sn := signonNodes()
	r := parse((&writer{}).document([]string{"220", "102"}[x%2], sn, []message{m}))
	msg := (*setOf(r, name))[0]
	one := use(r, msg, 0) + use(r, msg, 2)
	doc := use(r, msg, 1)
	matches("", schemas[name], m.kids, only(*setOf(r, name)))
	two := use(r, msg, 0) + use(r, msg, 2)
	v.Assert(one == two, "judging a response after writing it gives something else: "+two)
	v.Assert(doc == use(r, msg, 1), "writing a response again gives another document")
	matches("", schemas[name], m.kids, only(*setOf(r, name)))
	matches("Signon", schemas["SignonResponse"], sn, reflect.ValueOf(r.Signon))
	v.Reach("used")
}

// Every kind of request with 6 patterns of optional elements, valid or with an
// identifier or version it must not have: judged or written (under its version
// or another one), then otherwise, then as at first: the outcome is the same,
// and so is the request.
func C40_request() {
	name := requestNames[v.Choose("message", len(requestNames))]
	p := v.Choose("pattern", 6)
	ver := []string{"220", "160"}[v.Choose("sgml", 2)]
	g := requestGen(ver, p)
	pattern(g, p)
	g.give = func(s *schema, f *field) *leafval {
		if f.kind == "uid" {
			return longID()
		}
		return asked(s, f)
	}
	m := g.message(name)
	sn := askedSignon(g, p%2 == 1)
	flaw := v.Choose("flaw", 3)
	for _, k := range m.kids {
		if k.f.name == "TrnUID" && flaw == 1 {
			k.leaf.text = ""
		}
	}
	var r ofxgo.Request
	r.Version, _ = ofxgo.NewOfxVersion(ver)
	if flaw == 2 {
		r.Version = as(ofxgo.OfxVersion102, 0)
	}
	fill(sn, reflect.ValueOf(&r.Signon).Elem())
	put(&r, name, m.kids)
	a := v.Choose("first", 4)
	b := (a + 1 + v.Choose("then", 3)) % 4
	one := useRequest(&r, name, a)
	useRequest(&r, name, b)
	two := useRequest(&r, name, a)
	v.Assert(one == two, "judging or writing a request again gives something else: "+two)
	matches("", schemas[name], m.kids, only(*listOf(&r, fieldOfSet(responseKinds[name].set))))
	matches("Signon", schemas["SignonRequest"], sn, reflect.ValueOf(r.Signon))
	v.Reach("used")
}

// What is written is read, written again, and read again: the second document
// is the first. Every kind of message with 8 patterns of optional elements.
func C40_settled() {
	name := messageNames[v.Choose("message", len(messageNames))]
	p := v.Choose("pattern", 8)
	ver := []string{"220", "151"}[v.Choose("sgml", 2)]
	g := &gen{sym: true, shift: p, valid: true, fulldate: true, give: required, old: ver < "220"}
	pattern(g, p)
	if p == 0 {
		few(g, parts(name), 4)
	}
	m := g.message(name)
	var r ofxgo.Response
	r.Version, _ = ofxgo.NewOfxVersion(ver)
	r.Signon = signonResponse(signonNodes())
	set := setOf(&r, name)
	*set = append(*set, filled(name, m.kids))
	first := written(&r)
	if strings.HasPrefix(first, "error") {
		v.Assert(false, "the response is not written: "+first)
	}
	second := written(parse(first))
	v.Assert(first == second, "a document read and written again differs")
	v.Reach("settled")
}

// A failure, then any of thirteen operations: reading a document cut short at
// one of 40 places or with a malformed value, judging or writing an invalid
// response or request, or making malformed values leaves nothing behind.
func C40_failed() {
	switch how := v.Choose("failure", 6); how {
	case 0, 1:
		name := []string{"InvStatementResponse", "ProfileResponse"}[how]
		g := &gen{}
		few(g, 0, 4)
		doc := (&writer{}).document("203", signonNodes(), []message{g.message(name)})
		doc = doc[:len(doc)*(1+v.Choose("cut", 20))/22]
		_, err := ofxgo.DecodeResponse(strings.NewReader(doc))
		v.Assert(err != nil, "a document cut short is read")
	case 2:
		g := &gen{}
		few(g, 0, 1)
		m := g.message("StatementResponse")
		all := valued(schemas["StatementResponse"])
		x := all[len(all)/6*v.Choose("element", 6)]
		bad := occurrences(m.kids, x)[0]
		bad.leaf.text = malformed(x, 1, "")
		_, err := ofxgo.DecodeResponse(strings.NewReader((&writer{}).document("102", signonNodes(), []message{m})))
		v.Assert(err != nil, "a malformed value is read")
	case 3:
		var r ofxgo.Response
		r.Version, _ = ofxgo.NewOfxVersion("102")
		r.Signon = signonResponse(signonNodes())
		r.Bank = append(r.Bank, &ofxgo.StatementResponse{})
		judged(r.Valid())
		v.Assert(strings.HasPrefix(written(&r), "error"), "an invalid response is written")
	case 4:
		r, _ := plainRequest("151")
		m := minimal("StatementRequest")
		put(&r, "StatementRequest", m)
		r.Prof = r.Bank
		b, err := r.Marshal()
		v.Assert(b == nil && err != nil, "a message in a foreign set is written")
	case 5:
		t := v.Str("wrong", 3, "0-9")
		_, err := ofxgo.NewOfxVersion(t)
		_, err2 := ofxgo.NewTrnType(t)
		_, err3 := ofxgo.NewCurrSymbol(t)
		v.Assert(err2 != nil && err3 != nil, "a malformed value is made")
		_ = err
	}
	o := operationOf(v.Choose("operation", operations))
	o.run()
	o.check()
	v.Reach("done")
}
