package p

import (
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// rs turns the element of a request's message set into that of a response's.
func rs(elem string) string { return strings.Replace(elem, "RQV1", "RSV1", 1) }

// segment is a message set of a document: its number and messages.
type segment struct {
	set  int
	msgs []message
}

// response writes a document with message sets in any order, and possibly
// several times, each possibly empty.
func response(ver string, segs []segment) string {
	w := &writer{}
	w.str(w.document(ver, signonNodes(), nil))
	w.b = w.b[:strings.Index(string(w.b), "</OFX>")]
	for _, s := range segs {
		w.open(rs(setElems[s.set]))
		for _, m := range s.msgs {
			w.open(m.elem)
			w.content(m.kids)
			w.close(m.elem)
		}
		w.close(rs(setElems[s.set]))
	}
	w.close("OFX")
	return string(w.b)
}

// kindOf gives the kind of a response's message.
func kindOf(m message) string {
	for n, k := range responseKinds {
		if k.elem == m.elem && k.set == m.set {
			return n
		}
	}
	panic("no kind of " + m.elem)
}

func listIn(r interface{}, i int) []ofxgo.Message {
	l, _ := reflect.ValueOf(r).Elem().FieldByName(setFields[i]).Interface().([]ofxgo.Message)
	return l
}

// holdsSets checks the lists of a response against the message sets of its
// document.
func holdsSets(r *ofxgo.Response, segs []segment) {
	for i := range setFields {
		var want []message
		for _, s := range segs {
			if s.set == i {
				want = append(want, s.msgs...)
			}
		}
		got := listIn(r, i)
		if len(got) != len(want) {
			v.Assert(false, setFields[i]+" has "+itoa(len(got))+" messages instead of "+itoa(len(want)))
		}
		for j, m := range want {
			name := kindOf(m)
			rv := reflect.ValueOf(got[j])
			if rv.Kind() != reflect.Ptr || rv.Type().Elem() != messageTypes[name] {
				v.Assert(false, m.elem+" is read as another message")
			}
			matches(setFields[i], schemas[name], m.kids, rv.Elem())
		}
	}
}

// shortMessage makes a message of a kind with all or none of its optional
// elements, without lists.
func shortMessage(name string, full bool) message {
	g := &gen{sym: true, valid: true, old: true, fulldate: true, give: required}
	g.present = func(k int, f *field) bool { return full && f.sub == nil }
	g.count = func(k int, f *field) int { return 0 }
	return g.message(name)
}

// pick chooses a message set and messages for it: one of the sets without
// kinds of messages, or one or two messages of one or two kinds.
func pick(label string, full bool) segment {
	k := v.Choose(label, len(messageNames)+2)
	switch k {
	case len(messageNames):
		// a set that is empty
		return segment{set: v.Choose(label+" empty", 3) * 6}
	case len(messageNames) + 1:
		return segment{set: 9, msgs: []message{shortMessage("SecurityList", full), shortMessage("SecListResponse", !full)}}
	}
	name := messageNames[k]
	s := segment{set: fieldOfSet(strings.Replace(responseKinds[name].set, "RSV1", "RQV1", 1))}
	s.msgs = append(s.msgs, shortMessage(name, full))
	if v.Choose(label+" again", 2) == 1 {
		s.msgs = append(s.msgs, shortMessage(name, !full))
	}
	return s
}

// Documents with two message sets, of any kinds in any order, of no, one or two
// messages each, the second with fewer or more elements than the first; an SGML
// and an XML version; symbolic texts.
func C29_two() {
	full := v.Choose("full", 2) == 1
	segs := []segment{pick("first", full), pick("second", !full)}
	ver := []string{"102", "203"}[(segs[0].set+segs[1].set)%2]
	holdsSets(parse(response(ver, segs)), segs)
	v.Reach("read")
}

// Documents with a message of every kind, the message sets in their order, in
// the opposite one, or in one of twelve others, one set given twice.
func C29_all() {
	o := v.Choose("order", 14)
	twice := v.Choose("twice", 7)
	n := len(messageNames)
	var segs []segment
	for i := 0; i < n; i++ {
		k := i
		switch {
		case o == 13:
			k = n - 1 - i
		case o >= 7:
			k = (i*3 + o) % n
		default:
			k = (i + o) % n
		}
		name := messageNames[k]
		set := fieldOfSet(strings.Replace(responseKinds[name].set, "RSV1", "RQV1", 1))
		segs = append(segs, segment{set, []message{shortMessage(name, i%2 == 0)}})
	}
	again := messageNames[twice]
	segs = append(segs, segment{fieldOfSet(strings.Replace(responseKinds[again].set, "RSV1", "RQV1", 1)), []message{shortMessage(again, true), shortMessage(again, false)}})
	holdsSets(parse(response([]string{"160", "220"}[o%2], segs)), segs)
	v.Reach("read")
}

// Each kind of message, also of requests, under each message set, after a
// message that belongs there or not: read only where it belongs.
func C29_foreign() {
	i := v.Choose("set", len(setElems))
	names := append(append([]string{}, messageNames...), requestNames...)
	name := names[v.Choose("message", len(names))]
	var m message
	if strings.Contains(responseKinds[name].set, "RSV1") {
		m = shortMessage(name, false)
	} else {
		m = responseKinds[name]
		m.kids = minimal(name)
	}
	s := segment{set: i}
	after := v.Choose("after", 2) == 1
	for _, n := range messageNames {
		if responseKinds[n].set == rs(setElems[i]) && after {
			s.msgs = append(s.msgs, shortMessage(n, true))
			after = false
		}
	}
	s.msgs = append(s.msgs, m)
	doc := response("203", []segment{s})
	r, err := ofxgo.DecodeResponse(strings.NewReader(doc))
	if m.set == rs(setElems[i]) {
		v.Reach("read")
		if err != nil {
			v.Assert(false, "the document is refused: "+err.Error())
		}
		holdsSets(r, []segment{s})
		return
	}
	v.Reach("refused")
	v.Assert(err != nil && r == nil, "a message outside its message set is read")
}

// Documents with something unknown at one place: an element or text between
// message sets, within one, or before the signon; known names with one letter
// arbitrary.
func C29_unknown() {
	doc := response([]string{"102", "203"}[v.Choose("kind", 2)], []segment{{0, []message{shortMessage("AcctInfoResponse", false)}}, {12, []message{shortMessage("ProfileResponse", true)}}})
	ok := false
	cut := func(at, with string) {
		if !strings.Contains(doc, at) {
			panic("no " + at)
		}
		doc = strings.Replace(doc, at, with, 1)
	}
	x := v.Str("byte", 1, "A-Za-z0-9")
	switch v.Choose("place", 12) {
	case 0:
		cut("</SIGNONMSGSRSV1>", "</SIGNONMSGSRSV1><"+"X"+x+"></X"+x+">")
	case 1:
		cut("</SIGNUPMSGSRSV1>", "</SIGNUPMSGSRSV1>"+x)
	case 2:
		cut("<SIGNUPMSGSRSV1>", "<SIGNUPMSGSRSV1>"+x)
	case 3:
		cut("<SIGNUPMSGSRSV1>", "<SIGNUPMSGSRSV1><X"+x+"></X"+x+">")
	case 4:
		cut("<PROFMSGSRSV1>", "<PROFMSGSRSV"+x+">")
		cut("</PROFMSGSRSV1>", "</PROFMSGSRSV"+x+">")
		ok = x == "1"
	case 5:
		cut("<ACCTINFOTRNRS>", "<ACCTINFOTRNR"+x+">")
		cut("</ACCTINFOTRNRS>", "</ACCTINFOTRNR"+x+">")
		ok = x == "S"
	case 6:
		cut("<SIGNONMSGSRSV1>", "<SIGNONMSGSRSV"+x+">")
		cut("</SIGNONMSGSRSV1>", "</SIGNONMSGSRSV"+x+">")
		ok = x == "1"
	case 7:
		cut("<SONRS>", "<SONR"+x+">")
		cut("</SONRS>", "</SONR"+x+">")
		ok = x == "S"
	case 8:
		cut("<OFX>", "<OF"+x+">")
		cut("</OFX>", "</OF"+x+">")
		ok = x == "X"
	case 9:
		cut("<OFX>", x+"<OFX>")
		if strings.HasPrefix(doc, "OFXHEADER") {
			// part of the header then
			return
		}
	case 10:
		// the signon after another set, or missing
		i, j := strings.Index(doc, "<SIGNONMSGSRSV1>"), strings.Index(doc, "<SIGNUPMSGSRSV1>")
		signon := doc[i:j]
		doc = doc[:i] + doc[j:]
		if x == "1" {
			cut("</OFX>", signon+"</OFX>")
		}
	case 11:
		// a second signon
		i, j := strings.Index(doc, "<SIGNONMSGSRSV1>"), strings.Index(doc, "<SIGNUPMSGSRSV1>")
		cut("</OFX>", doc[i:j]+"</OFX>")
	}
	r, err := ofxgo.DecodeResponse(strings.NewReader(doc))
	if ok {
		v.Assert(err == nil, "the document is refused")
		v.Assert(len(r.Signup) == 1 && len(r.Prof) == 1, "the messages are not read")
		return
	}
	v.Reach("refused")
	v.Assert(err != nil && r == nil, "a document with something unknown in it is read")
}

// Responses with no, one or two messages in each of two message sets and one or
// none in the others, written and read back; the document has the message sets
// in their fixed order and each message once.
func C29_write() {
	i := v.Choose("first", len(messageNames))
	j := v.Choose("second", len(messageNames))
	if j <= i {
		return
	}
	rest := v.Choose("others", 2)
	ver := []string{"220", "160"}[(i+j)%2]
	var r ofxgo.Response
	r.Version, _ = ofxgo.NewOfxVersion(ver)
	sn := signonNodes()
	r.Signon = signonResponse(sn)
	var segs []segment
	lists := make([][]message, len(setFields))
	for k, n := range messageNames {
		c := rest
		if k == i {
			c = v.Choose("messages of the first", 3)
		} else if k == j {
			c = v.Choose("messages of the second", 3)
		}
		set := fieldOfSet(strings.Replace(responseKinds[n].set, "RSV1", "RQV1", 1))
		for ; c > 0; c-- {
			m := shortMessage(n, c%2 == 0)
			lists[set] = append(lists[set], m)
			l := setOf(&r, n)
			*l = append(*l, filled(n, m.kids))
		}
	}
	var msgs []message
	for k, l := range lists {
		if len(l) > 0 {
			segs = append(segs, segment{k, l})
			msgs = append(msgs, l...)
		}
	}
	b, err := r.Marshal()
	if err != nil {
		v.Assert(false, "the response is not written: "+err.Error())
	}
	doc := b.String()
	_, got := tokens(doc)
	// message sets and messages in order
	var have, want []string
	names := map[string]bool{}
	for k := range setElems {
		names["<"+rs(setElems[k])+">"] = true
	}
	for _, k := range responseKinds {
		names["<"+k.elem+">"] = true
	}
	for _, t := range got {
		if t[0] == '<' && names[t] {
			have = append(have, t)
		}
	}
	for _, s := range segs {
		want = append(want, "<"+rs(setElems[s.set])+">")
		for _, m := range s.msgs {
			want = append(want, "<"+m.elem+">")
		}
	}
	v.Assert(strings.Join(have, "") == strings.Join(want, ""), "the document has the messages "+strings.Join(have, ""))
	holdsSets(parse(doc), segs)
	v.Reach("written")
}

// Each kind of message, also of requests, in each list of a response, alone,
// after or before one that belongs there: written only where it belongs.
func C09_response_sets() {
	names := append(append([]string{}, requestNames...), messageNames...)
	name := names[v.Choose("message", len(names))]
	i := v.Choose("set", len(setFields))
	var x ofxgo.Message
	if strings.Contains(responseKinds[name].set, "RQV1") {
		x = filled(name, minimal(name))
	} else {
		x = filled(name, shortMessage(name, false).kids)
	}
	var r ofxgo.Response
	r.Version, _ = ofxgo.NewOfxVersion([]string{"151", "211"}[i%2])
	r.Signon = signonResponse(signonNodes())
	l := []ofxgo.Message{x}
	others := v.Choose("others", 3)
	for _, n := range messageNames {
		if responseKinds[n].set == rs(setElems[i]) {
			y := filled(n, shortMessage(n, true).kids)
			switch others {
			case 1:
				l = []ofxgo.Message{y, x}
			case 2:
				l = []ofxgo.Message{x, y}
			}
		}
	}
	reflect.ValueOf(&r).Elem().FieldByName(setFields[i]).Set(reflect.ValueOf(l))
	b, err := r.Marshal()
	if responseKinds[name].set == rs(setElems[i]) {
		v.Assert(err == nil && b != nil, "a valid response is refused")
		return
	}
	v.Reach("refused")
	v.Assert(err != nil && b == nil, "a response with a message of another set is written")
}

// Responses with a signon language of 0 to 5 bytes, a status of any code, and
// a message of each kind with a transaction identifier around its limits or,
// for bank statements, some other fault.
func C09_response() {
	name := messageNames[v.Choose("message", len(messageNames))]
	var r ofxgo.Response
	r.Version, _ = ofxgo.NewOfxVersion("203")
	r.Signon = signonResponse(signonNodes())
	x := filled(name, shortMessage(name, true).kids)
	want := true
	switch v.Choose("fault", 4) {
	case 0:
		r.Signon.Language = ofxgo.String(sized("language", 5, "a-z"))
		want = len(r.Signon.Language) == 3
	case 1:
		r.Signon.Status.Code = ofxgo.Int(v.Int64("code"))
		want = statusOK(int64(r.Signon.Status.Code), "INFO")
	case 2:
		if name == "SecurityList" {
			return
		}
		uid := aroundIn("uid", "a-z", 36)
		reflect.ValueOf(x).Elem().FieldByName("TrnUID").SetString(uid)
		want = len(uid) >= 1 && len(uid) <= 36
	case 3:
		s, ok := x.(*ofxgo.StatementResponse)
		if !ok {
			return
		}
		s.BankAcctFrom.AcctID = ofxgo.String(sized("account", 1, "0-9"))
		s.BankAcctFrom.AcctType = as(s.BankAcctFrom.AcctType, uint(v.Range("type", 0, 8)))
		if v.Bool("pending") {
			s.BankTranListP = &ofxgo.PendingTransactionList{DtAsOf: s.DtAsOf}
		}
		want = v.And(acctOK(&s.BankAcctFrom), s.BankTranListP == nil)
	}
	l := setOf(&r, name)
	y := filled(name, shortMessage(name, true).kids)
	if v.Choose("second", 2) == 1 {
		*l = []ofxgo.Message{y, x}
	} else {
		*l = []ofxgo.Message{x, y}
	}
	b, err := r.Marshal()
	if want {
		v.Reach("valid")
		v.Assert(err == nil && b != nil, "a valid response is refused")
		return
	}
	v.Reach("invalid")
	v.Assert(err != nil && b == nil, "an invalid response is written")
}

// Every kind of message, of one letter's content, tells its element and its
// message set.
func C29_names() {
	name := messageNames[v.Choose("message", len(messageNames))]
	g := &gen{sym: true, give: required}
	pattern(g, 1)
	m := g.message(name)
	r := parse((&writer{}).document("203", signonNodes(), []message{m}))
	x := (*setOf(r, name))[0]
	v.Assert(x.Name() == m.elem, "a "+m.elem+" says it is a "+x.Name())
	v.Assert(x.Type().String() == m.set, "a "+m.elem+" says it belongs to "+x.Type().String())
	v.Assert(r.Signon.Name() == "SONRS", "a signon says it is something else")
	v.Reach("named")
}

// Documents with 1030 messages in one set, of each kind; a kind of message
// repeated 200 times in each of two sets by turns.
func C29_bulk() {
	v.Long()
	k := v.Choose("kind", len(messageNames))
	name := messageNames[k]
	set := fieldOfSet(strings.Replace(responseKinds[name].set, "RSV1", "RQV1", 1))
	one := func(name string, i int) message {
		g := &gen{valid: true, old: true, fulldate: true, give: required}
		g.present = func(k int, f *field) bool { return false }
		g.count = func(k int, f *field) int { return 0 }
		m := g.message(name)
		for _, n := range m.kids {
			if n.f.name == "TrnUID" {
				n.leaf.text = itoa(i)
			}
		}
		return m
	}
	var segs []segment
	if v.Choose("turns", 2) == 0 {
		s := segment{set: set}
		for i := 0; i < 1030; i++ {
			s.msgs = append(s.msgs, one(name, i))
		}
		segs = append(segs, s)
	} else {
		other := messageNames[(k+1)%len(messageNames)]
		oset := fieldOfSet(strings.Replace(responseKinds[other].set, "RSV1", "RQV1", 1))
		for i := 0; i < 200; i++ {
			segs = append(segs, segment{set, []message{one(name, i)}}, segment{oset, []message{one(other, i)}})
		}
	}
	holdsSets(parse(response([]string{"102", "203"}[k%2], segs)), segs)
	v.Reach("read")
}

// Documents with three messages of a kind which differ, if at all, in their
// symbolic texts of one letter or digit, in one set or spread over it and its
// repetition; with all optional values or none.
func C29_alike() {
	name := messageNames[v.Choose("kind", len(messageNames))]
	full := v.Choose("full", 2) == 1
	g := &gen{}
	alike(g, 1, false)
	g.present = func(k int, f *field) bool { return full && f.sub == nil }
	g.count = func(k int, f *field) int { return 0 }
	set := fieldOfSet(strings.Replace(responseKinds[name].set, "RSV1", "RQV1", 1))
	a, b, c := g.message(name), g.message(name), g.message(name)
	segs := []segment{{set, []message{a, b, c}}}
	if v.Choose("apart", 2) == 1 {
		segs = []segment{{set, []message{a}}, {set, []message{b, c}}}
	}
	holdsSets(parse(response([]string{"203", "151"}[v.Choose("sgml", 2)], segs)), segs)
	v.Reach("read")
}

// Responses with three such messages are written and read back.
func C29_alike_written() {
	name := messageNames[v.Choose("kind", len(messageNames))]
	g := &gen{valid: true, old: true, fulldate: true}
	alike(g, 1, false)
	full := v.Choose("full", 2) == 1
	g.present = func(k int, f *field) bool { return full && f.sub == nil }
	g.count = func(k int, f *field) int { return 0 }
	var r ofxgo.Response
	r.Version, _ = ofxgo.NewOfxVersion([]string{"203", "151"}[v.Choose("sgml", 2)])
	r.Signon = signonResponse(signonNodes())
	s := segment{set: fieldOfSet(strings.Replace(responseKinds[name].set, "RSV1", "RQV1", 1))}
	l := setOf(&r, name)
	for i := 0; i < 3; i++ {
		m := g.message(name)
		s.msgs = append(s.msgs, m)
		*l = append(*l, filled(name, m.kids))
	}
	doc := written(&r)
	if strings.HasPrefix(doc, "error") {
		v.Assert(false, "the response is not written: "+doc)
	}
	holdsSets(parse(doc), []segment{s})
	v.Reach("written")
}
