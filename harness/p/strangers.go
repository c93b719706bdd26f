package p

import (
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// stranger is a transaction, position, order and security of a type of the
// caller's own.
type stranger struct {
	ofxgo.InvTran
	name string
}

func (s stranger) TransactionType() string        { return s.name }
func (s stranger) InvTransaction() ofxgo.InvTran  { return s.InvTran }
func (s stranger) PositionType() string           { return s.name }
func (s stranger) InvPosition() ofxgo.InvPosition { return ofxgo.InvPosition{} }
func (s stranger) OrderType() string              { return s.name }
func (s stranger) SecurityType() string           { return s.name }
func (s stranger) SecurityInfo() ofxgo.SecInfo    { return ofxgo.SecInfo{} }

// pointed is a pointer to a copy of a value.
func pointed(x interface{}) interface{} {
	p := reflect.New(reflect.TypeOf(x))
	p.Elem().Set(reflect.ValueOf(x))
	return p.Interface()
}

// refusesStranger puts a member of a type that cannot be written into a list of
// two members, in any place: one of a type of the caller's own with a known or
// any other name, or a pointer to a known one.
func refusesStranger(name, list, variants string) {
	known := names(variants)
	k := v.Choose("type", len(known))
	g := &gen{give: required, valid: true, fulldate: true, shift: k}
	few(g, 0, 2)
	g.shift = k
	m := filled(name, g.message(name).kids)
	var r ofxgo.Response
	r.Version = ofxgo.OfxVersion220
	gs := &gen{fulldate: true, give: required}
	r.Signon = signonResponse(gs.aggregate(schemas["SignonResponse"]))
	set := setOf(&r, name)
	*set = append(*set, m)
	if _, err := r.Marshal(); err != nil {
		v.Assert(false, "a good response is not written: "+err.Error())
	}
	x := reflect.ValueOf(m).Elem().FieldByName(list)
	if list == "InvTransactions" {
		x = reflect.ValueOf(m.(*ofxgo.InvStatementResponse).InvTranList).Elem().FieldByName(list)
	}
	var odd interface{}
	switch kind := v.Choose("kind", 3); kind {
	case 0:
		odd = stranger{name: known[k]}
	case 1:
		odd = stranger{name: v.Str("name", 2, "A-Z")}
	case 2:
		odd = pointed(x.Index(0).Interface())
	}
	at := v.Choose("place", 3)
	n := reflect.MakeSlice(x.Type(), 0, 3)
	for i := 0; i <= x.Len(); i++ {
		if i == at {
			n = reflect.Append(n, reflect.ValueOf(odd))
		}
		if i < x.Len() {
			n = reflect.Append(n, x.Index(i))
		}
	}
	x.Set(n)
	b, err := r.Marshal()
	v.Assert(err != nil && b == nil, "a member of an unknown type is written or left out")
	v.Reach("refused")
}

// Every type of transaction, position and order, in lists of two; with a third
// of a type of the caller's own, of the same or any name of two letters, or a
// pointer, first, between or last: refused.
func C13_strangers() {
	switch v.Choose("list", 3) {
	case 0:
		refusesStranger("InvStatementResponse", "InvTransactions", "tran")
	case 1:
		refusesStranger("InvStatementResponse", "InvPosList", "position")
	case 2:
		refusesStranger("InvStatementResponse", "InvOOList", "order")
	}
}

// Likewise for securities.
func C14_strangers() {
	refusesStranger("SecurityList", "Securities", "security")
}

// A profile with two message sets and a third, first, between or last, whose
// name is of up to five characters and does not end in V1: refused.
func C15_strangers() {
	g := &gen{give: required, valid: true, fulldate: true}
	few(g, 0, 2)
	m := filled("ProfileResponse", g.message("ProfileResponse").kids).(*ofxgo.ProfileResponse)
	var r ofxgo.Response
	r.Version = ofxgo.OfxVersion103
	gs := &gen{fulldate: true, give: required}
	r.Signon = signonResponse(gs.aggregate(schemas["SignonResponse"]))
	r.Prof = append(r.Prof, m)
	if _, err := r.Marshal(); err != nil {
		v.Assert(false, "a good response is not written: "+err.Error())
	}
	odd := m.MessageSetList[0]
	name := v.Str("name", v.Choose("length", 6), "")
	if len(name) >= 2 {
		v.Assume(v.Or(name[len(name)-2] != 'V', name[len(name)-1] != '1'))
	}
	odd.Name = name
	at := v.Choose("place", 3)
	l := append(ofxgo.MessageSetList(nil), m.MessageSetList[:at]...)
	m.MessageSetList = append(append(l, odd), m.MessageSetList[at:]...)
	b, err := r.Marshal()
	v.Assert(err != nil && b == nil, "a message set of another version is written or left out")
	v.Reach("refused")
}

// Profiles with two message sets with names of one or two arbitrary letters or
// digits between one of two others and V1, the second of any of eleven
// known names: read; or written and read back. SGML and XML.
func C15_names() {
	g := &gen{give: required}
	few(g, 0, 2)
	g.variant = func(i int, f *field) int { return (i + 1) % len(f.variants) }
	k := v.Choose("known", 3) * 5
	// no such name is one of an element with a value
	name := []string{"Q", "QABVERYLONG"}[v.Choose("start", 2)] + v.Str("name", 1, "A-Z") + []string{"", v.Str("more", 1, "A-Z0-9"), "V", "V1"}[v.Choose("end", 4)] + "V1"
	g.named = func(i int, f *field, old string) string {
		if i == 0 {
			return name
		}
		return variantNames("msgset")[k]
	}
	ver := []string{"203", "103"}[v.Choose("version", 2)]
	if v.Choose("written", 2) == 1 {
		writeMessage("ProfileResponse", ver, g, true)
		return
	}
	readMessage("ProfileResponse", ver, g)
}

func variantNames(kind string) (out []string) {
	for _, x := range variantTypes[kind] {
		out = append(out, x[:strings.Index(x, " ")])
	}
	return
}

// A profile of two message sets of which one has two versions, the same or
// another one, or none: refused, or read with all of them; SGML and XML.
func C15_forms() {
	g := &gen{give: required}
	few(g, 0, 2)
	ver, w := styled(v.Choose("style", 3))
	top, _, _ := responseTree("ProfileResponse", g)
	at, form := v.Choose("set", 2), v.Choose("form", 4)
	found := 0
	top.each(func(e *el) {
		if e.name == "MSGSETLIST" {
			found++
			s := e.kids[at]
			switch again := *s.kids[0]; form {
			case 0:
				s.kids = nil
			case 1:
				s.kids = append(s.kids, &again)
			case 2:
				again.name = again.name[:len(again.name)-1] + v.Str("version", 1, "0-9")
				s.kids = append(s.kids, &again)
			case 3:
				again.name = again.name[:len(again.name)-1] + v.Str("version", 1, "0-9")
				s.kids = append([]*el{&again}, s.kids...)
			}
		}
	})
	if found != 1 {
		panic("no list")
	}
	w.str(header(ver))
	w.write(top)
	r, err := ofxgo.ParseResponse(strings.NewReader(string(w.b)))
	if err == nil {
		l := r.Prof[0].(*ofxgo.ProfileResponse).MessageSetList
		v.Assert(form > 0 && len(l) == 3, "a version of a message set is lost")
	}
	v.Reach("done")
}
