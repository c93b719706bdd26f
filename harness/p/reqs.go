package p

import (
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

func noReturns(s string) string { return strings.Replace(s, "\r\n", "\n", -1) }

// Requests of every version value up to 65536, known or not, with either line
// ending and indentation, through the settings of a client or without, after
// nothing, or a request of one of three versions with either line ending.
func C07_request() {
	r, _ := plainRequest("203")
	before()
	c := &ofxgo.BasicClient{NoIndent: v.Bool("noindent"), CarriageReturn: v.Bool("cr")}
	if v.Bool("client") {
		r.SetClientFields(c)
	}
	r.Version = as(ofxgo.OfxVersion102, uint(v.Range("version", 0, 65536)))
	b, err := r.Marshal()
	checkVersion(uint(r.Version), func() string { return b.String() }, b == nil, err)
}

// before writes nothing or a document of another kind.
func before() {
	k := v.Choose("before", 4)
	if k == 0 {
		return
	}
	r, _ := plainRequest([]string{"102", "203", "211"}[k-1])
	r.SetClientFields(&ofxgo.BasicClient{SpecVersion: r.Version, CarriageReturn: v.Choose("before with returns", 2) == 1})
	b, err := r.Marshal()
	v.Assert(err == nil && b != nil, "a document is not written")
}

// Responses of every version value up to 65536, known or not, after nothing or
// a request of one of three versions.
func C07_response() {
	before()
	var r ofxgo.Response
	r.Signon = signonResponse(signonNodes())
	r.Version = as(ofxgo.OfxVersion102, uint(v.Range("version", 0, 65536)))
	b, err := r.Marshal()
	ver := checkVersion(uint(r.Version), func() string { return b.String() }, b == nil, err)
	if ver == "" {
		return
	}
	back := parse(b.String())
	v.Assert(back.Version == r.Version, "a document is read back with another version")
	v.Assert(back.Version.String() == ver, "the version prints differently")
}

// checkVersion checks the outcome of writing a document, and gives the version.
func checkVersion(n uint, doc func() string, none bool, err error) string {
	for _, ver := range versionText {
		known, e := ofxgo.NewOfxVersion(ver)
		v.Assert(e == nil, "version "+ver+" is not known")
		if n != uint(known) {
			continue
		}
		v.Reach("version " + ver)
		if err != nil {
			v.Assert(false, "version "+ver+" is not written: "+err.Error())
		}
		s := doc()
		i := strings.Index(s, "<OFX>")
		v.Assert(i >= 0, "the document lacks its OFX element")
		v.Assert(trimBlank(noReturns(s[:i])) == trimBlank(header(ver)), "a document of version "+ver+" has another header")
		return ver
	}
	v.Reach("unknown version")
	v.Assert(err != nil, "a document of an unknown version is written")
	v.Assert(none, "a refused document is returned")
	return ""
}

// Requests with a signon of which two fields at a time are around their limits,
// in all versions; with a message or without.
func C09_signon() {
	k := v.Choose("version", len(versionText))
	r, _ := plainRequest(versionText[k])
	s := &r.Signon
	set := func(i int) {
		switch i {
		case 0:
			s.UserID = ofxgo.String(aroundIn("user", "a-z0-9", 32))
		case 1:
			s.UserPass = ofxgo.String(aroundIn("pass", "a-z0-9", 32))
		case 2:
			s.UserKey = ofxgo.String(aroundIn("key", "a-z0-9", 64))
		case 3:
			s.Language = ofxgo.String(aroundIn("language", "a-z0-9", 3))
		case 4:
			s.AppID = ofxgo.String(aroundIn("app", "a-z0-9", 5))
		case 5:
			s.AppVer = ofxgo.String(aroundIn("appver", "a-z0-9", 4))
		}
	}
	i := k % 6
	set(i)
	set((i + 1 + v.Choose("second", 5)) % 6)
	if v.Bool("message") {
		name := requestNames[v.Choose("kind", 6)]
		put(&r, name, minimal(name))
	}
	want := len(s.UserID) >= 1 && len(s.UserID) <= 32 &&
		(len(s.UserPass) > 0) != (len(s.UserKey) > 0) && len(s.UserPass) <= 32 && len(s.UserKey) <= 64 &&
		(len(s.Language) == 0 || len(s.Language) == 3) &&
		len(s.AppID) >= 1 && len(s.AppID) <= 5 && len(s.AppVer) >= 1 && len(s.AppVer) <= 4
	refusedUnless(&r, want, "a signon")
}

func refusedUnless(r *ofxgo.Request, want bool, what string) {
	b, err := r.Marshal()
	if want {
		v.Reach("valid")
		if err != nil {
			v.Assert(false, "a request with a valid "+what[2:]+" is refused: "+err.Error())
		}
		v.Assert(b != nil, "nothing is written")
		return
	}
	v.Reach("invalid")
	v.Assert(err != nil, "a request with an invalid "+what[2:]+" is written")
	v.Assert(b == nil, "a refused document is returned")
}

// Each kind of message, also of responses, in each message set of a request,
// as the only one, before, or after one that belongs there, or one in another
// set; in an SGML and an XML version.
func C09_sets() {
	names := append(append([]string{}, requestNames...), messageNames...)
	name := names[v.Choose("message", len(names))]
	i := v.Choose("set", len(setFields))
	r, _ := plainRequest([]string{"151", "211"}[i%2])
	var x ofxgo.Message
	if responseKinds[name].set[len(responseKinds[name].set)-3] == 'Q' {
		x = filled(name, minimal(name))
	} else {
		x = validResponse(name)
	}
	l := listOf(&r, i)
	others := v.Choose("others", 5)
	for j, n := range requestNames {
		if fieldOfSet(responseKinds[n].set) == i && others < 3 {
			y := filled(n, minimal(n))
			switch others {
			case 1:
				*l = append(*l, y)
			case 2:
				*l = append(*l, x, y)
			}
		} else if others == 3 && j%2 == 0 || others == 4 {
			put(&r, n, minimal(n))
		}
	}
	if len(*l) < 2 {
		*l = append(*l, x)
	}
	refusedUnless(&r, setElems[i] == responseKinds[name].set, "a message of "+responseKinds[name].elem)
}

// validResponse makes a valid message of a response.
func validResponse(name string) ofxgo.Message {
	g := &gen{valid: true, old: true, give: required}
	g.present = func(k int, f *field) bool { return false }
	g.count = func(k int, f *field) int { return 0 }
	return filled(name, g.message(name).kids)
}

// Each kind of message with a transaction identifier of 0 to 3, 35 to 38 or 60
// bytes, two of one kind, of which the first or the second is valid, and
// others in other sets; all versions.
func C09_uid() {
	name := requestNames[v.Choose("message", 6)]
	k := v.Choose("length", 9)
	n := []int{0, 1, 2, 3, 35, 36, 37, 38, 60}[k]
	uid := ""
	if n > 0 {
		uid = v.Str("uid", 1, "a-z0-9") + strings.Repeat("x", n-1)
	}
	pos := v.Choose("position", 3)
	r, _ := plainRequest(versionText[(k*3+pos)%len(versionText)])
	for j := 0; j < 3; j++ {
		x := filled(name, minimal(name))
		if j == pos {
			reflect.ValueOf(x).Elem().FieldByName("TrnUID").SetString(uid)
		}
		l := listOf(&r, fieldOfSet(responseKinds[name].set))
		*l = append(*l, x)
	}
	if k%2 == 0 {
		for _, o := range requestNames {
			if o != name {
				put(&r, o, minimal(o))
			}
		}
	}
	refusedUnless(&r, n >= 1 && n <= 36, "a transaction identifier")
}

// Statement requests with any account, with or without pending transactions
// and images, in all versions, as the first or second message.
func C09_statement() {
	k := v.Choose("version", len(versionText))
	ver := versionText[k]
	r, _ := plainRequest(ver)
	x := filled("StatementRequest", minimal("StatementRequest")).(*ofxgo.StatementRequest)
	x.IncludePending, x.IncTranImg = ofxgo.Boolean(v.Bool("pending")), ofxgo.Boolean(v.Bool("images"))
	x.BankAcctFrom.BankID = ofxgo.String(aroundIn("bank", "a-z0-9", 9))
	x.BankAcctFrom.AcctID = ofxgo.String(aroundIn("account", "a-z0-9", 22))
	x.BankAcctFrom.BranchID = ofxgo.String(sized("branch", 1, "a-z"))
	x.BankAcctFrom.AcctType = as(ofxgo.AcctTypeChecking, uint(v.Range("type", 0, 8)))
	y := filled("StatementRequest", minimal("StatementRequest"))
	switch k % 3 {
	case 0:
		r.Bank = []ofxgo.Message{x}
	case 1:
		r.Bank = []ofxgo.Message{x, y}
	case 2:
		r.Bank = []ofxgo.Message{y, x}
	}
	want := v.And(acctOK(&x.BankAcctFrom), v.Or(!bool(x.IncludePending), ver >= "220"), v.Or(!bool(x.IncTranImg), ver >= "210"))
	refusedUnless(&r, want, "a statement request")
}

// Requests with two messages of a kind are written, changed so as to be invalid
// (a transaction identifier, the password, the account, pending transactions
// under an old version, or a list), written, changed back, and written: only
// the valid ones are; or the other way round.
func C09_again() {
	name := requestNames[v.Choose("message", len(requestNames))]
	r, _ := plainRequest("160")
	x, y := filled(name, minimal(name)), filled(name, minimal(name))
	l := listOf(&r, fieldOfSet(responseKinds[name].set))
	*l = []ofxgo.Message{y, x}
	what := v.Choose("what", 5)
	uid := reflect.ValueOf(x).Elem().FieldByName("TrnUID")
	was, pass := uid.String(), r.Signon.UserPass
	long := v.Str("uid", 1, "a-z") + strings.Repeat("0", 36)
	other := fieldOfSet(responseKinds[name].set) ^ 1
	st, bank := x.(*ofxgo.StatementRequest)
	change := func(bad bool) {
		switch {
		case what == 0 && bad:
			uid.SetString("")
		case what == 0 || what == 1 && !bad:
			uid.SetString(was)
		case what == 1:
			uid.SetString(long)
		case what == 2 && bad:
			r.Signon.UserPass = ""
		case what == 2:
			r.Signon.UserPass = pass
		case what == 3 && bank:
			st.IncludePending = ofxgo.Boolean(bad)
		case bad:
			*listOf(&r, other) = []ofxgo.Message{x}
		default:
			*listOf(&r, other) = nil
		}
	}
	bad := v.Choose("first", 2) == 1
	for i := 0; i < 3; i++ {
		change(bad)
		refusedUnless(&r, !bad, "a part changed since it was last written")
		bad = !bad
	}
}

// The same with responses: the transaction identifier, the status' code, the
// signon's language or a list.
func C09_response_again() {
	name := messageNames[v.Choose("message", len(messageNames))]
	var r ofxgo.Response
	r.Version, _ = ofxgo.NewOfxVersion("203")
	r.Signon = signonResponse(signonNodes())
	x, y := filled(name, shortMessage(name, true).kids), filled(name, shortMessage(name, false).kids)
	l := setOf(&r, name)
	*l = []ofxgo.Message{y, x}
	what := v.Choose("what", 4)
	if what == 0 && name == "SecurityList" {
		return
	}
	uid := reflect.ValueOf(x).Elem().FieldByName("TrnUID")
	was := ""
	if uid.IsValid() {
		was = uid.String()
	}
	other := &r.Signup
	if l == other {
		other = &r.Prof
	}
	bad := v.Choose("first", 2) == 1
	for i := 0; i < 3; i++ {
		switch {
		case what == 0 && bad:
			uid.SetString("")
		case what == 0:
			uid.SetString(was)
		case what == 1 && bad:
			r.Signon.Status.Code = 5
		case what == 1:
			r.Signon.Status.Code = 0
		case what == 2 && bad:
			r.Signon.Language = "EN"
		case what == 2:
			r.Signon.Language = "ENG"
		case bad:
			*other = []ofxgo.Message{x}
		default:
			*other = nil
		}
		b, err := r.Marshal()
		if bad {
			v.Reach("invalid")
			v.Assert(err != nil && b == nil, "a response changed to be invalid since it was written is written")
		} else {
			v.Reach("valid")
			v.Assert(err == nil && b != nil, "a response changed to be valid since it was refused is refused")
		}
		bad = !bad
	}
}
