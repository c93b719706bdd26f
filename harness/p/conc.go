package p

import (
	"bytes"
	"crypto/tls"
	"io"
	"net"
	"net/http"
	"reflect"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// An operation is prepared (its inputs are drawn), run (together with others)
// and its results are looked at afterwards.
type operation struct {
	run, check func()
}

func readOp(name, ver string, p int) operation {
	g := &gen{sym: true, valid: true, fulldate: true, shift: p, give: required, old: ver < "220"}
	pattern(g, p)
	m := g.message(name)
	sn := signonNodes()
	doc := (&writer{}).document(ver, sn, []message{m})
	var r *ofxgo.Response
	return operation{func() { r = parse(doc) }, func() {
		matches("", schemas[name], m.kids, only(*setOf(r, name)))
		matches("Signon", schemas["SignonResponse"], sn, reflect.ValueOf(r.Signon))
	}}
}

func judgeOp(name, ver string) operation {
	g := &gen{sym: true, valid: true, fulldate: true, give: required, old: ver < "220"}
	pattern(g, 1)
	m := g.message(name)
	doc := (&writer{}).document(ver, signonNodes(), []message{m})
	var ok bool
	var err error
	return operation{func() {
		r, e := ofxgo.ParseResponse(strings.NewReader(doc))
		if err = e; e == nil {
			ok, err = r.Valid()
		}
	}, func() {
		if err != nil {
			v.Assert(false, "a valid response is refused: "+err.Error())
		}
		v.Assert(ok, "a valid response is refused")
	}}
}

func askOp(ver string, names ...string) operation {
	r, sn := plainRequest(ver)
	var msgs []message
	for _, n := range names {
		m := responseKinds[n]
		m.kids = minimal(n)
		put(&r, n, m.kids)
		msgs = append(msgs, m)
	}
	var b *bytes.Buffer
	var err error
	return operation{func() { b, err = r.Marshal() }, func() {
		if err != nil {
			v.Assert(false, "the request is not written: "+err.Error())
		}
		_, got := items(b.String())
		sameItems(got, wanted(sn, msgs))
	}}
}

func writeOp(name, ver string) operation {
	g := &gen{sym: true, valid: true, fulldate: true, give: required, old: ver < "220"}
	m := g.message(name)
	gs := &gen{sym: true, fulldate: true, give: required}
	sn := gs.aggregate(schemas["SignonResponse"])
	var r ofxgo.Response
	r.Version, _ = ofxgo.NewOfxVersion(ver)
	r.Signon = signonResponse(sn)
	set := setOf(&r, name)
	*set = append(*set, filled(name, m.kids))
	var b *bytes.Buffer
	var err error
	return operation{func() { b, err = r.Marshal() }, func() {
		if err != nil {
			v.Assert(false, "the response is not written: "+err.Error())
		}
		_, got := tokens(b.String())
		_, want := tokens((&writer{}).document(ver, sn, []message{m}))
		sameTokens(got, want)
	}}
}

// valuesOp makes and prints values of all kinds.
func valuesOp() operation {
	name := v.Str("name", 3, "A-Z")
	day := 1 + v.Range("day", 0, 27)
	var id, at, kind, cur, ver string
	var okc, unknown, same bool
	var sum string
	var tt ofxgo.Boolean
	return operation{func() {
		if u, err := ofxgo.RandomUID(); err == nil {
			id = string(*u)
		}
		at = ofxgo.NewDate(2020, 2, day, 3, 4, 5, 0, time.UTC).String()
		k, err := ofxgo.NewTrnType("DEBIT")
		if err == nil {
			kind = k.String()
		}
		if _, err := ofxgo.NewAcctType(name); err == nil {
			kind = "an account type " + name
		}
		c, err := ofxgo.NewCurrSymbol("EUR")
		if err == nil {
			cur = c.String()
			okc, _ = c.Valid()
		}
		w, err := ofxgo.NewOfxVersion("203")
		if err == nil {
			ver = w.String()
		}
		tt = true
		ver += tt.String()
		good, _ := (&ofxgo.Status{Code: 2000}).CodeMeaning()
		_, err = (&ofxgo.Status{Code: 9}).CodeConditions()
		ver += good + "/" + judged((&ofxgo.Status{Code: 0, Severity: "INFO"}).Valid())
		unknown = err != nil
		var n ofxgo.Amount
		n.SetFrac64(int64(day), 8)
		sum = n.String()
		same = n.Equal(n) && ofxgo.NewDateGMT(2020, 2, day, 3, 4, 5, 0).Equal(*ofxgo.NewDate(2020, 2, day, 3, 4, 5, 0, time.UTC))
		bc := &ofxgo.BasicClient{AppID: name}
		c1, c2, c3 := ofxgo.GetClient("https://a.b", bc), ofxgo.GetClient(specialURLs[0], bc), ofxgo.GetClient(specialURLs[1], bc)
		_, discover := c2.(*ofxgo.DiscoverCardClient)
		_, vanguard := c3.(*ofxgo.VanguardClient)
		same = same && discover && vanguard && string(c1.ID()+c2.ID()+c3.ID()) == name+name+name
	}, func() {
		v.Assert(len(id) == 36, "a random UID has not 36 characters")
		v.Assert(strings.HasPrefix(at, "202002"+digits2(day)+"030405"), "a date is printed wrongly")
		v.Assert(kind == "DEBIT" && cur == "EUR" && okc && ver == "203trueGeneral error/valid" && unknown, "a value is printed wrongly")
		v.Assert(same, "equal values differ, or a client is none for its URL")
		v.Assert(sum == []string{"", ".125", ".25", ".375", ".5", ".625", ".75", ".875"}[day%8] || len(sum) > 1 && sum[0] == byte('0'+day/8) && sum[1:] == []string{"", ".125", ".25", ".375", ".5", ".625", ".75", ".875"}[day%8] || sum == itoa(day/8) && day%8 == 0, "an amount is printed wrongly")
	}}
}

// sendOp sends a request to a network which names the sender in its answer.
func sendOp(c ofxgo.Client, how int) operation {
	r, sn := plainRequest("203")
	r.URL = "https://bank.example/ofx"
	user := ""
	for _, k := range sn {
		if k.f.name == "UserID" {
			user = k.leaf.text
		}
	}
	var resp *ofxgo.Response
	var raw *http.Response
	var err error
	var body []byte
	return operation{func() {
		if how == 0 {
			resp, err = c.Request(&r)
			return
		}
		raw, err = c.RequestNoParse(&r)
		if err == nil && how == 1 {
			body, err = io.ReadAll(raw.Body)
			raw.Body.Close()
		}
	}, func() {
		if err == nil && how == 2 {
			body, err = io.ReadAll(raw.Body)
			raw.Body.Close()
		}
		if err != nil {
			v.Assert(false, "the request fails: "+err.Error())
		}
		if how == 0 {
			v.Assert(string(resp.Signon.Org) == user, "the answer to another request is returned")
			return
		}
		v.Assert(strings.Contains(string(body), "<ORG>"+user+"</ORG>"), "the answer to another request is returned")
	}}
}

// echo makes the network answer each request by a document naming its user.
func echo() {
	doc := goodDoc()
	i := strings.Index(doc, "<ORG>") + 5
	head, tail := doc[:i], doc[i+strings.IndexByte(doc[i:], '<'):]
	answer := func(req string) string {
		i := strings.Index(req, "<USERID>")
		if i < 0 {
			return ""
		}
		u := req[i+8:]
		u = u[:strings.IndexByte(u, '<')]
		return head + u + tail
	}
	http.VerifRoundTrip = func(r *http.Request) (*http.Response, error) {
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, err
		}
		doc := answer(string(b))
		return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: newBody(doc), ContentLength: int64(len(doc)), Request: r}, nil
	}
	dial := func() (net.Conn, error) {
		c := &conn{}
		c.in = &lateReader{f: func() string {
			doc := answer(c.out.String())
			return "HTTP/1.1 200 OK\r\nContent-Length: " + itoa(len(doc)) + "\r\n\r\n" + doc
		}}
		return c, nil
	}
	tls.VerifDial = func(network, addr string, config *tls.Config) (net.Conn, error) { return dial() }
	net.VerifDial = func(network, addr string) (net.Conn, error) { return dial() }
}

// lateReader computes what it holds when it is first read.
type lateReader struct {
	f func() string
	r io.Reader
}

func (l *lateReader) Read(p []byte) (int, error) {
	if l.r == nil {
		l.r = strings.NewReader(l.f())
	}
	return l.r.Read(p)
}

// enumsOp reads and prints all enumerated values.
func enumsOp() operation {
	got, want := make([]string, len(enumShow)), make([]string, len(enumShow))
	return operation{func() {
		for i, f := range enumShow {
			got[i], want[i] = f()
		}
	}, func() {
		for i := range got {
			v.Assert(got[i] == want[i], "an enumerated value is read or printed wrongly")
		}
	}}
}

const operations = 13

func operationOf(k int) operation {
	switch k {
	case 0:
		return readOp("StatementResponse", "203", 0)
	case 1:
		return readOp("CCStatementResponse", "102", 0)
	case 2:
		return readOp("InvStatementResponse", "220", 1)
	case 3:
		return readOp("SecurityList", "151", 0)
	case 4:
		return readOp("ProfileResponse", "211", 1)
	case 5:
		return judgeOp("AcctInfoResponse", "103")
	case 6:
		return askOp("203", "StatementRequest", "CCStatementRequest")
	case 7:
		return askOp("102", "AcctInfoRequest")
	case 8:
		return askOp("220", "InvStatementRequest", "ProfileRequest")
	case 9:
		return writeOp("StatementResponse", "220")
	case 10:
		return writeOp("InvStatementResponse", "102")
	case 11:
		return enumsOp()
	}
	return valuesOp()
}

// Any two of thirteen operations at a time, each on values of its own: reading
// responses of five kinds (in versions 102 to 220), judging one, writing
// requests of three versions and responses of two, making and printing
// values, and all enumerated ones.
// The texts are arbitrary. Their results are looked at when both have ended.
func C35_pairs() {
	a := operationOf(v.Choose("first", operations))
	b := operationOf(v.Choose("second", operations))
	v.Concurrently(a.run, b.run)
	a.check()
	b.check()
	v.Reach("both done")
}

// One response, read and used by two goroutines which do not change it: they
// judge it, write it, and look at its transactions.
func C35_shared() {
	name := []string{"StatementResponse", "CCStatementResponse", "InvStatementResponse", "SecurityList", "ProfileResponse", "AcctInfoResponse"}[v.Choose("message", 6)]
	ver := []string{"220", "102"}[v.Choose("version", 2)]
	g := &gen{sym: true, valid: true, fulldate: true, give: required, old: ver < "220"}
	pattern(g, v.Choose("pattern", 2))
	if name == "InvStatementResponse" && g.count == nil {
		g.count = func(k int, f *field) int { return 3 }
	}
	m := g.message(name)
	r := parse((&writer{}).document(ver, signonNodes(), []message{m}))
	v.Share(r)
	var got [2]string
	use := func(i, how int) func() {
		return func() {
			if how == 0 {
				if ok, err := r.Valid(); ok && err == nil {
					got[i] = "valid"
				}
				return
			}
			b, err := r.Marshal()
			if err == nil {
				got[i] = b.String()
			}
		}
	}
	h0, h1 := v.Choose("first", 2), v.Choose("second", 2)
	v.Concurrently(use(0, h0), use(1, h1))
	for i, h := range []int{h0, h1} {
		if h == 0 {
			v.Assert(got[i] == "valid", "a valid response is refused")
		} else {
			matches("", schemas[name], m.kids, only(*setOf(parse(got[i]), name)))
		}
	}
	matches("", schemas[name], m.kids, only(*setOf(r, name)))
	v.Reach("both done")
}

// One client of each kind sends two requests of two users at a time, whose
// responses are parsed, or read at once or when both have been answered; each gets the answer to its own.
func C35_client() {
	echo()
	bc := &ofxgo.BasicClient{AppID: "QWIN", AppVer: "2700", SpecVersion: ofxgo.OfxVersion203}
	c := clientOf(v.Choose("client", clientKinds), bc)
	v.Share(c)
	a := sendOp(c, v.Choose("first", 3))
	b := sendOp(c, v.Choose("second", 3))
	v.Concurrently(a.run, b.run)
	a.check()
	b.check()
	v.Reach("both answered")
}
