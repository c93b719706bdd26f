package p

import (
	"io"
	"net/http"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// outcome is what left for the network in the course of a request, and what
// its sender got.
type outcome struct {
	sent   []string
	failed bool
	status int
	answer string
	resp   bool
	doc    string
}

// ask sends a request through a client in one of three ways (raw, not parsed,
// parsed), with an answer of six kinds: a document, nothing but a cookie and
// then the document, a document with a cookie and another status, no answer,
// one that is no document, one after a redirect. Wherever it is sent, it must be
// the request given, under the settings of the client.
func ask(c ofxgo.Client, bc *ofxgo.BasicClient, r *ofxgo.Request, way, answer int, doc string) (o outcome) {
	good := func(headers ...string) func(*network, *http.Request) (*http.Response, error) {
		return reply(200, newBody(doc), int64(len(doc)), headers...)
	}
	var n *network
	hand := "HTTP/1.1 200 OK\r\nContent-Length: " + itoa(len(doc)) + "\r\n\r\n" + doc
	switch answer {
	case 0:
		n = serve(good("Set-Cookie", "kept=1"), good())
	case 1:
		n = serve(reply(200, newBody(""), 0, "Set-Cookie", "empty=2"), good(), good())
		hand = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\nSet-Cookie: empty=2\r\n\r\n"
	case 2:
		n = serve(reply(500, newBody(doc), int64(len(doc)), "Set-Cookie", "bad=3"), good())
		hand = strings.Replace(hand, "200", "500", 1)
	case 3:
		n = serve(broken, good())
	case 4:
		n = serve(reply(200, newBody("x"), 1), good())
		hand = "HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx"
	case 5:
		n = serve(reply(307, newBody("moved"), 5, "Location", "https://c.d/", "Set-Cookie", "moved=4"), good(), good())
		hand = "HTTP/1.1 307 Moved\r\nLocation: https://c.d/\r\nContent-Length: 0\r\n\r\n"
	}
	n.accept = func(k *conn) error {
		if answer == 3 {
			return anyFault()
		}
		k.in = strings.NewReader(hand)
		return nil
	}
	var raw *http.Response
	var resp *ofxgo.Response
	var err error
	switch way {
	case 0:
		raw, err = c.RawRequest(r.URL, strings.NewReader("secret"))
	case 1:
		raw, err = c.RequestNoParse(r)
	case 2:
		resp, err = c.Request(r)
	}
	text := "secret"
	if way > 0 {
		b, e := r.Marshal()
		v.Assert(e == nil, "the request cannot be written")
		text = b.String()
		id, av := bc.AppID, bc.AppVer
		if id == "" {
			id, av = "OFXGO", "0001"
		}
		v.Assert(string(r.Signon.AppID) == id && string(r.Signon.AppVer) == av && (r.Version == bc.SpecVersion || bc.SpecVersion == 0 && r.Version == ofxgo.OfxVersion203), "the request has not the settings of its client")
	}
	if len(n.requests) > 0 {
		posted(n.requests[0], r.URL, text, bc.UserAgent)
	}
	for _, k := range n.conns {
		host := strings.Split(r.URL, "/")[2]
		v.Assert(k.addr == host || k.addr == host+":443", "the request is sent to another server")
		v.Assert(answer == 3 || strings.HasSuffix(k.out.String(), "\r\n\r\n"+text), "the request has other content")
	}
	// the time is not the same for any two requests
	now := r.Signon.DtClient.String()
	for _, s := range n.requests {
		t := s.method + " " + s.url + "\n"
		for _, k := range []string{"Content-Type", "User-Agent", "Authorization", "Referer", "Connection"} {
			t += k + ": " + s.hdr.Get(k) + "\n"
		}
		t += itoa(len(s.hdr)) + " headers\n"
		for _, k := range s.cookies {
			t += k.Name + "=" + k.Value + "\n"
		}
		o.sent = append(o.sent, t+strings.Replace(s.body, now, "now", -1))
	}
	for _, k := range n.conns {
		t := strings.Replace(k.out.String(), now, "now", -1)
		o.sent = append(o.sent, k.addr+"\n"+t)
	}
	o.failed = err != nil
	if raw != nil {
		o.status = raw.StatusCode
		b, e := io.ReadAll(raw.Body)
		v.Assert(e == nil || err != nil, "an answer cannot be read")
		o.answer = string(b)
		raw.Body.Close()
	}
	if resp != nil {
		o.resp = true
		b, e := resp.Marshal()
		v.Assert(e == nil, "an answer cannot be written")
		o.doc = b.String()
	}
	return
}

func sameOutcome(o, want outcome) {
	v.Assert(len(o.sent) == len(want.sent), "a later request is sent another number of times")
	for i, s := range o.sent {
		v.Assert(s == want.sent[i], "a later request is sent differently")
	}
	v.Assert(o.failed == want.failed && o.resp == want.resp && o.status == want.status, "a later request has another outcome")
	v.Assert(o.answer == want.answer && o.doc == want.doc, "a later request has another answer")
}

// settings sets a client: all or none of version, application, user agent and
// formatting.
func settings(bc *ofxgo.BasicClient, set bool, id, agent string) {
	bc.SpecVersion, bc.AppID, bc.AppVer, bc.UserAgent, bc.NoIndent, bc.CarriageReturn = 0, "", "", "", false, false
	if set {
		bc.SpecVersion, bc.AppID, bc.AppVer, bc.UserAgent, bc.NoIndent, bc.CarriageReturn = ofxgo.OfxVersion102, id, "9"+id, agent, true, true
	}
}

// requestMaker gives a function which makes requests with the same content.
func requestMaker(kind int) func() *ofxgo.Request {
	r, _ := plainRequest("203")
	name := requestNames[kind]
	put(&r, name, minimal(name))
	r.URL = "https://a.b/c"
	return func() *ofxgo.Request {
		x := r
		return &x
	}
}

func answerDoc(kind string) string {
	return response("203", []segment{{set: 0, msgs: []message{shortMessage(kind, false)}}})
}

// A request after one through the same client of any kind, sent in any of three
// ways with any of six answers, is sent and answered as the first of a new
// client is: with the settings changed or not, the same request or another
// to another server, in two ways, with three answers.
func C41_same() {
	kind := v.Choose("client", clientKinds)
	id, agent := v.Str("application", 2, "A-Z"), v.Str("agent", 2, "a-z")
	was, is := v.Choose("set before", 2) == 1, v.Choose("set", 2) == 1
	way, answer := 1+v.Choose("way", 2), []int{0, 1, 4}[v.Choose("answer", 3)]
	past, pastAnswer := v.Choose("way before", 3), v.Choose("answer before", 6)
	doc, pastDoc := answerDoc("AcctInfoResponse"), answerDoc("AcctInfoResponse")

	fresh, different := requestMaker(0), requestMaker(1)
	ref := &ofxgo.BasicClient{}
	settings(ref, is, id, agent)
	want := ask(clientOf(kind, ref), ref, fresh(), way, answer, doc)

	bc := &ofxgo.BasicClient{}
	c := clientOf(kind, bc)
	if was == is {
		settings(bc, is, id, agent)
	} else {
		settings(bc, was, "ZZ", "zz")
	}
	r := fresh()
	if (way+answer)%2 == 1 {
		r = different()
		r.URL = "https://e.f:8443/g?h"
	}
	ask(c, bc, r, past, pastAnswer, pastDoc)
	if was != is {
		settings(bc, is, id, agent)
	}
	if (way+answer)%2 == 1 {
		r = fresh()
	}
	sameOutcome(ask(c, bc, r, way, answer, doc), want)
	v.Reach("again")
}

// Likewise, after one through a client of another or the same kind, which may
// have the same settings, to the same server or another, in each of three ways and
// with each of six answers.
func C41_other() {
	kind, other := v.Choose("client", clientKinds), v.Choose("client before", clientKinds)
	way, answer := v.Choose("way", 3), v.Choose("answer", 6)
	id, agent := v.Str("application", 2, "A-Z"), v.Str("agent", 2, "a-z")
	doc := answerDoc("AcctInfoResponse")

	fresh, different := requestMaker(0), requestMaker(1)
	ref := &ofxgo.BasicClient{}
	settings(ref, true, id, agent)
	want := ask(clientOf(kind, ref), ref, fresh(), way, answer, doc)

	bc := &ofxgo.BasicClient{}
	c := clientOf(kind, bc)
	settings(bc, true, id, agent)
	past := &ofxgo.BasicClient{}
	settings(past, false, "", "")
	if answer%2 == 1 {
		past = bc
	}
	k := clientOf(other, past)
	r := different()
	if v.Choose("same server", 2) == 0 {
		r.URL = "https://e.f:8443/g?h"
	}
	ask(k, past, r, 2-way%2, (way+answer+kind)%6, answerDoc("ProfileResponse"))
	sameOutcome(ask(c, bc, fresh(), way, answer, doc), want)
	v.Reach("again")
}
