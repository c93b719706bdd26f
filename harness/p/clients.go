package p

import (
	"bytes"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// clientKinds are the ways to get a client.
const clientKinds = 5

// clientOf gives a client of a kind with given settings: the basic one, with an
// HTTP client of its own with or without a rule for redirects, the Vanguard
// and the Discover one.
func clientOf(k int, bc *ofxgo.BasicClient) ofxgo.Client {
	switch k {
	case 1:
		bc.HTTPClient = &http.Client{}
	case 2:
		bc.HTTPClient = &http.Client{CheckRedirect: func(req *http.Request, via []*http.Request) error { return nil }}
	case 3:
		return ofxgo.NewVanguardClient(bc)
	case 4:
		return ofxgo.NewDiscoverCardClient(bc)
	}
	return bc
}

// send sends a request in one of three ways: raw, as a Request, or as one whose
// response is parsed.
func send(c ofxgo.Client, how int, url string) (raw *http.Response, resp *ofxgo.Response, err error) {
	if how == 0 {
		raw, err = c.RawRequest(url, strings.NewReader("secret"))
		return
	}
	r, _ := plainRequest("203")
	r.URL = url
	if how == 1 {
		raw, err = c.RequestNoParse(&r)
		return
	}
	resp, err = c.Request(&r)
	return
}

// anyReply answers connections made by hand as well.
func anyReply(n *network, doc string) {
	n.accept = func(c *conn) error {
		c.in = strings.NewReader("HTTP/1.1 200 OK\r\nContent-Length: " + itoa(len(doc)) + "\r\n\r\n" + doc)
		return nil
	}
}

func goodDoc() string { return response("203", nil) }

// onlySecure checks all that left for the network.
func onlySecure(n *network) {
	for _, r := range n.requests {
		v.Assert(r.scheme == "https", "a request is sent to another scheme than https")
	}
	for _, c := range n.conns {
		v.Assert(!c.plain, "a plain connection is made")
	}
	v.Assert(n.distrust == "", n.distrust)
}

// Hosts of two letters, an address or localhost, with or without a port, each
// client, each way to send, and answers to be repeated or redirected: the
// server's certificate is verified.
func C24_verified() {
	host := []string{v.Str("host", 2, "a-z") + ".b", "127.0.0.1", "localhost", "[::1]"}[v.Choose("host", 4)]
	if v.Choose("port", 2) == 1 {
		host += ":8443"
	}
	n := serve(reply([]int{200, 307}[v.Choose("first", 2)], newBody(""), 0, "Set-Cookie", "a=b", "Location", "/e"), reply(200, newBody(goodDoc()), -1))
	anyReply(n, goodDoc())
	_, _, err := send(clientOf(v.Choose("client", clientKinds), &ofxgo.BasicClient{}), v.Choose("way", 3), "https://"+host+"/c")
	onlySecure(n)
	if err == nil {
		v.Reach("sent")
	}
}

// The scheme of the URL: any 5 to 9 bytes (of printable ones from the eighth
// on) before host and path, each client, each way to send.
func C24_scheme() {
	l := 5 + v.Choose("length", 5)
	s := ""
	if l > 8 {
		s = v.Str("prefix", 8, "") + v.Str("more", l-8, "a-z/:@?#.")
	} else {
		s = v.Str("prefix", l, "")
	}
	refuse(s+"a.b/c", false)
}

// Every URL of up to 40 bytes that does not begin with https://, whatever the
// case: each client, raw.
func C24_insecure() {
	u := v.Str("url", v.Choose("length", 41), "")
	if len(u) >= 8 {
		v.Assume(!v.And(u[0]|0x20 == 'h', u[1]|0x20 == 't', u[2]|0x20 == 't', u[3]|0x20 == 'p', u[4]|0x20 == 's', u[5] == ':', u[6] == '/', u[7] == '/'))
	}
	n := serve(reply(200, newBody(goodDoc()), -1))
	anyReply(n, goodDoc())
	c := clientOf(v.Choose("client", clientKinds), &ofxgo.BasicClient{})
	raw, resp, err := send(c, 0, u)
	v.Assert(!n.any(), "something is sent for a URL that is not https")
	v.Assert(err != nil && raw == nil && resp == nil, "a URL that is not https is not refused")
}

// URLs of other shapes: without, with a similar or unusual scheme, with https
// elsewhere than at the beginning, and one arbitrary byte somewhere.
func C24_shape() {
	x := v.Str("byte", 1, " -~")
	u := []string{"", x, "a.b/" + x, "//a.b/" + x, "/https://a.b/" + x, "http://" + x + "https://a.b/", "http://a.b/?u=https://" + x, "http://a.b:443/" + x, "http://a.b#https://" + x,
		"https:/" + x + "a.b", "https" + x + "//a.b/", "http" + x + "://a.b/", x + "https://a.b/", "https" + x + "://a.b/", "ftp://https://" + x, "javascript:https://" + x, "http://https@a.b/" + x, "HTTP://a.b/" + x,
		"\nhttps://a.b/" + x, " https://a.b/" + x, "https" + x + "https://a.b/"}
	refuse(u[v.Choose("shape", len(u))], true)
}

func refuse(u string, loose bool) {
	n := serve(reply(200, newBody(goodDoc()), -1))
	anyReply(n, goodDoc())
	c := clientOf(v.Choose("client", clientKinds), &ofxgo.BasicClient{})
	raw, resp, err := send(c, v.Choose("way", 3), u)
	onlySecure(n)
	secure := len(u) >= 8
	for i := 0; secure && i < 5; i++ {
		secure = u[i]|0x20 == "https"[i]
	}
	secure = secure && u[5:8] == "://"
	if !secure {
		v.Reach("refused")
		v.Assert(!n.any(), "something is sent for a URL that is not https")
		v.Assert(err != nil && raw == nil && resp == nil, "a URL that is not https is not refused")
		return
	}
	if !loose && u[:5] == "https" && u[8:] == "a.b/c" {
		v.Reach("sent")
		v.Assert(n.any() && err == nil, "a URL that is https is refused")
	}
}

var locations = []string{"http://c.d/", "https://c.d/", "//c.d/", "/e", "e", "HTTP://c.d/", "ftp://c.d/", "http:c.d", "HTTPS://c.d/", "?x"}

// Up to three redirects, each with any of five statuses, the last to any of ten
// kinds of places or to one whose scheme is any 4 to 6 letters, the ones before
// to four secure ones; each client that follows redirects, each way to send.
func C24_redirect() {
	hops := 1 + v.Choose("hops", 3)
	k, way := v.Choose("client", 4), 0
	if hops == 1 {
		way = v.Choose("way", 3)
	}
	var answers []func(*network, *http.Request) (*http.Response, error)
	secure := true
	for i := 0; i < hops; i++ {
		st := []int{307, 308, 302, 301, 303}[(v.Choose("status", 5-i))%5]
		loc := ""
		if i < hops-1 {
			loc = locations[1+v.Choose("location", 4)]
		} else if j := v.Choose("last location", len(locations)+3); j < len(locations) {
			loc = locations[j]
			secure = j >= 1 && j <= 4 || j >= 8
		} else {
			s := v.Str("scheme", j-len(locations)+4, "a-z")
			secure = s == "https"
			loc = s + "://c.d/"
		}
		answers = append(answers, reply(st, newBody("moved"), 5, "Location", loc))
	}
	answers = append(answers, reply(200, newBody(goodDoc()), int64(len(goodDoc()))))
	n := serve(answers...)
	raw, resp, err := send(clientOf(k, &ofxgo.BasicClient{}), way, "https://a.b/c")
	onlySecure(n)
	if !secure {
		v.Reach("refused")
		v.Assert(len(n.requests) == hops, "something is sent after a redirect that is not https")
		v.Assert(err != nil && raw == nil && resp == nil, "a redirect that is not https is no error")
		return
	}
	v.Reach("followed")
	if err != nil {
		v.Assert(false, "a redirect to https fails: "+err.Error())
	}
	v.Assert(len(n.requests) == hops+1, "redirects lead to another number of requests")
}

// The second request of the Vanguard client redirected to a place of any of ten
// kinds.
func C24_retry() {
	j := v.Choose("location", len(locations))
	n := serve(reply(200, newBody(""), 0, "Set-Cookie", "a=b"), reply(307, newBody(""), 0, "Location", locations[j]), reply(200, newBody(goodDoc()), -1))
	_, _, err := send(clientOf(3, &ofxgo.BasicClient{}), 1+v.Choose("way", 2), "https://a.b/c")
	onlySecure(n)
	if j >= 1 && j <= 4 || j >= 8 {
		v.Assert(err == nil, "a redirect to https fails")
		return
	}
	v.Reach("refused")
	v.Assert(err != nil && len(n.requests) == 2, "a redirect that is not https is followed")
}

// given makes a reader with bytes: a buffer, a string's reader, one that gives
// them in pieces.
func given(s string) io.Reader {
	switch v.Choose("reader", 3) {
	case 0:
		return bytes.NewBufferString(s)
	case 1:
		return strings.NewReader(s)
	}
	return &pieces{s: s, size: 2, err: io.EOF}
}

// content makes the content of a request or response: 0 to 4 arbitrary bytes,
// or 5000 bytes around them.
func content(label string) string {
	s := v.Str(label, v.Choose(label+" length", 5), "")
	if v.Choose(label+" long", 2) == 1 {
		s = strings.Repeat("0123456789", 250) + s + strings.Repeat("\r\n<", 833)
	}
	return s
}

// Any content, a user agent of up to 2 arbitrary bytes or none, path and query
// of 3 characters; any status from 100 to 599, any answer.
func C25_post() {
	text := content("content")
	answer := v.Str("answer", v.Choose("answer length", 3), "")
	st := v.Range("status", 100, 599)
	b := newBody(answer)
	n := serve(reply(st, b, int64(len(answer)), "X-Y", "z"))
	ua := v.Str("agent", v.Choose("agent length", 3), "")
	u := "https://a.b" + []string{"", ":44", "/", "/c/"}[v.Choose("url", 4)]
	if u[len(u)-1] == '/' {
		u += v.Str("path", 1, "a-zA-Z0-9._~-") + v.Str("path", 1, "a-z/") + "?" + v.Str("query", 2, "a-zA-Z0-9=&")
	}
	c := clientOf(v.Choose("client", 3), &ofxgo.BasicClient{UserAgent: ua})
	raw, err := c.RawRequest(u, given(text))
	v.Assert(len(n.requests) == 1 && len(n.conns) == 0, "the client sends not exactly one request")
	posted(n.requests[0], u, text, ua)
	if st == 200 {
		v.Reach("ok")
		if err != nil || raw == nil {
			v.Assert(false, "a response of status 200 is an error")
		}
		same(raw, b, answer)
		return
	}
	v.Reach("status")
	v.Assert(err != nil, "a response of another status than 200 is no error")
}

// posted checks a request.
func posted(s sent, u, text, ua string) {
	v.Assert(s.method == "POST", "the request is no POST")
	v.Assert(s.url == u, "the request is sent to another URL: "+s.url)
	v.Assert(s.body == text, "the request has other content")
	ct := s.hdr["Content-Type"]
	v.Assert(len(ct) == 1 && ct[0] == "application/x-ofx", "the request has another content type")
	a := s.hdr["User-Agent"]
	if ua == "" {
		v.Assert(len(a) == 0, "the request has a user agent")
	} else {
		v.Assert(len(a) == 1 && a[0] == ua, "the request has another user agent")
	}
}

// same checks a response that must be returned as received.
func same(raw *http.Response, b *body, answer string) {
	v.Assert(raw.StatusCode == 200, "the response has another status")
	h := raw.Header["X-Y"]
	v.Assert(len(h) == 1 && h[0] == "z", "the response has other headers")
	v.Assert(b.closed == 0, "the response is closed")
	got, err := io.ReadAll(raw.Body)
	v.Assert(err == nil && string(got) == answer, "the response has other content")
}

// Failures on the way: of the transport, of the content's reader, and of the
// reader of the answer.
func C25_failure() {
	c := clientOf(v.Choose("client", 3), &ofxgo.BasicClient{})
	b := newBody("")
	switch v.Choose("fault", 3) {
	case 0:
		n := serve(broken)
		raw, resp, err := send(c, v.Choose("way", 3), "https://a.b/")
		v.Assert(err != nil && raw == nil && resp == nil, "a failing transport is no error")
		v.Assert(len(n.requests) == 1, "a request is repeated")
	case 1:
		serve(reply(200, b, 0))
		raw, err := c.RawRequest("https://a.b/", &pieces{s: "ab", size: 1 + v.Choose("size", 2), err: anyFault()})
		v.Assert(err != nil && raw == nil, "a failing content is no error")
	case 2:
		doc := response("102", nil)
		i := v.Choose("read", len(doc))
		b = newBody(doc[:i])
		b.fail = true
		serve(reply(200, b, int64(len(doc))))
		_, resp, err := send(c, 2, "https://a.b/")
		v.Assert(err != nil && resp == nil, "a failing response is no error")
	}
	v.Reach("failed")
}

// The request and the parsed response: a document with a message of each kind,
// arriving in pieces of any of three sizes; or, of the response, one byte
// arbitrary in its header, or an invalid message.
func C25_parsed() {
	c := clientOf(v.Choose("client", clientKinds), &ofxgo.BasicClient{})
	r, _ := plainRequest("203")
	name := requestNames[v.Choose("request", 6)]
	put(&r, name, minimal(name))
	r.URL = "https://a.b/c"
	seg := segment{set: 0, msgs: []message{shortMessage("AcctInfoResponse", v.Choose("full", 2) == 1)}}
	doc := response("203", []segment{seg})
	fault := v.Choose("fault", 3)
	switch fault {
	case 1:
		x := v.Str("byte", 1, " -~")
		v.Assume(x != "N")
		doc = strings.Replace(doc, "SECURITY=\"N", "SECURITY=\""+x, 1)
	case 2:
		doc = strings.Replace(doc, "<LANGUAGE>", "<LANGUAGE>"+v.Str("language", 1, "a-z"), 1)
	}
	b := newBody(doc)
	b.chunk = []int{0, 1, 7}[v.Choose("pieces", 3)]
	n := serve(reply(200, b, int64(len(doc))))
	anyReply(n, doc)
	resp, err := c.Request(&r)
	v.Assert(len(n.requests)+len(n.conns) == 1, "the client sends not exactly one request")
	if fault > 0 {
		v.Reach("failed")
		v.Assert(err != nil && resp == nil, "a bad response is no error")
		return
	}
	v.Reach("parsed")
	if err != nil {
		v.Assert(false, "a good response is an error: "+err.Error())
	}
	holdsSets(resp, []segment{seg})
	want, err := r.Marshal()
	v.Assert(err == nil, "the request cannot be written")
	if len(n.requests) == 1 {
		posted(n.requests[0], r.URL, want.String(), "")
	} else {
		v.Assert(strings.HasSuffix(n.conns[0].out.String(), "\r\n\r\n"+want.String()), "the request has other content")
	}
}

// cookieHeader makes cookies of one to three characters each.
func someCookies() (headers []string, want []string) {
	for i, k := 0, v.Choose("cookies", 3); i < k; i++ {
		c := v.Str("name", 1+v.Choose("name length", 2), "a-zA-Z0-9") + "=" + v.Str("value", v.Choose("value length", 3), "a-zA-Z0-9")
		want = append(want, c)
		headers = append(headers, "Set-Cookie", c+[]string{"", "; Path=/; HttpOnly", "; Secure; SameSite=None"}[v.Choose("attributes", 3)])
	}
	return
}

// The first answer with status 200, 0 to 2 cookies with symbolic names and
// values, and any length from 0 to 3; the second with any status, in any way
// to send; symbolic user agent; a request of any kind.
func C26_retry() {
	headers, cookies := someCookies()
	l := v.Range("length", 0, 3)
	b1, b2 := newBody("abc"), newBody("hello")
	st := v.Range("status", 100, 599)
	n := serve(reply(200, b1, int64(l), append(headers, "X-Y", "z")...), reply(st, b2, int64(v.Range("second length", 0, 5)), "X-Y", "z", "Set-Cookie", "more=x"),
		reply(200, newBody("third"), 5))
	ua := v.Str("agent", v.Choose("agent length", 2), "a-z")
	c := ofxgo.NewVanguardClient(&ofxgo.BasicClient{UserAgent: ua, NoIndent: v.Choose("indent", 2) == 1})
	r, _ := plainRequest("102")
	name := requestNames[(len(cookies)+l%2)%6]
	put(&r, name, minimal(name))
	r.URL = "https://a.b/c"
	raw, err := c.RequestNoParse(&r)
	want, e := r.Marshal()
	v.Assert(e == nil, "the request cannot be written")
	for _, s := range n.requests {
		posted(s, r.URL, want.String(), ua)
	}
	if len(n.requests) > 0 {
		v.Assert(len(n.requests[0].cookies) == 0, "the first request has cookies")
	}
	if l > 0 || len(cookies) == 0 {
		v.Reach("once")
		v.Assert(len(n.requests) == 1, "the request is repeated though its answer has content or no cookies")
		v.Assert(err == nil && raw != nil, "a good answer is an error")
		same(raw, b1, "abc")
		return
	}
	v.Assert(len(n.requests) == 2, "the request is not sent exactly twice")
	var got []string
	for _, k := range n.requests[1].cookies {
		got = append(got, k.Name+"="+k.Value)
	}
	v.Assert(strings.Join(got, ";") == strings.Join(cookies, ";"), "the second request has other cookies: "+strings.Join(got, ";"))
	v.Assert(b1.closed > 0, "the first answer stays open")
	if st != 200 {
		v.Reach("failed")
		v.Assert(err != nil, "a failing second answer is no error")
		return
	}
	v.Reach("twice")
	v.Assert(err == nil && raw != nil, "a good second answer is an error")
	same(raw, b2, "hello")
}

// Answers of which the first has content and any status, or the first or second
// fails on the way; a request is never sent a third time.
func C26_failures() {
	b1 := newBody("abc")
	fault := v.Choose("fault", 3)
	st := v.Range("status", 100, 599)
	l := int64(v.Range("length", 1, 1000))
	answers := []func(*network, *http.Request) (*http.Response, error){broken, broken}
	if fault == 1 {
		answers[0] = reply(200, newBody(""), 0, "Set-Cookie", "a=b")
	} else if fault == 2 {
		answers[0] = reply(st, b1, l, "Set-Cookie", "a=b", "X-Y", "z")
	}
	n := serve(answers...)
	c := ofxgo.NewVanguardClient(&ofxgo.BasicClient{})
	raw, resp, err := send(c, 1+v.Choose("way", 2), "https://a.b/c")
	switch fault {
	case 0:
		v.Assert(len(n.requests) == 1 && err != nil && raw == nil && resp == nil, "a failing transport is no error, or repeated")
	case 1:
		v.Assert(len(n.requests) == 2 && err != nil && raw == nil && resp == nil, "a failing second attempt is no error, or repeated")
	case 2:
		v.Assert(len(n.requests) == 1, "a request whose answer has content is repeated")
		if st != 200 {
			v.Assert(err != nil, "an answer of another status than 200 is no error")
		} else if raw != nil {
			same(raw, b1, "abc")
		}
	}
	v.Reach("done")
}

// The first answer redirects to another host or path, with or without a cookie
// of its own, and what answers there is empty and sets a cookie: the request is
// sent again to its own URL, and left as it was.
func C26_redirected() {
	first := []string{"", "a=b"}[v.Choose("cookie", 2)]
	to := []string{"https://a.b/d", "https://c.d/c", "/e"}[v.Choose("to", 3)]
	h := []string{"Location", to}
	if first != "" {
		h = append(h, "Set-Cookie", first)
	}
	val := v.Str("value", 2, "a-z")
	b := newBody("hello")
	n := serve(reply(307+v.Choose("permanent", 2), newBody(""), 0, h...), reply(200, newBody(""), 0, "Set-Cookie", "x="+val), reply(200, b, 5, "X-Y", "z"), reply(200, newBody("more"), 4))
	c := ofxgo.NewVanguardClient(&ofxgo.BasicClient{})
	r, _ := plainRequest("103")
	r.URL = "https://a.b/c"
	raw, err := c.RequestNoParse(&r)
	v.Assert(r.URL == "https://a.b/c", "the request has another URL afterwards")
	v.Assert(len(n.requests) == 3, "the request is not sent exactly twice")
	v.Assert(err == nil && raw != nil, "a good second answer is an error")
	s := n.requests[2]
	want, _ := r.Marshal()
	posted(s, r.URL, want.String(), "")
	got := ""
	for _, k := range s.cookies {
		got += k.Name + "=" + k.Value + ";"
	}
	v.Assert(got == "x="+val+";", "the second request has other cookies: "+got)
	same(raw, b, "hello")
	v.Reach("twice")
}

// Raw requests of the Vanguard client: one request whatever the answer.
func C26_raw() {
	text := content("content")
	st, l := v.Range("status", 100, 599), v.Range("length", 0, 3)
	b := newBody("abc")
	n := serve(reply(st, b, int64(l), "Set-Cookie", "a=b", "X-Y", "z"))
	ua := v.Str("agent", v.Choose("agent length", 2), "a-z")
	c := ofxgo.NewVanguardClient(&ofxgo.BasicClient{UserAgent: ua})
	raw, err := c.RawRequest("https://a.b/c", given(text))
	v.Assert(len(n.requests) == 1, "the client sends not exactly one request")
	posted(n.requests[0], "https://a.b/c", text, ua)
	if st == 200 {
		v.Reach("ok")
		v.Assert(err == nil && raw != nil, "a response of status 200 is an error")
		same(raw, b, "abc")
		return
	}
	v.Assert(err != nil, "a response of another status than 200 is no error")
}

// discoverURL makes a URL: host of 1 to 3 characters, port or not, path and
// query of symbolic characters or none, and says what the request must name.
func discoverURL() (u, host, addr, uri string) {
	host = v.Str("host", 1+2*v.Choose("host length", 2), "a-zA-Z0-9") + ".com"
	u = "https://"
	if v.Choose("user", 2) == 1 {
		u += "me@"
	}
	u += host
	addr = host + ":443"
	if k := v.Choose("port", 4); k > 0 {
		p := v.Str("port", k, "1-9")
		addr = host + ":" + p
		u += ":" + p
	}
	uri = "/"
	if v.Choose("path", 2) == 1 {
		uri = "/" + v.Str("path", 1+v.Choose("path length", 2), "a-zA-Z0-9/._~-") + []string{"", "%20x", "/", "%2Fx"}[v.Choose("path end", 4)]
		u += uri
	}
	if q := v.Choose("query", 3); q > 0 {
		s := "?" + v.Str("query", q-1, "a-zA-Z0-9=&+._") + "a"
		uri += s
		u += s
	}
	return
}

// Any content, any URL as above.
func C27_request() {
	u, host, addr, uri := discoverURL()
	v.Assume(host[0] != '/')
	text := content("content")
	n := serve()
	n.accept = func(c *conn) error {
		c.in = strings.NewReader("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi")
		return nil
	}
	c := ofxgo.NewDiscoverCardClient(&ofxgo.BasicClient{UserAgent: "none"})
	raw, err := c.RawRequest(u, given(text))
	if err != nil {
		v.Assert(false, "the request fails: "+err.Error())
	}
	v.Assert(len(n.requests) == 0 && len(n.conns) == 1, "the client makes not exactly one connection")
	k := n.conns[0]
	v.Assert(!k.plain && k.network == "tcp", "the client makes another kind of connection")
	v.Assert(k.addr == addr, "the client connects to "+k.addr)
	framed(k.out.String(), host, uri, text)
	got, err := io.ReadAll(raw.Body)
	v.Assert(err == nil && string(got) == "hi", "the response has other content")
	v.Reach("sent")
}

// Addresses: names, IPv4 and IPv6 addresses, one with a zone, each with one
// arbitrary letter or digit; no port, an empty one, or one of up to five digits.
func C27_address() {
	x := v.Str("x", 1, "0-9a-f")
	host := []string{x + ".2.3.4", "[::" + x + "]", "[" + x + "::2:3]", "[fe80::" + x + "%25eth" + x + "]", "a-b." + x + "x", x, "x" + x + "."}[v.Choose("host", 7)]
	u := "https://" + host
	addr := strings.Replace(host, "%25", "%", 1) + ":443"
	if l := v.Choose("port", 7); l == 6 {
		u += ":"
	} else if l > 0 {
		p := v.Str("digits", l, "0-9")
		u += ":" + p
		addr = addr[:len(addr)-3] + p
	}
	u += []string{"", "/", "/q:1", "?a:2"}[v.Choose("end", 4)]
	n := serve()
	n.accept = func(c *conn) error {
		c.in = strings.NewReader("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi")
		return nil
	}
	_, err := ofxgo.NewDiscoverCardClient(&ofxgo.BasicClient{}).RawRequest(u, strings.NewReader("x"))
	if err != nil {
		v.Assert(false, "the request fails: "+err.Error())
	}
	v.Assert(len(n.requests) == 0 && len(n.conns) == 1, "the client makes not exactly one connection")
	v.Assert(n.conns[0].addr == addr, "the client connects to "+n.conns[0].addr)
}

func framed(out, host, uri, text string) {
	want := "POST " + uri + " HTTP/1.1\r\nContent-Type: application/x-ofx\r\nHost: " + host + "\r\nContent-Length: " + itoa(len(text)) + "\r\nConnection: Keep-Alive\r\n\r\n"
	v.Assert(len(out) == len(want)+len(text), "the request has another length")
	v.Assert(out[:len(want)] == want, "the request has other headers")
	v.Assert(out[len(want):] == text, "the request has other content")
}

// Any three-digit status, content of a response of 0 to 3 arbitrary bytes with
// its length, in pieces, or until the end; parsed or not.
func C27_response() {
	d := v.Str("status", 3, "0-9")
	v.Assume(d[0] != '0')
	answer := v.Str("answer", v.Choose("answer length", 4), "")
	text := "HTTP/1.1 " + d + " Some Thing\r\nX-Y: z\r\n"
	switch v.Choose("framing", 3) {
	case 0:
		text += "Content-Length: " + itoa(len(answer)) + "\r\n\r\n" + answer
	case 1:
		text += "Transfer-Encoding: chunked\r\n\r\n"
		if len(answer) > 0 {
			text += itoa(len(answer)) + "\r\n" + answer + "\r\n"
		}
		text += "0\r\n\r\n"
	case 2:
		text += "Connection: close\r\n\r\n" + answer
	}
	size := []int{0, 1, 5}[v.Choose("pieces", 3)]
	n := serve()
	n.accept = func(c *conn) error {
		c.in = &pieces{s: text, size: size, err: io.EOF}
		return nil
	}
	c := ofxgo.NewDiscoverCardClient(&ofxgo.BasicClient{})
	raw, _, err := send(c, v.Choose("way", 2), "https://a.b")
	if d != "200" {
		v.Reach("status")
		v.Assert(err != nil && raw == nil, "a response of another status than 200 is no error")
		return
	}
	v.Reach("ok")
	if err != nil {
		v.Assert(false, "a response of status 200 is an error: "+err.Error())
	}
	v.Assert(raw.StatusCode == 200 && raw.Header.Get("X-Y") == "z", "the response has other headers")
	got, e := io.ReadAll(raw.Body)
	v.Assert(e == nil && string(got) == answer, "the response has other content")
}

// Failures: of the connection, of the first or second write, of the content's
// reader, of the response cut at any place, and of its content; and a response
// with any one byte arbitrary.
func C27_failure() {
	n := serve()
	fault := v.Choose("fault", 6)
	text := "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc"
	at := 0
	if fault == 4 || fault == 5 {
		at = v.Choose("at", len(text))
	}
	n.accept = func(c *conn) error {
		switch fault {
		case 0:
			return anyFault()
		case 1, 2:
			c.wfail = fault
		case 4:
			c.in = &pieces{s: text[:at], err: endOr(v.Choose("error", 2))}
			return nil
		case 5:
			text = text[:at] + v.Str("byte", 1, "") + text[at+1:]
		}
		c.in = strings.NewReader(text)
		return nil
	}
	c := ofxgo.NewDiscoverCardClient(&ofxgo.BasicClient{})
	var rd io.Reader = strings.NewReader("ab")
	if fault == 3 {
		rd = &pieces{s: "ab", err: anyFault()}
	}
	raw, err := c.RawRequest("https://a.b", rd)
	v.Assert((raw == nil) == (err != nil), "neither a response nor an error is returned, or both")
	switch {
	case fault == 2 && n.conns[0].nwrites < 2:
		// all was written at once
		v.Assert(err == nil, "a good request is an error")
	case fault < 4:
		v.Reach("failed")
		v.Assert(err != nil, "a failing request is no error")
	case err == nil:
		v.Assert(at >= 36 || fault == 5, "a response without its headers is no error")
		_, e := io.ReadAll(raw.Body)
		if fault == 4 {
			v.Reach("short")
			v.Assert(e != nil, "a response cut short is no error")
		}
	}
}

// Settings of all versions and none and unknown ones, for a request which had
// another (older or newer) version before, identifier and version of
// the application of up to 5 and 4 characters or none, every option; each
// client; a message of each kind or none. The request written must hold the
// settings and everything else as given.
func C28_settings() {
	bc := &ofxgo.BasicClient{NoIndent: true}
	k := v.Choose("version", len(versionText)+3)
	ver := "203"
	if k < len(versionText) {
		ver = versionText[k]
		bc.SpecVersion, _ = ofxgo.NewOfxVersion(ver)
	} else if k > len(versionText) {
		bc.SpecVersion = as(bc.SpecVersion, uint([]int{12, 77}[k-len(versionText)-1]))
	}
	id, av := "OFXGO", "0001"
	if l := v.Choose("id", 3); l > 0 {
		id = v.Str("id", []int{1, 5}[l-1], "a-zA-Z0-9")
		bc.AppID = id
	}
	if l := v.Choose("appver", 3); l > 0 {
		av = v.Str("appver", []int{1, 4}[l-1], "a-zA-Z0-9")
		bc.AppVer = av
	}
	kind := v.Choose("client", clientKinds)
	c := clientOf(kind, bc)
	n := serve(reply(200, newBody("x"), 1))
	anyReply(n, "x")
	r, sn := plainRequest([]string{"220", "102"}[k%2])
	r.URL = "https://a.b/"
	var msgs []message
	if m := v.Choose("message", 7); m < 6 {
		name := requestNames[m]
		x := responseKinds[name]
		x.kids = minimal(name)
		msgs = append(msgs, x)
		put(&r, name, x.kids)
	}
	t0 := time.Now()
	raw, err := c.RequestNoParse(&r)
	t1 := time.Now()
	if err != nil {
		v.Assert(false, "the request fails: "+err.Error())
	}
	raw.Body.Close()
	doc := ""
	if kind == 4 {
		doc = n.conns[0].out.String()
		doc = doc[strings.Index(doc, "\r\n\r\n")+4:]
	} else {
		doc = n.requests[0].body
	}
	head, got := items(doc)
	v.Assert(trimBlank(head) == trimBlank(header(ver)), "the request has another version")
	v.Assert(!r.Signon.DtClient.Before(t0) && !r.Signon.DtClient.After(t1), "the request's time is not the current one")
	for _, x := range sn {
		switch x.f.name {
		case "DtClient":
			x.leaf.text = r.Signon.DtClient.String()
		case "AppID":
			x.leaf.text = id
		case "AppVer":
			x.leaf.text = av
		}
	}
	sameItems(got, wanted(sn, msgs))
	vs, _ := ofxgo.NewOfxVersion(ver)
	v.Assert(r.Version == vs && string(r.Signon.AppID) == id && string(r.Signon.AppVer) == av, "the request's fields differ from what is sent")
	v.Assert(c.OfxVersion() == vs && string(c.ID()) == id && string(c.Version()) == av, "the client's settings differ from what is sent")
	v.Reach("sent")
}

// The formatting options: with each client, two versions and a message, lines
// end as the options say.
func C28_format() {
	bc := &ofxgo.BasicClient{NoIndent: v.Bool("noindent"), CarriageReturn: v.Bool("returns")}
	k := v.Choose("version", len(versionText))
	bc.SpecVersion, _ = ofxgo.NewOfxVersion(versionText[k])
	kind := v.Choose("client", clientKinds)
	c := clientOf(kind, bc)
	n := serve(reply(200, newBody("x"), 1))
	anyReply(n, "x")
	r, _ := plainRequest("203")
	put(&r, "AcctInfoRequest", minimal("AcctInfoRequest"))
	r.URL = "https://a.b/"
	_, err := c.RequestNoParse(&r)
	v.Assert(err == nil, "the request fails")
	doc := ""
	if kind == 4 {
		doc = n.conns[0].out.String()
		doc = doc[strings.Index(doc, "\r\n\r\n")+4:]
	} else {
		doc = n.requests[0].body
	}
	lf, crlf := strings.Count(doc, "\n"), strings.Count(doc, "\r\n")
	if bc.CarriageReturn {
		v.Assert(lf == crlf && lf > 0, "a line break is not CR LF")
	} else {
		v.Assert(lf > 0 && crlf == 0 && !strings.Contains(doc, "\r"), "a line break is not LF")
	}
	body := doc[strings.Index(doc, "<OFX>"):]
	v.Assert(strings.Contains(body, "\n") == !bc.NoIndent, "the indentation is not as set")
	v.Reach("sent")
}

var specialURLs = []string{"https://ofx.discovercard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet"}

// The URLs of the institutions with special clients, with one byte replaced by
// an arbitrary other one, up to two bytes before or after, or as they are; any
// eight bytes.
func C28_client() {
	bc := &ofxgo.BasicClient{AppID: "x", SpecVersion: ofxgo.OfxVersion103}
	k := v.Choose("institution", 3)
	u := ""
	want := -1
	if k == 2 {
		u = v.Str("url", 8, "")
	} else {
		u = specialURLs[k]
		switch v.Choose("change", 4) {
		case 0:
			want = k
		case 1:
			s := v.Str("after", 1+v.Choose("length", 2), "")
			u += s
			if s[0] == '/' && s[len(s)-1] == '/' {
				want = k
			}
		case 2:
			// one after the beginning, which may be blank or a slash
			s := v.Str("before", 1, "")
			v.Assume(s != "/")
			u = s + u
		case 3:
			i := v.Choose("at", len(u))
			x := v.Str("byte", 1, "")
			v.Assume(x[0] != u[i])
			v.Assume(x[0] != '/' && x[0]|0x20 != u[i]|0x20)
			u = u[:i] + x + u[i+1:]
		}
	}
	c := ofxgo.GetClient(u, bc)
	got := -1
	var in *ofxgo.BasicClient
	switch c := c.(type) {
	case *ofxgo.DiscoverCardClient:
		got, in = 0, c.BasicClient
	case *ofxgo.VanguardClient:
		got, in = 1, c.BasicClient
	case *ofxgo.BasicClient:
		in = c
	}
	v.Assert(got == want, "the URL "+u+" has another kind of client")
	v.Assert(in == bc, "the client has other settings")
	v.Assert(c.OfxVersion() == bc.SpecVersion && c.ID() == "x" && c.Version() == "0001" && c.IndentRequests() && !c.CarriageReturnNewLines(), "the client has other settings")
	v.Reach("client")
}

// settled checks that everything is closed unless handed over, and again after
// what was handed over is closed.
func settled(n *network, raw *http.Response, resp *ofxgo.Response, err error) {
	open := 0
	for _, b := range n.bodies {
		if b.closed == 0 {
			open++
		}
	}
	conns := 0
	for _, c := range n.conns {
		if c.closed == 0 {
			conns++
		}
	}
	if raw == nil {
		v.Reach("released")
		v.Assert(open == 0, "a response stays open")
		v.Assert(conns == 0, "a connection stays open")
		return
	}
	v.Reach("handed over")
	if err == nil {
		v.Assert(open+conns == 1, "not exactly the response handed over is open")
		if len(n.bodies) > 0 {
			v.Assert(n.bodies[len(n.bodies)-1].closed == 0, "the response handed over is closed")
		}
	}
	raw.Body.Close()
	for _, b := range n.bodies {
		v.Assert(b.closed > 0, "a response stays open after the caller closed its own")
	}
	for _, c := range n.conns {
		v.Assert(c.closed > 0, "a connection stays open after the caller closed the response")
	}
}

// answerOf makes an answer: of any status with content that is a document,
// invalid, no document, or fails; a redirect; or a failure.
func answerOf(label string, headers ...string) func(*network, *http.Request) (*http.Response, error) {
	b := newBody("")
	l := int64(v.Range(label+" length", -1, 1))
	switch v.Choose(label, 8) {
	case 0:
		return broken
	case 1:
		return reply(v.Range(label+" status", 100, 599), newBody("x"), l, headers...)
	case 2:
		b = newBody(goodDoc())
	case 3:
		b = newBody(strings.Replace(goodDoc(), "<LANGUAGE>", "<LANGUAGE>X", 1))
	case 4:
		b = newBody("OFXHEADER")
	case 5:
		b = newBody(goodDoc()[:100+v.Choose("cut", 4)*40])
		b.fail = true
	case 6:
		// also nothing
	case 7:
		loc := []string{"https://c.d/", "http://c.d/", ":"}[v.Choose("location", 3)]
		return reply([]int{302, 307}[v.Choose("redirect", 2)], newBody("moved"), l, append(headers, "Location", loc)...)
	}
	return reply(200, b, l, headers...)
}

// Two answers of eight kinds each, the first setting a cookie or not; each
// client but Discover's, each way to send.
func C30_answers() {
	var headers []string
	if v.Choose("cookie", 2) == 1 {
		headers = []string{"Set-Cookie", "a=b"}
	}
	n := serve(answerOf("first", headers...), answerOf("second"))
	raw, resp, err := send(clientOf(v.Choose("client", 4), &ofxgo.BasicClient{}), v.Choose("way", 3), "https://a.b/c")
	settled(n, raw, resp, err)
}

// Three requests to one host by the same client, each client but Discover's, each
// way to send, the responses read or not, and closed: at most one pool of
// connections which may stay open is left.
func C30_pools() {
	c := clientOf(v.Choose("client", 4), &ofxgo.BasicClient{})
	way := v.Choose("way", 3)
	l := int64(v.Range("length", -1, 1))
	one := func() func(*network, *http.Request) (*http.Response, error) {
		return reply([]int{200, 404}[v.Choose("status", 2)], newBody(goodDoc()), l, "Set-Cookie", "a=b")
	}
	n := serve(one(), one(), one(), one(), one(), one())
	for i := 0; i < 3; i++ {
		raw, _, _ := send(c, way, "https://a.b/c")
		if raw != nil {
			if i > 0 {
				io.Copy(io.Discard, raw.Body)
			}
			raw.Body.Close()
		}
	}
	v.Assert(len(n.pools) <= 1, "each request leaves another pool of connections open")
	v.Reach("sent")
}

// The Discover client with failing connections, writes and responses of any
// status and seven kinds, in pieces or not; each way to send.
func C30_connection() {
	n := serve()
	kind := v.Choose("answer", 8)
	doc := goodDoc()
	text := "HTTP/1.1 200 OK\r\nContent-Length: " + itoa(len(doc)) + "\r\n\r\n" + doc
	n.accept = func(c *conn) error {
		switch kind {
		case 0:
			return anyFault()
		case 1, 2:
			c.wfail = kind
		case 3:
			text = "HTTP/1.1 " + v.Str("status", 3, "0-9") + " OK\r\n\r\nx"
		case 4:
			text = text[:len(text)-1]
		case 5:
			text = text[:v.Choose("cut", 40)]
		case 6:
			text = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nOFXzzz"
		}
		c.in = &pieces{s: text, size: 30 * v.Choose("pieces", 2), err: endOr(v.Choose("end", 2))}
		return nil
	}
	raw, resp, err := send(clientOf(4, &ofxgo.BasicClient{}), v.Choose("way", 3), "https://a.b/c")
	settled(n, raw, resp, err)
}

// Requests that cannot be written, or have an impossible URL: nothing is sent
// and nothing stays open.
func C30_refused() {
	n := serve(reply(200, newBody(goodDoc()), -1))
	anyReply(n, goodDoc())
	c := clientOf(v.Choose("client", clientKinds), &ofxgo.BasicClient{})
	r, _ := plainRequest("203")
	r.URL = "https://a.b/c"
	if v.Choose("fault", 2) == 0 {
		r.Signon.UserID = ""
	} else {
		r.URL = "https://a.b" + v.Str("byte", 1, "\x00- %:") + "\x7f"
	}
	var raw *http.Response
	var resp *ofxgo.Response
	var err error
	if v.Choose("way", 2) == 0 {
		raw, err = c.RequestNoParse(&r)
	} else {
		resp, err = c.Request(&r)
	}
	v.Assert(err != nil && raw == nil && resp == nil, "a request that cannot be sent is no error")
	v.Assert(!n.any(), "a request that cannot be sent is sent")
	settled(n, raw, resp, err)
}

// bulk makes long content: 5000, 70000 or 200000 bytes, the first, the last
// and one in the middle arbitrary.
func bulk(label string) string {
	n := []int{625, 8750, 25000}[v.Choose(label+" length", 3)]
	return v.Str(label, 1, "") + strings.Repeat("01234\r\n<", n/2) + v.Str(label, 1, "") + strings.Repeat("5678\x00\xff> ", n/2) + v.Str(label, 1, "")
}

// Requests and responses of 5000, 70000 or 200000 bytes, any the first, the
// last and one in the middle, at once or in pieces; each client but Discover's.
func C25_large() {
	text, answer := "x", "y"
	if v.Choose("request", 2) == 1 {
		text = bulk("content")
	} else {
		answer = bulk("answer")
	}
	b := newBody(answer)
	size := []int{0, 4096, 1000}[v.Choose("pieces", 3)]
	b.chunk = size
	n := serve(reply(200, b, []int64{int64(len(answer)), -1}[v.Choose("framing", 2)], "X-Y", "z"))
	c := clientOf(v.Choose("client", 4), &ofxgo.BasicClient{})
	raw, err := c.RawRequest("https://a.b/", &pieces{s: text, size: size, err: io.EOF})
	v.Assert(len(n.requests) == 1 && len(n.conns) == 0, "the client sends not exactly one request")
	posted(n.requests[0], "https://a.b/", text, "")
	v.Assert(err == nil && raw != nil, "a response of status 200 is an error")
	same(raw, b, answer)
	v.Reach("ok")
}

// Requests and responses of 5000, 70000 or 200000 bytes, any the first, the
// last and one in the middle, at once or in pieces.
func C27_large() {
	text, answer := "x", "y"
	if v.Choose("request", 2) == 1 {
		text = bulk("content")
	} else {
		answer = bulk("answer")
	}
	head := "HTTP/1.1 200 OK\r\nX-Y: z\r\n"
	if v.Choose("framing", 2) == 1 {
		head += "Content-Length: " + itoa(len(answer)) + "\r\n\r\n"
	} else {
		head += "Connection: close\r\n\r\n"
	}
	size := []int{0, 4096, 1000}[v.Choose("pieces", 3)]
	n := serve()
	n.accept = func(c *conn) error {
		c.in = &pieces{s: head + answer, size: size, err: io.EOF}
		return nil
	}
	raw, err := ofxgo.NewDiscoverCardClient(&ofxgo.BasicClient{}).RawRequest("https://a.b/c", &pieces{s: text, size: size, err: io.EOF})
	if err != nil {
		v.Assert(false, "the request fails: "+err.Error())
	}
	framed(n.conns[0].out.String(), "a.b", "/c", text)
	got, err := io.ReadAll(raw.Body)
	v.Assert(err == nil && string(got) == answer, "the response has other content")
	v.Reach("ok")
}
