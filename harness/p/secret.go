package p

import (
	"encoding/base64"
	"io"
	"net/http"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// secretText is a password or user key: fixed letters around any one.
func secretText() string {
	return "Zq7J" + v.Str("secret", 1, "a-z") + "9wK"
}

// tells whether a text holds the secret, plain or in base64.
func tells(text, secret string) bool {
	return strings.Contains(text, secret[:4]) || strings.Contains(text, secret[5:]) || strings.Contains(text, base64.StdEncoding.EncodeToString([]byte(":" + secret[:4]))[1:5])
}

// keptSecret checks that the secret is nowhere but where it belongs.
func keptSecret(n *network, d *disk, secret, text string) {
	v.Assert(!tells(text, secret), "the password or user key is told")
	for _, s := range n.requests {
		v.Assert(!tells(s.url, secret), "the password or user key is part of a URL")
		for k, vals := range s.hdr {
			for _, x := range vals {
				v.Assert(!tells(k+": "+x, secret), "the password or user key is part of a header")
			}
		}
		v.Assert(s.hdr.Get("Authorization") == "", "a request has an authorization of its own")
		if s.body != "" {
			onceIn(s.body, secret)
		}
	}
	for _, c := range n.conns {
		out := c.out.String()
		if i := strings.Index(out, "\r\n\r\n"); i >= 0 {
			v.Assert(!tells(out[:i], secret), "the password or user key is part of a header")
			onceIn(out[i+4:], secret)
		}
	}
	for name, f := range d.files {
		v.Assert(!tells(name, secret), "the password or user key is part of a file's name")
		v.Assert(!tells(string(f.b), secret), "the password or user key is written to a file")
	}
}

func onceIn(doc, secret string) {
	if !strings.Contains(doc, "OFX") {
		return
	}
	for _, k := range []string{"<USERPASS>", "<USERKEY>"} {
		if i := strings.Index(doc, k); i >= 0 {
			i += len(k)
			if strings.HasPrefix(doc[i:], secret) {
				v.Reach("sent")
				v.Assert(!tells(doc[:i], secret) && !tells(doc[i+len(secret):], secret), "the password or user key is twice in a request")
				return
			}
		}
	}
	v.Assert(!tells(doc, secret), "the password or user key is elsewhere in a request")
}

// answers sets up a network which answers in one of nine ways.
func someAnswer(kind int, doc string) *network {
	ok := func(text string, headers ...string) func(*network, *http.Request) (*http.Response, error) {
		return reply(200, newBody(text), int64(len(text)), headers...)
	}
	var n *network
	head := "HTTP/1.1 200 OK\r\n"
	switch kind {
	case 0:
		n = serve(ok(doc))
	case 1:
		n = serve(reply(500, newBody(doc), int64(len(doc))))
		head = "HTTP/1.1 500 Oops\r\n"
	case 2:
		n = serve(broken)
	case 3:
		doc = "<html>"
		n = serve(ok(doc))
	case 4:
		doc = doc[:len(doc)-20]
		n = serve(ok(doc))
	case 5:
		n = serve(reply(307, newBody(""), 0, "Location", "https://c.d/"), ok(doc))
		head = "HTTP/1.1 307 Moved\r\nLocation: https://c.d/\r\n"
	case 6:
		n = serve(reply(308, newBody(""), 0, "Location", "http://c.d/"), ok(doc))
		head = "HTTP/1.1 308 Moved\r\nLocation: http://c.d/\r\n"
	case 7:
		n = serve(ok("", "Set-Cookie", v.Str("cookie", 4, "A-Z")+"=b"), ok(doc))
		doc = ""
	case 8:
		// the signon is refused
		doc = strings.Replace(doc, "<CODE>0<", "<CODE>15500<", 1)
		doc = strings.Replace(doc, "<SEVERITY>INFO<", "<SEVERITY>ERROR<", 1)
		n = serve(ok(doc))
	}
	n.accept = func(k *conn) error {
		if kind == 2 {
			return anyFault()
		}
		k.in = strings.NewReader(head + "Content-Length: " + itoa(len(doc)) + "\r\n\r\n" + doc)
		return nil
	}
	return n
}

// Requests of the three clients, parsed or not, with a password or a user key,
// to good URLs and three bad ones, valid or invalid in six ways (among them a too
// long password or key), answered in nine ways (a cookie has a name of any four
// capitals).
func C42_requests() {
	secret := secretText()
	bc := &ofxgo.BasicClient{UserAgent: "agent"}
	var c ofxgo.Client = bc
	switch v.Choose("client", 3) {
	case 1:
		c = ofxgo.NewVanguardClient(bc)
	case 2:
		c = ofxgo.NewDiscoverCardClient(bc)
	}
	r, _ := plainRequest("203")
	put(&r, "StatementRequest", minimal("StatementRequest"))
	r.URL = "https://a.b/c"
	long := ""
	answer := 0
	switch k := v.Choose("kind", 19); {
	case k < 9:
		answer = k
	case k < 13:
		r.URL = []string{"http://a.b/c", "a.b", "https://a b/", "https://a.b:x/%zz"}[k-9]
	case k == 13:
		long = strings.Repeat("x", 64)
	case k == 14:
		r.Signon.UserID = ""
	case k == 15:
		r.Signon.Language = "ENGL"
	case k == 16:
		r.Bank[0].(*ofxgo.StatementRequest).TrnUID = ""
	case k == 17:
		r.Bank, r.CreditCard = nil, r.Bank
	case k == 18:
		bc.AppID = "toolong"
	}
	both := v.Choose("both", 2) == 1
	if v.Choose("key", 2) == 0 {
		r.Signon.UserPass, r.Signon.UserKey = ofxgo.String(secret+long), ""
		if both {
			r.Signon.UserKey = ofxgo.String(secret)
		}
	} else {
		r.Signon.UserPass, r.Signon.UserKey = "", ofxgo.String(secret+long)
	}
	n := someAnswer(answer, goodDoc())
	d := newDisk()
	v.CaptureAll()
	var err error
	if v.Choose("way", 2) == 0 {
		var raw *http.Response
		raw, err = c.RequestNoParse(&r)
		if raw != nil {
			io.Copy(io.Discard, raw.Body)
			raw.Body.Close()
		}
	} else {
		_, err = c.Request(&r)
	}
	text := v.CaptureEnd()
	if err != nil {
		v.Reach("failed")
		text += err.Error()
	}
	keptSecret(n, d, secret, text)
}

// Every command, the settings detection included, with each kind of client, its
// password given as an option or when asked for, answered in nine ways; or with one
// of nine invalid options, or its file not to be written; neither output nor
// errors nor the file saved tell the password.
func C42_commands() {
	k := v.Choose("command", len(cliCommands)+1)
	cmd := "detect-settings"
	if k < len(cliCommands) {
		cmd = cliCommands[k]
	}
	v.WithStderr = true
	secret := secretText()
	url := cliURLs[v.Choose("url", 3)]
	opts := []option{{"username", "me"}, {"org", "O"}}
	asked := v.Choose("asked", 2) == 1 && k < len(cliCommands)
	if asked {
		v.OnReadPassword = func(fd int) ([]byte, error) { return []byte(secret), nil }
	} else {
		opts = append(opts, option{"password", secret})
	}
	if k < len(cliCommands) {
		opts = append(opts, accountOf(cmd)...)
	}
	d := newDisk()
	answer := 0
	switch x := v.Choose("kind", 19); {
	case x < 9:
		answer = x
	case x == 9:
		url = "http://a.b/c"
	case x == 10:
		url = ""
	case x == 11:
		d.openErr = anyFault()
	default:
		o := []option{{"ofxversion", "999"}, {"accttype", "NONE"}, {"username", ""}, {"clientuid", "x"}, {"nosuch", "x"}, {"dryrun=maybe", "x"}, {"appid", "toolong"}}[x-12]
		opts = append(opts, o)
	}
	n := someAnswer(answer, goodDoc())
	if cmd == "detect-settings" {
		opts = append(opts, option{"delay", "0"})
		if answer > 0 {
			n = detecting(answer)
		}
	}
	_, out := ofx(d, n, args(cmd, append([]option{{"url", url}}, opts...)...)...)
	keptSecret(n, d, secret, out)
	v.Reach("done")
}

// detecting answers the first requests wrongly and then well.
func detecting(kind int) *network {
	var answers []func(*network, *http.Request) (*http.Response, error)
	doc := goodDoc()
	for i := 0; i < 3; i++ {
		switch kind {
		case 1:
			answers = append(answers, reply(500, newBody(doc), int64(len(doc))))
		case 2:
			answers = append(answers, broken)
		default:
			answers = append(answers, reply(200, newBody(doc[:len(doc)-10*kind]), -1))
		}
	}
	answers = append(answers, reply(200, newBody(doc), int64(len(doc))))
	n := serve(answers...)
	count := 0
	n.accept = func(k *conn) error {
		count++
		text := doc
		if count < 4 {
			if kind == 2 {
				return anyFault()
			}
			text = doc[:len(doc)-10*kind]
		}
		k.in = strings.NewReader("HTTP/1.1 200 OK\r\nContent-Length: " + itoa(len(text)) + "\r\n\r\n" + text)
		return nil
	}
	return n
}
