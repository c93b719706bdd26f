package p

import (
	"io"
	"net/http"
	"strings"

	"verif/harness/v"
)

// cliCommands are the commands which send one request, downloads first.
var cliCommands = []string{"download-profile", "download-bank", "download-cc", "download-inv", "get-accounts", "transactions-bank", "transactions-cc", "transactions-inv"}

// option is one option of a command and its value.
type option struct{ name, value string }

func args(cmd string, opts ...option) []string {
	out := []string{cmd}
	for _, o := range opts {
		out = append(out, "-"+o.name, o.value)
	}
	return out
}

// basics are the options with which a command works.
func basics(cmd, url string) []option {
	return append([]option{{"url", url}, {"username", "me"}, {"password", "pw"}, {"org", "O"}, {"fid", "F"}}, accountOf(cmd)...)
}

func accountOf(cmd string) []option {
	switch cmd {
	case "download-bank", "transactions-bank":
		return []option{{"bankid", "12"}, {"acctid", "34"}}
	case "download-cc", "transactions-cc":
		return []option{{"acctid", "34"}}
	case "download-inv", "transactions-inv":
		return []option{{"brokerid", "12"}, {"acctid", "34"}}
	}
	return nil
}

// cliURLs have the standard client, the Vanguard and the Discover one.
var cliURLs = []string{"https://a.b/c", specialURLs[1], specialURLs[0]}

// answering answers a request through any client once with given content.
func answering(text string, size int, err error) *network {
	n := serve(func(n *network, r *http.Request) (*http.Response, error) {
		b := &body{r: &pieces{s: text, size: size, err: err}}
		return reply(200, b, -1)(n, r)
	})
	n.accept = func(c *conn) error {
		c.in = io.MultiReader(strings.NewReader("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n"), &pieces{s: text, size: size, err: err})
		return nil
	}
	return n
}

// sentOnce gives the one request sent.
func sentOnce(n *network) string {
	if len(n.conns) > 0 {
		v.Assert(len(n.conns) == 1 && len(n.requests) == 0, "more than one request is sent")
		out := n.conns[0].out.String()
		return out[strings.Index(out, "\r\n\r\n")+4:]
	}
	v.Assert(len(n.requests) == 1, itoa(len(n.requests))+" requests are sent instead of one")
	return n.requests[0].body
}

// Each download command with each kind of client; a response of up to 3
// arbitrary bytes, alone or after 40000 others, at once or in pieces; to the
// default file, one of any 1 to 3 characters, or one which was there with longer
// content.
func C32_save() {
	cmd := cliCommands[v.Choose("command", 4)]
	url := cliURLs[v.Choose("url", 3)]
	text := ""
	size := []int{0, 1, 700}[v.Choose("pieces", 3)]
	if size != 1 && v.Choose("long", 2) == 1 {
		text = strings.Repeat("0123456789", 4000)
	}
	text += v.Str("content", v.Choose("length", 4), "")
	d := newDisk()
	opts := basics(cmd, url)
	name := "./response.ofx"
	switch k := v.Choose("file", 4); {
	case k == 1:
		name = "/tmp/old"
		d.files[name] = &data{[]byte(strings.Repeat("old", 20000))}
		opts = append(opts, option{"filename", name})
	case k > 1:
		name = v.Str("name", []int{1, 3}[k-2], "a-z0-9. _-")
		opts = append(opts, option{"filename", name})
	}
	n := answering(text, size, io.EOF)
	code, out := ofx(d, n, args(cmd, opts...)...)
	if code != 0 {
		v.Assert(false, cmd+" fails with "+itoa(code)+": "+out)
	}
	sentOnce(n)
	f := d.files[name]
	v.Assert(f != nil, "the file is not written")
	v.Assert(len(d.files) == 1, "another file is written, too")
	v.Assert(len(f.b) == len(text), "the file has another length than the response")
	v.Assert(string(f.b) == text, "the file has other content than the response")
	v.Reach("saved")
}

// Each download command with each kind of client; the file cannot be created,
// takes only 0 to 3 of 4 bytes or the first of two blocks, or fails when closed;
// the response fails on the way after 0 to 4 bytes, has any three-digit status
// but 200, or there is none.
func C32_failure() {
	cmd := cliCommands[v.Choose("command", 4)]
	u := v.Choose("url", 3)
	text := "abcd"
	d := newDisk()
	n := answering(text, 2, io.EOF)
	switch v.Choose("fault", 8) {
	case 7:
		// breaks off within its length
		n = serve(func(n *network, r *http.Request) (*http.Response, error) {
			b := &body{r: &pieces{s: text[:v.Choose("arrives", 4)], err: io.ErrUnexpectedEOF}}
			return reply(200, b, 4)(n, r)
		})
		n.accept = func(c *conn) error {
			c.in = strings.NewReader("HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\n" + text[:v.Choose("arrives", 4)])
			return nil
		}
	case 0:
		d.openErr = anyFault()
	case 1:
		d.room = v.Choose("room", 4)
	case 2:
		n = answering(strings.Repeat("0123456789", 4000), 0, io.EOF)
		d.room = []int{32 << 10, 40000 - 1}[v.Choose("room", 2)]
	case 3:
		d.closeErr = anyFault()
	case 4:
		n = answering(text[:v.Choose("arrives", 5)], 1, anyFault())
	case 5:
		s := v.Str("status", 3, "0-9")
		v.Assume(s[0] != '0' && s[0] != '1' && s != "200" && s[0] != '3')
		code := 0
		for i := 0; i < 3; i++ {
			code = code*10 + int(s[i]) - '0'
		}
		n = serve(func(n *network, r *http.Request) (*http.Response, error) {
			return reply(code, newBody(text), 4)(n, r)
		})
		n.accept = func(c *conn) error {
			c.in = strings.NewReader("HTTP/1.1 " + s + " Status\r\nContent-Length: 4\r\n\r\nabcd")
			return nil
		}
	case 6:
		n = serve(broken)
		n.accept = func(c *conn) error { return anyFault() }
	}
	code, _ := ofx(d, n, args(cmd, basics(cmd, cliURLs[u])...)...)
	v.Assert(code != 0, cmd+" reports success although the response is not saved")
	v.Reach("failed")
}

// masked replaces the values which differ from one request to the next.
func masked(items []string) []string {
	for i := range items {
		if i > 0 && items[i][0] == '=' {
			switch items[i-1] {
			case "<DTCLIENT>", "<TRNUID>", "<DTACCTUP>", "<DTPROFUP>":
				items[i] = "=*"
			}
		}
	}
	return items
}

// Each command with each kind of client, once with the dry-run option and once
// without: the former prints the request the latter sends, and sends and writes
// nothing itself. User name (1 or 3 characters) and organisation (1, with markup) are symbolic.
func C32_dry() {
	k := v.Choose("command", len(cliCommands))
	cmd := cliCommands[k]
	url := cliURLs[v.Choose("url", 3)]
	opts := basics(cmd, url)
	opts[1].value = v.Str("user", 1+2*v.Choose("length", 2), "a-zA-Z0-9.")
	opts[3].value = v.Str("org", 1, "a-z&<.")
	n := answering("x", 0, io.EOF)
	d := newDisk()
	code, out := ofx(d, n, append(args(cmd, opts...), []string{"-dryrun", "--dryrun", "-dryrun=true"}[v.Choose("form", 3)])...)
	v.Assert(code == 0, cmd+" -dryrun fails")
	v.Assert(!n.any(), cmd+" -dryrun sends something")
	v.Assert(len(d.names) == 0, cmd+" -dryrun writes a file")
	v.Assert(strings.HasSuffix(out, "\n"), "the request is not printed on lines of its own")
	n = answering("x", 0, io.EOF)
	d = newDisk()
	ofx(d, n, append(args(cmd, opts...), "-dryrun=false")...)
	h1, i1 := items(unindented(trimBlank(out)))
	h2, i2 := items(unindented(trimBlank(sentOnce(n))))
	v.Assert(h1 == h2, "the request printed has another header")
	sameItems(masked(i1), masked(i2))
	v.Reach("printed")
}

var acctTypes = []string{"CHECKING", "SAVINGS", "MONEYMRKT", "CREDITLINE", "CD"}

// optionsOf lists the options of a command which reach the request.
func optionsOf(cmd string) []string {
	o := []string{"username", "password", "org", "fid", "appid", "appver", "ofxversion", "clientuid"}
	for _, x := range accountOf(cmd) {
		o = append(o, x.name)
	}
	if cmd == "download-bank" || cmd == "transactions-bank" {
		o = append(o, "accttype")
	}
	return o
}

const anonymous = "anonymous00000000000000000000000"

var optionDefaults = map[string]string{"appid": "QWIN", "appver": "2400", "ofxversion": "203", "accttype": "CHECKING"}

// request lists what the request of a command must hold.
func requestOf(cmd string, set map[string]string) (head string, out []string) {
	get := func(name string) string {
		if x, ok := set[name]; ok {
			return x
		}
		return optionDefaults[name]
	}
	user, pass := get("username"), get("password")
	if user == "" && cmd == "download-profile" {
		user, pass = anonymous, anonymous
	}
	w := &itemWriter{}
	value := func(name, text string) {
		w.elem(name)
		if text != "" {
			w.out = append(w.out, "="+text)
		}
	}
	w.elem("OFX")
	w.elem("SIGNONMSGSRQV1")
	w.elem("SONRQ")
	value("DTCLIENT", "*")
	value("USERID", user)
	value("USERPASS", pass)
	value("LANGUAGE", "ENG")
	w.elem("FI")
	value("ORG", get("org"))
	value("FID", get("fid"))
	w.end("FI")
	value("APPID", get("appid"))
	value("APPVER", get("appver"))
	if u := get("clientuid"); u != "" {
		value("CLIENTUID", u)
	}
	w.end("SONRQ")
	w.end("SIGNONMSGSRQV1")
	wrap := func(f func(), names ...string) {
		for i, n := range names {
			w.elem(n)
			if i == 1 {
				value("TRNUID", "*")
			}
		}
		f()
		for i := len(names) - 1; i >= 0; i-- {
			w.end(names[i])
		}
	}
	switch cmd {
	case "download-profile":
		wrap(func() {
			value("CLIENTROUTING", "NONE")
			value("DTPROFUP", "*")
		}, "PROFMSGSRQV1", "PROFTRNRQ", "PROFRQ")
	case "get-accounts":
		wrap(func() { value("DTACCTUP", "*") }, "SIGNUPMSGSRQV1", "ACCTINFOTRNRQ", "ACCTINFORQ")
	case "download-bank", "transactions-bank":
		wrap(func() {
			w.elem("BANKACCTFROM")
			value("BANKID", get("bankid"))
			value("ACCTID", get("acctid"))
			value("ACCTTYPE", get("accttype"))
			w.end("BANKACCTFROM")
			w.elem("INCTRAN")
			value("INCLUDE", "Y")
			w.end("INCTRAN")
		}, "BANKMSGSRQV1", "STMTTRNRQ", "STMTRQ")
	case "download-cc", "transactions-cc":
		wrap(func() {
			w.elem("CCACCTFROM")
			value("ACCTID", get("acctid"))
			w.end("CCACCTFROM")
			w.elem("INCTRAN")
			value("INCLUDE", "Y")
			w.end("INCTRAN")
		}, "CREDITCARDMSGSRQV1", "CCSTMTTRNRQ", "CCSTMTRQ")
	case "download-inv", "transactions-inv":
		wrap(func() {
			w.elem("INVACCTFROM")
			value("BROKERID", get("brokerid"))
			value("ACCTID", get("acctid"))
			w.end("INVACCTFROM")
			w.elem("INCTRAN")
			value("INCLUDE", "Y")
			w.end("INCTRAN")
			value("INCOO", "Y")
			w.elem("INCPOS")
			value("INCLUDE", "Y")
			w.end("INCPOS")
			value("INCBAL", "Y")
			value("INC401K", "Y")
			value("INC401KBAL", "Y")
		}, "INVSTMTMSGSRQV1", "INVSTMTTRNRQ", "INVSTMTRQ")
	}
	w.end("OFX")
	return header(get("ofxversion")), w.out
}

// asks runs a command with options and checks its request.
func asks(cmd, url string, set map[string]string, line []string) {
	n := answering("x", 0, io.EOF)
	_, out := ofx(newDisk(), n, line...)
	if !n.any() {
		v.Assert(false, cmd+" sends nothing: "+out)
	}
	doc := sentOnce(n)
	if len(n.conns) == 1 {
		v.Assert(n.conns[0].addr == "ofx.discovercard.com:443", "the request goes to another place")
	} else {
		v.Assert(n.requests[0].url == url, "the request goes to another URL")
	}
	head, got := items(unindented(noReturns(doc)))
	h, want := requestOf(cmd, set)
	v.Assert(trimBlank(head) == trimBlank(unindented(h)), "the request has another version")
	sameItems(masked(got), want)
	v.Reach("sent")
}

// Each command with each kind of client, with all its options or all but one,
// or only those required; the values of 2 letters or digits each, the version
// and the type of account any there is.
func C33_options() {
	cmd := cliCommands[v.Choose("command", len(cliCommands))]
	url := cliURLs[0]
	all := optionsOf(cmd)
	set := map[string]string{}
	line := []string{cmd, "-url", url}
	omit := v.Choose("omitted", len(all)+2)
	if omit == 0 {
		url = cliURLs[v.Choose("url", 3)]
		line[2] = url
	}
	for i, name := range all {
		if omit == len(all)+1 && !needed(cmd, name) || omit == i+1 {
			continue
		}
		x := ""
		switch name {
		case "ofxversion":
			x = versionText[v.Choose("version", len(versionText))]
		case "accttype":
			x = acctTypes[v.Choose("type", len(acctTypes))]
		default:
			x = v.Str(name, 2, "a-zA-Z0-9")
		}
		set[name] = x
		line = append(line, "-"+name, x)
	}
	if omit > 0 && omit <= len(all) && needed(cmd, all[omit-1]) {
		refuses(cmd, line)
		return
	}
	asks(cmd, url, set, line)
}

// needed tells whether a command cannot do without an option.
func needed(cmd, name string) bool {
	switch name {
	case "url", "password":
		return true
	case "username":
		return cmd != "download-profile"
	case "bankid", "acctid":
		return cmd == "download-bank" || cmd == "transactions-bank"
	}
	return false
}

// refuses runs a command which must fail without sending anything.
func refuses(cmd string, line []string) {
	n := answering("x", 0, io.EOF)
	d := newDisk()
	code, _ := ofx(d, n, line...)
	v.Assert(code != 0, cmd+" reports success without an option it needs, or with an invalid value")
	v.Assert(!n.any(), cmd+" sends a request without an option it needs, or with an invalid value")
	v.Assert(len(d.names) == 0, cmd+" writes a file without an option it needs, or with an invalid value")
	v.Reach("refused")
}

// given gives the options with which a command works, one replaced or added.
func with(cmd, name, value string) (set map[string]string) {
	set = map[string]string{}
	for _, o := range basics(cmd, "") {
		if o.name != "url" {
			set[o.name] = o.value
		}
	}
	if name != "" {
		set[name] = value
	}
	return
}

// line writes options in one of four forms.
func line(cmd, url string, set map[string]string, form int) []string {
	out := []string{cmd, "-url", url}
	for _, name := range append([]string{"noindent", "carriagereturn", "useragent", "filename"}, optionsOf(cmd)...) {
		x, ok := set[name]
		switch {
		case !ok:
		case form == 0:
			out = append(out, "-"+name, x)
		case form == 1:
			out = append(out, "--"+name, x)
		case form == 2:
			out = append(out, "-"+name+"="+x)
		default:
			out = append(out, "--"+name+"="+x)
		}
	}
	return out
}

// Each text option of each command in turn, with a value of one arbitrary
// printable character (or a blank) in front of, between or after others, in four forms.
func C33_values() {
	cmd := cliCommands[v.Choose("command", len(cliCommands))]
	var texts []string
	for _, name := range optionsOf(cmd) {
		if name != "ofxversion" && name != "accttype" {
			texts = append(texts, name)
		}
	}
	name := texts[v.Choose("option", len(texts))]
	x := v.Str("character", 1, " -~")
	val := []string{x + "ab", "a" + x + "b", "ab" + x, x}[v.Choose("place", 4)]
	form := v.Choose("form", 4)
	set := with(cmd, name, val)
	asks(cmd, cliURLs[0], set, line(cmd, cliURLs[0], set, form))
}

// Each text option of each command in turn, with a value as long as it may be
// in a request, or of 16, 22, 33, 36, 60 or 130 characters where it may be of
// any length, the first, second or last of them arbitrary.
func C33_lengths() {
	cmd := cliCommands[v.Choose("command", len(cliCommands))]
	var texts []string
	for _, name := range optionsOf(cmd) {
		if name != "ofxversion" && name != "accttype" {
			texts = append(texts, name)
		}
	}
	name := texts[v.Choose("option", len(texts))]
	l := 0
	switch name {
	case "appid":
		l = 5
	case "appver":
		l = 4
	case "username", "password":
		l = []int{16, 17, 31, 32}[v.Choose("length", 4)]
	case "bankid":
		l = []int{8, 9}[v.Choose("length", 2)]
	case "acctid":
		l = []int{16, 21, 22}[v.Choose("length", 3)]
	default:
		l = []int{16, 22, 33, 36, 60, 130}[v.Choose("length", 6)]
	}
	at := []int{0, 1, l - 1}[v.Choose("place", 3)]
	x := strings.Repeat("a-7", 50)
	val := "x" + x[:l-1]
	val = val[:at] + v.Str("character", 1, "!-~") + val[at+1:]
	set := with(cmd, name, val)
	asks(cmd, cliURLs[0], set, line(cmd, cliURLs[0], set, 0))
}

// The password is asked for when there is none, or an empty one, and only then.
func C33_password() {
	cmd := cliCommands[v.Choose("command", len(cliCommands))]
	set := with(cmd, "", "")
	want := v.Str("password", 1+v.Choose("length", 3), "a-zA-Z0-9")
	asked := 0
	var err error
	v.OnReadPassword = func(fd int) ([]byte, error) {
		asked++
		if err != nil {
			return nil, err
		}
		return []byte(want), nil
	}
	switch v.Choose("given", 4) {
	case 0:
		set["password"] = want
		asks(cmd, cliURLs[0], set, line(cmd, cliURLs[0], set, 0))
		v.Assert(asked == 0, "the password is asked for although it is given")
		return
	case 1:
		set["password"] = ""
	case 2:
		delete(set, "password")
	case 3:
		delete(set, "password")
		err = anyFault()
		refuses(cmd, line(cmd, cliURLs[0], set, 0))
		return
	}
	l := line(cmd, cliURLs[0], set, 2)
	set["password"] = want
	asks(cmd, cliURLs[0], set, l)
	v.Assert(asked == 1, "the password is not asked for once")
}

func upper(s string) string {
	out := []byte(s)
	for i := range out {
		if out[i] >= 'a' && out[i] <= 'z' {
			out[i] -= 32
		}
	}
	return string(out)
}

// Invalid values: any 3 digits or 1 or 2 characters which are no version, any
// account type of up to 3 characters or with one changed, too long values, URLs
// which are not https; options which are none, values of options which take
// none; an empty URL, user name or file name; each of these but an invalid URL also as
// a dry run.
func C33_invalid() {
	k := v.Choose("command", len(cliCommands))
	cmd := cliCommands[k]
	set := with(cmd, "", "")
	url := cliURLs[0]
	var more []string
	switch v.Choose("fault", 9) {
	case 0:
		s := ""
		if l := 1 + v.Choose("length", 3); l < 3 {
			s = v.Str("version", l, "!-~")
		} else {
			s = v.Str("version", 3, "0-9")
		}
		for _, x := range versionText {
			v.Assume(s != x)
		}
		set["ofxversion"] = s
	case 1:
		if cmd != "download-bank" && cmd != "transactions-bank" {
			v.Assume(false)
		}
		s := ""
		if i := v.Choose("similar", 2*len(acctTypes)+2); i < 2 {
			s = v.Str("type", 1+2*i, "!-~")
		} else {
			s = acctTypes[i/2-1]
			j := 1
			if i%2 == 1 {
				j = len(s) - 1
			}
			x := v.Str("letter", 1, "!-~")
			v.Assume(x != s[j:j+1] && x[0] != s[j]+32)
			s = s[:j] + x + s[j+1:]
		}
		v.Assume(upper(s) != "CD")
		set["accttype"] = s
	case 2:
		name := []string{"username", "password", "appid", "appver", "clientuid", "acctid", "bankid"}[v.Choose("long", 4)]
		set[name] = strings.Repeat("x", map[string]int{"username": 33, "password": 33, "appid": 6, "appver": 5}[name])
	case 3:
		url = []string{"http://a.b/", "a.b", "ftp://a.b/", "httpss://a.b", "/a"}[v.Choose("url", 5)]
	case 4:
		more = []string{"-" + v.Str("option", 1, "a-gi-z"), "x"}
	case 5:
		more = []string{[]string{"-noindent", "-carriagereturn", "-dryrun"}[v.Choose("flag", 3)] + "=" + v.Str("flag value", 2, "!-~")}
	case 6:
		url = ""
	case 7:
		if cmd == "download-profile" {
			v.Assume(false)
		}
		set["username"] = ""
	case 8:
		if k > 3 {
			v.Assume(false)
		}
		set["filename"] = ""
	}
	if !(len(url) > 0 && url != cliURLs[0]) && v.Choose("dry run", 2) == 1 {
		more = append(more, "-dryrun")
	}
	refuses(cmd, append(line(cmd, url, set, v.Choose("form", 2)*2), more...))
}

// Commands which are none: any name of up to 4 characters, names one character
// off, and none at all.
func C33_command() {
	var l []string
	if i := v.Choose("name", 4+2*len(cliCommands)); i < 4 {
		l = []string{v.Str("command", i, "!-~")}
		if i == 0 && v.Choose("none", 2) == 1 {
			l = nil
		}
		if i == 2 {
			v.Assume(l[0] != "-h")
		}
	} else {
		s := cliCommands[(i-4)/2]
		if i%2 == 0 {
			s += v.Str("more", 1, "!-~")
		} else {
			x := v.Str("letter", 1, "!-~")
			v.Assume(x != s[len(s)-1:])
			s = s[:len(s)-1] + x
		}
		l = []string{s}
	}
	if len(l) > 0 {
		for _, o := range basics("download-bank", cliURLs[0]) {
			l = append(l, "-"+o.name, o.value)
		}
	}
	refuses("ofx", l)
}

// The formatting options and the user agent, each given or not, with each
// command and each kind of client.
func C33_format() {
	cmd := cliCommands[v.Choose("command", len(cliCommands))]
	u := v.Choose("url", 3)
	set := with(cmd, "ofxversion", versionText[v.Choose("version", 2)*3])
	l := line(cmd, cliURLs[u], set, 0)
	noindent, returns, agent := v.Choose("noindent", 2) == 1, v.Choose("returns", 2) == 1, v.Choose("agent", 2) == 1
	if noindent {
		l = append(l, "-noindent")
	}
	if returns {
		l = append(l, "-carriagereturn=true")
	}
	ua := ""
	if agent {
		ua = v.Str("useragent", 2, "a-zA-Z0-9/.")
		l = append(l, "-useragent", ua)
	}
	n := answering("x", 0, io.EOF)
	ofx(newDisk(), n, l...)
	doc := sentOnce(n)
	lf, crlf := strings.Count(doc, "\n"), strings.Count(doc, "\r\n")
	if returns {
		v.Assert(lf == crlf && lf > 0, "a line break is not CR LF")
	} else {
		v.Assert(lf > 0 && !strings.Contains(doc, "\r"), "a line break is not LF")
	}
	v.Assert(strings.Contains(doc[strings.Index(doc, "<OFX>"):], "\n") == !noindent, "the indentation is not as set")
	if len(n.requests) > 0 && agent {
		v.Assert(len(n.requests[0].hdr["User-Agent"]) == 1 && n.requests[0].hdr["User-Agent"][0] == ua, "the user agent is not as set")
	}
	v.Reach("sent")
}

// Each download command; a response of 1200000 bytes, any last three, whose
// length is told or not.
func C32_large() { large(cliCommands[v.Choose("command", 4)], 100000) }

// A bank download; a response of 11 million bytes, any last three, whose length
// is told or not.
func C32_large_deep() { large("download-bank", 11000000/12) }

func large(cmd string, dozens int) {
	v.Long()
	text := strings.Repeat("0123456789ab", dozens) + v.Str("content", 3, "")
	told := v.Choose("told", 2) == 1
	n := serve(func(n *network, r *http.Request) (*http.Response, error) {
		l := int64(-1)
		if told {
			l = int64(len(text))
		}
		return reply(200, &body{r: &pieces{s: text, err: io.EOF}}, l)(n, r)
	})
	d := newDisk()
	code, out := ofx(d, n, args(cmd, basics(cmd, cliURLs[0])...)...)
	if code != 0 {
		v.Assert(false, cmd+" fails with "+itoa(code)+": "+out)
	}
	f := d.files["./response.ofx"]
	v.Assert(f != nil && len(f.b) == len(text), "the file has another length than the response")
	v.Assert(string(f.b) == text, "the file has other content than the response")
	v.Reach("saved")
}
