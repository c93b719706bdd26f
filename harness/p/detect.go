package p

import (
	"io"
	"net/http"
	"strings"
	"time"

	"verif/harness/v"
)

// attempt is one combination of settings.
type attempt struct {
	app, ver, version string
	noindent          bool
}

// attempts lists the combinations in the order they are tried.
func attempts() (out []attempt) {
	apps := []struct{ app, vers string }{
		{"OFXGO", "0001"},
		{"QWIN", "2600 2500 2400 2300 2200 2100 2000 1900 1800 1700 1600 1500 1400"},
		{"QMOFX", "1700 1600 1500 1400"},
		{"QB", "1800 1700 1600 1500"},
		{"Money", "1600 1500 1400 1200 1100"},
	}
	for _, a := range apps {
		for _, ver := range strings.Split(a.vers, " ") {
			for _, version := range strings.Split("203 103 200 201 202 210 211 102 151 160 220", " ") {
				out = append(out, attempt{a.app, ver, version, false}, attempt{a.app, ver, version, true})
			}
		}
	}
	return
}

// detection runs the detection against a server which answers request number
// win (counting from 0; two for each combination), or none if negative, and all
// others in one of several wrong ways. Requests from on up are looked at.
func detection(url string, win, from, wrong int, more ...option) {
	all := attempts()
	set := map[string]string{}
	for _, o := range more {
		set[o.name] = o.value
	}
	wait := 500 * time.Millisecond
	if x, ok := set["delay"]; ok {
		ms := 0
		for i := 0; i < len(x); i++ {
			ms = ms*10 + int(x[i]) - '0'
		}
		wait = time.Duration(ms) * time.Millisecond
	}
	w := &writer{}
	good := w.document("203", signonNodes(), []message{shortMessage("ProfileResponse", false)})
	if win >= 0 {
		// an answer of another kind can be read just as well
		switch (win + wrong) % 4 {
		case 1:
			// with nothing but the signon
			w := &writer{}
			good = w.document("102", signonNodes(), nil)
		case 2:
			good = strings.Replace(good, "<CODE>0<", "<CODE>15500<", 1)
			good = strings.Replace(good, "<SEVERITY>INFO<", "<SEVERITY>ERROR<", 1)
		case 3:
			w := &writer{}
			good = w.document("160", signonNodes(), []message{shortMessage("AcctInfoResponse", false)})
		}
	}
	sleeps := 0
	v.OnSleep = func(d time.Duration) {
		sleeps++
		v.Assert(d == wait, "another time than the given one is waited")
	}
	count := 0
	// next looks at a request and says how to answer.
	next := func(doc string) (status int, text string, err error) {
		i := count
		count++
		v.Assert(i/2 < len(all), "more combinations are tried")
		v.Assert(sleeps == i/2, "the waiting times between attempts are not as given")
		if i >= from {
			a := all[i/2]
			m := map[string]string{"appid": a.app, "appver": a.ver, "ofxversion": a.version}
			for _, k := range []string{"username", "password", "org", "fid"} {
				m[k] = set[k]
			}
			if i%2 == 1 {
				m["username"], m["password"] = anonymous, anonymous
			}
			doc = noReturns(doc)
			v.Assert(strings.Contains(doc[strings.Index(doc, "<OFX>"):], "\n") == !a.noindent, "a combination is tried with the wrong indentation")
			head, got := items(unindented(doc))
			h, want := requestOf("download-profile", m)
			v.Assert(trimBlank(head) == trimBlank(unindented(h)), "a combination is tried with another version")
			sameItems(masked(got), want)
		}
		if i == win {
			return 200, good, nil
		}
		switch wrong {
		case 0:
			return 0, "", faults[i%len(faults)]
		case 1:
			return []int{400, 401, 403, 404, 500, 503}[i%6], good, nil
		case 2:
			return 200, "<html>Sorry</html>", nil
		case 3:
			// ends too early
			return 200, good[:len(good)-30], nil
		}
		return []int{400, 500, 200, 200}[i%4], []string{good, "", "no", good[:len(good)-50-i]}[i%4], nil
	}
	answer := func(n *network, r *http.Request) (*http.Response, error) {
		status, text, err := next(n.requests[len(n.requests)-1].body)
		if err != nil {
			return nil, err
		}
		v.Assert(r.URL.String() == url, "the request goes to another URL")
		return reply(status, newBody(text), int64(len(text)))(n, r)
	}
	answers := make([]func(*network, *http.Request) (*http.Response, error), 1200)
	for i := range answers {
		answers[i] = answer
	}
	n := serve(answers...)
	n.accept = func(c *conn) error {
		c.in = &lateAnswer{f: func() io.Reader {
			out := c.out.String()
			status, text, err := next(out[strings.Index(out, "\r\n\r\n")+4:])
			if err != nil {
				return &pieces{err: err}
			}
			return strings.NewReader("HTTP/1.1 " + itoa(status) + " Status\r\nContent-Length: " + itoa(len(text)) + "\r\n\r\n" + text)
		}}
		return nil
	}
	line := []string{"detect-settings", "-url", url}
	for _, o := range more {
		line = append(line, "-"+o.name, o.value)
	}
	code, out := ofx(newDisk(), n, line...)
	if win < 0 {
		v.Assert(count == 2*len(all), "not all combinations are tried")
		v.Assert(code != 0, "success is reported although no combination works")
		v.Assert(!strings.Contains(out, "AppID:"), "a combination is reported although none works")
		v.Reach("none")
		return
	}
	if code != 0 {
		v.Assert(false, "failure is reported although a combination works: "+out)
	}
	v.Assert(count == win+1, "the detection goes on after a success, or stops before")
	a := all[win/2]
	i := strings.Index(out, "found to work:\n")
	v.Assert(i >= 0, "the combination which works is not reported")
	tf := "false"
	if a.noindent {
		tf = "true"
	}
	v.Assert(squeezed(out[i+15:]) == squeezed("AppID: "+a.app+"\nAppVer: "+a.ver+"\nOFX Version: "+a.version+"\nnoindent: "+tf+"\n"), "another combination is reported than the one which works")
	v.Reach("found")
}

// lateAnswer is made when it is first read.
type lateAnswer struct {
	f func() io.Reader
	r io.Reader
}

func (l *lateAnswer) Read(p []byte) (int, error) {
	if l.r == nil {
		l.r = l.f()
	}
	return l.r.Read(p)
}

func detectOptions(symbolic bool) []option {
	if !symbolic {
		return []option{{"username", "me"}, {"password", "pw"}, {"org", "O"}, {"fid", "F"}}
	}
	user := []string{"", "anonymous", anonymous}[v.Choose("user", 3)]
	if user == "" {
		user = v.Str("user", 2, "a-zA-Z0-9.")
	}
	return []option{{"username", user}, {"password", v.Str("password", 2, "a-zA-Z0-9.")}, {"org", v.Str("org", 1, "a-z&")}, {"fid", v.Str("fid", 2, "a-z0-9")}}
}

// Success (with a profile, with other or no messages, or refusing the login) at
// any of the first 4 requests with every kind of client; wrong
// answers of five kinds before; symbolic user name (or anonymous, or the full one), password, organisation and
// waiting time (1 or 4 digits, one of them symbolic, or the default).
func C36_first() {
	url := cliURLs[v.Choose("url", 3)]
	win := v.Range("request", 0, 3)
	opts := detectOptions(true)
	if l := v.Choose("delay", 3); l > 0 {
		opts = append(opts, option{"delay", []string{"", "1"}[l-1] + v.Str("delay", 1, "0-9") + []string{"", "50"}[l-1]})
	}
	detection(url, v.Concrete(int(win)), 0, v.Choose("wrong", 5), opts...)
}

// Success at any of the first 46 requests (the first combinations of the first
// two applications), after wrong answers of five kinds.
func C36_many() {
	detection(cliURLs[0], v.Concrete(int(v.Range("request", 0, 45))), 0, v.Choose("wrong", 5), detectOptions(false)...)
}

// Success at a request around each change of application, at the last two
// requests, or none.
func C36_far() {
	wins := []int{-1, 43, 44, 45, 91, 615, 616, 617, 791, 792, 967, 968, 1186, 1187}
	win := wins[v.Choose("request", len(wins))]
	from := win - 3
	if win < 0 {
		from = 1185
	}
	detection(cliURLs[0], win, from, 0, detectOptions(false)...)
}

// Success at every 13th request; all requests after the one before are looked
// at.
func C36_any_deep() {
	win := v.Choose("request", 91)*13 + 12
	detection(cliURLs[0], win, win-12, 0, detectOptions(false)...)
}
