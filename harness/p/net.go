package p

import (
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"syscall"
	"time"

	"verif/harness/v"
)

// body is a response body that counts how often it was closed.
type body struct {
	r      io.Reader
	closed int
	fail   bool // fail with a read error at the end
	chunk  int  // most bytes per read (0: no limit)
}

// faults are the kinds of errors reading, writing and connecting may fail with.
var faults = []error{errors.New("injected fault"), io.ErrUnexpectedEOF, context.DeadlineExceeded, net.ErrClosed, syscall.ECONNRESET, os.ErrPermission}

var theFault error

// anyFault gives the error of this run; it is of any kind.
func anyFault() error {
	if theFault == nil {
		theFault = faults[v.Choose("kind of fault", len(faults))]
	}
	return theFault
}

func (b *body) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read on closed body")
	}
	if b.chunk > 0 && len(p) > b.chunk {
		p = p[:b.chunk]
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail {
		err = anyFault()
	}
	return n, err
}

func (b *body) Close() error { b.closed++; return nil }

func newBody(s string) *body { return &body{r: strings.NewReader(s)} }

// conn is an in-memory connection.
type conn struct {
	network, addr string
	plain         bool // not TLS
	out           bytes.Buffer
	in            io.Reader
	closed        int
	wfail         int // fail the n-th write (1-based)
	nwrites       int
}

func (c *conn) Read(p []byte) (int, error) {
	if c.closed > 0 {
		return 0, errors.New("read on closed connection")
	}
	return c.in.Read(p)
}
func (c *conn) Write(p []byte) (int, error) {
	if c.closed > 0 {
		return 0, errors.New("write on closed connection")
	}
	c.nwrites++
	if c.nwrites == c.wfail {
		return 0, anyFault()
	}
	return c.out.Write(p)
}
func (c *conn) Close() error                       { c.closed++; return nil }
func (c *conn) LocalAddr() net.Addr                { return nil }
func (c *conn) RemoteAddr() net.Addr               { return nil }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

// sent is one request seen by the stand-in network.
type sent struct {
	url, scheme, method, body string
	hdr                       http.Header
	cookies                   []*http.Cookie
}

// network is the stand-in for all network access.
type network struct {
	requests []sent
	bodies   []*body
	conns    []*conn
	// accept, if any, prepares each connection made by hand
	accept func(c *conn) error
	frozen bool // nothing counts any more
	// distrust tells what keeps a server's certificate from being verified
	distrust string
	// pools are the transports which may keep connections forever
	pools []*http.Transport
}

// trusts notes settings of TLS under which any server would be believed.
func (n *network) trusts(c *tls.Config, host string) {
	switch {
	case c == nil:
	case c.InsecureSkipVerify:
		n.distrust = "the server's certificate is not verified"
	case c.ServerName != "" && !strings.EqualFold(c.ServerName, host):
		n.distrust = "the server's certificate is verified for another host"
	}
}

// keeps notes a transport which keeps connections without a limit of time.
func (n *network) keeps(t *http.Transport) {
	if t.DisableKeepAlives || t.IdleConnTimeout > 0 {
		return
	}
	for _, p := range n.pools {
		if p == t {
			return
		}
	}
	n.pools = append(n.pools, t)
}

// drops forgets a transport whose connections are closed.
func (n *network) drops(t *http.Transport) {
	for i, p := range n.pools {
		if p == t {
			n.pools = append(n.pools[:i:i], n.pools[i+1:]...)
			return
		}
	}
}

// serve makes the network answer requests in turn; a request beyond that fails.
func serve(answers ...func(*network, *http.Request) (*http.Response, error)) *network {
	n := &network{}
	http.VerifTransport = func(t *http.Transport, r *http.Request) {
		n.trusts(t.TLSClientConfig, r.URL.Hostname())
		if !r.Close {
			n.keeps(t)
		}
	}
	http.VerifIdle = n.drops
	http.VerifRoundTrip = func(r *http.Request) (*http.Response, error) {
		s := sent{url: r.URL.String(), scheme: r.URL.Scheme, method: r.Method, hdr: r.Header, cookies: r.Cookies()}
		if r.Body != nil {
			b, err := io.ReadAll(r.Body)
			r.Body.Close()
			if err != nil {
				return nil, err
			}
			s.body = string(b)
		}
		if n.frozen {
			return nil, anyFault()
		}
		n.requests = append(n.requests, s)
		if len(n.requests) > len(answers) {
			return nil, anyFault()
		}
		return answers[len(n.requests)-1](n, r)
	}
	dial := func(c *conn) (net.Conn, error) {
		if n.frozen {
			return nil, anyFault()
		}
		n.conns = append(n.conns, c)
		if n.accept != nil {
			if err := n.accept(c); err != nil {
				c.closed = 1
				return nil, err
			}
		}
		return c, nil
	}
	tls.VerifDial = func(network, addr string, config *tls.Config) (net.Conn, error) {
		if host, _, err := net.SplitHostPort(addr); err == nil {
			n.trusts(config, host)
		}
		return dial(&conn{network: network, addr: addr, in: strings.NewReader("")})
	}
	net.VerifDial = func(network, addr string) (net.Conn, error) {
		return dial(&conn{network: network, addr: addr, in: strings.NewReader(""), plain: true})
	}
	return n
}

// any tells whether anything left for the network.
func (n *network) any() bool { return len(n.requests)+len(n.conns) > 0 }

// reply answers with a status, headers (name and value by turns) and a body.
func reply(status int, b *body, length int64, headers ...string) func(*network, *http.Request) (*http.Response, error) {
	return func(n *network, r *http.Request) (*http.Response, error) {
		h := http.Header{}
		for i := 0; i < len(headers); i += 2 {
			h.Add(headers[i], headers[i+1])
		}
		n.bodies = append(n.bodies, b)
		return &http.Response{Status: "status", StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: b, ContentLength: length, Request: r}, nil
	}
}

// broken fails before there is a response.
func broken(n *network, r *http.Request) (*http.Response, error) { return nil, anyFault() }

// endOr gives a good end (0) or a fault (1).
func endOr(k int) error {
	if k == 0 {
		return io.EOF
	}
	return anyFault()
}
