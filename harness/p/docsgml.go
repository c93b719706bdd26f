package p

import (
	"reflect"

	"verif/harness/v"
)

var messageNames = []string{"AcctInfoResponse", "StatementResponse", "CCStatementResponse", "InvStatementResponse", "SecListResponse", "SecurityList", "ProfileResponse"}

// leafNames lists the elements holding values below an aggregate.
func leafNames(s *schema) []string {
	var out []string
	seen := map[string]bool{}
	done := map[*schema]bool{}
	var walk func(s *schema)
	walk = func(s *schema) {
		if done[s] {
			return
		}
		done[s] = true
		for _, f := range s.fields {
			switch {
			case f.sub != nil:
				walk(f.sub)
			case f.kinds != nil:
				for _, e := range f.variants {
					walk(schemas[f.kinds[e]])
				}
			default:
				n := f.path[len(f.path)-1]
				if !seen[n] {
					seen[n] = true
					out = append(out, n)
				}
			}
		}
	}
	walk(s)
	return out
}

// readLoose reads a document written by a given writer.
func readLoose(name, ver string, g *gen, w *writer) {
	m := g.message(name)
	gs := &gen{sym: true, give: required}
	sn := gs.aggregate(schemas["SignonResponse"])
	r := parse(w.document(ver, sn, []message{m}))
	matches("Signon", schemas["SignonResponse"], sn, reflect.ValueOf(r.Signon))
	matches("", schemas[name], m.kids, only(*setOf(r, name)))
	v.Reach("read")
}

// few limits lists to one member, and lists of several kinds to a part.
func few(g *gen, part, size int) {
	g.shift = part * size
	g.count = func(k int, f *field) int {
		if f.kinds != nil {
			return size
		}
		return 1
	}
}

var gaps = []string{"", "\n", " ", "\r\n\t "}

func parts(name string) int {
	if name == "InvStatementResponse" {
		return v.Choose("part", 5)
	}
	return 0
}

// Every kind of message with all its elements, all values unclosed, with
// nothing, line breaks, spaces or several of them between elements, in every
// SGML version; symbolic contents.
func C16_unclosed() {
	name := messageNames[v.Choose("message", len(messageNames))]
	g := &gen{sym: true, symnum: true}
	few(g, parts(name), 4)
	k := v.Choose("gap", len(gaps))
	w := &writer{unclosed: func(string) bool { return true }, space: func() string { return gaps[k] }}
	readLoose(name, versionText[k], g, w)
}

// Every kind of message, with any combination of blanks and tabs of length two,
// and a line feed before, after or nowhere, at every eighth gap between elements
// (in turn), all values unclosed or all closed.
func C16_space() {
	name := messageNames[v.Choose("message", len(messageNames))]
	g := &gen{}
	few(g, 0, 1)
	un := v.Choose("unclosed", 2) == 1
	lf := v.Choose("line feed", 3)
	k, i := v.Choose("which", 8), 0
	w := &writer{unclosed: func(string) bool { return un }, space: func() string {
		if i++; i%8 != k {
			return gaps[i%4]
		}
		s := v.Str("gap", 2, " \t")
		switch lf {
		case 1:
			return "\n" + s
		case 2:
			return s + "\n"
		}
		return s
	}}
	readLoose(name, versionText[k%4], g, w)
}

// Every kind of message, values closed or not by patterns of their number.
func C16_mixed() {
	name := messageNames[v.Choose("message", len(messageNames))]
	p := v.Choose("pattern", 16)
	g := &gen{sym: true}
	few(g, p, 2)
	i := 0
	w := &writer{unclosed: func(string) bool { i++; return i>>uint(p/2)&1 == p%2 }, space: func() string { return gaps[p%4] }}
	readLoose(name, versionText[p%4], g, w)
}

// leadsTo tells whether an aggregate or what it holds has a value element of a
// given name.
func leadsTo(s *schema, name string) bool {
	for _, f := range s.fields {
		if f.sub != nil {
			if leadsTo(f.sub, name) {
				return true
			}
			continue
		}
		if f.kinds == nil && f.path[len(f.path)-1] == name {
			return true
		}
		for _, e := range f.variants {
			if leadsTo(schemas[f.kinds[e]], name) {
				return true
			}
		}
	}
	return false
}

// Every kind of message, each value element alone unclosed or alone closed,
// among all that its aggregates can hold.
func C16_single() {
	name := messageNames[v.Choose("message", len(messageNames))]
	all := leafNames(schemas[name])
	x := v.Choose("element", len(all))
	un := v.Choose("unclosed", 2) == 1
	g := &gen{sym: true}
	memo := map[*field]bool{}
	there := func(f *field) bool {
		if f.sub == nil && f.kinds == nil {
			return true
		}
		r, ok := memo[f]
		if !ok {
			r = f.sub != nil && leadsTo(f.sub, all[x])
			for _, e := range f.variants {
				r = r || leadsTo(schemas[f.kinds[e]], all[x])
			}
			memo[f] = r
		}
		return r
	}
	kinds := func(f *field) (out []int) {
		for k, e := range f.variants {
			if leadsTo(schemas[f.kinds[e]], all[x]) {
				out = append(out, k)
			}
		}
		if len(out) > 4 {
			// elements of many kinds: some of them, in turn
			out = []int{out[x%len(out)], out[(x+7)%len(out)]}
		}
		return
	}
	g.present = func(k int, f *field) bool { return there(f) }
	g.count = func(k int, f *field) int {
		switch {
		case !there(f):
			return 0
		case f.kinds != nil:
			return len(kinds(f))
		}
		return 1
	}
	g.variant = func(i int, f *field) int { return kinds(f)[i] }
	w := &writer{unclosed: func(n string) bool { return n == all[x] == un }, space: func() string { return gaps[x%4] }}
	readLoose(name, versionText[x%4], g, w)
}
