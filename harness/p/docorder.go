package p

import (
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// under finds the children of the aggregate reached by a path of fields.
func under(kids []*node, names ...string) []*node {
	for _, n := range names {
		found := false
		for _, k := range kids {
			if k.f.name == n {
				kids, found = k.kids, true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return kids
}

// common finds, among the children of a transaction, position or security, the
// part every one has.
func common(k *node) []*node {
	for _, p := range []string{"InvTran", "InvBuy InvTran", "InvSell InvTran", "InvPos", "SecInfo"} {
		if c := under(k.kids, strings.Split(p, " ")...); c != nil {
			return c
		}
	}
	panic("no common part of " + k.elem)
}

// listed is a document with one list of several kinds: its members, of the
// given kinds with only required elements, and, for transactions, transfers
// between them.
func listed(name, list, elem string, kinds []int, mixed int) {
	g := &gen{sym: true, symnum: true, shift: kinds[0]}
	g.present = func(k int, f *field) bool { return f.sub != nil && len(f.sub.fields) > 1 && f.sub.name == "InvTranList" }
	g.count = func(k int, f *field) int {
		switch {
		case f.name == list:
			return len(kinds)
		case f.name == "BankTransactions":
			return mixed
		}
		return 0
	}
	g.variant = func(i int, f *field) int { return kinds[i] }
	m := g.message(name)
	// put the transfers between the others
	var inner *[]*node
	if name == "InvStatementResponse" && list == "InvTransactions" {
		for _, k := range m.kids {
			if k.f.name == "InvTranList" {
				inner = &k.kids
			}
		}
	}
	w := &writer{}
	var plain []*node
	if inner != nil {
		plain = *inner
		var out, invs, banks []*node
		for _, k := range plain {
			switch k.f.name {
			case "InvTransactions":
				invs = append(invs, k)
			case "BankTransactions":
				banks = append(banks, k)
			default:
				out = append(out, k)
			}
		}
		for len(invs)+len(banks) > 0 {
			if len(banks) > 0 {
				out, banks = append(out, banks[0]), banks[1:]
			}
			if len(invs) > 0 {
				out, invs = append(out, invs[0]), invs[1:]
			}
		}
		*inner = out
	}
	doc := w.document("203", signonNodes(), []message{m})
	if inner != nil {
		*inner = plain
	}
	rv := only(*setOf(parse(doc), name))
	matches("", schemas[name], m.kids, rv)

	// the accessors of each member
	members := m.kids
	if inner != nil {
		members, rv = plain, reflect.ValueOf(rv.FieldByName("InvTranList").Interface().(*ofxgo.InvTranList)).Elem()
	}
	i := 0
	for _, k := range members {
		if k.f.name != list {
			continue
		}
		x := rv.FieldByName(list).Index(i).Interface()
		i++
		switch x := x.(type) {
		case ofxgo.InvTransaction:
			v.Assert(x.TransactionType() == k.elem, k.elem+": wrong transaction type")
			matches(k.elem+".InvTransaction()", schemas["InvTran"], common(k), reflect.ValueOf(x.InvTransaction()))
		case ofxgo.Position:
			v.Assert(x.PositionType() == k.elem, k.elem+": wrong position type")
			matches(k.elem+".InvPosition()", schemas["InvPosition"], common(k), reflect.ValueOf(x.InvPosition()))
		case ofxgo.OpenOrder:
			v.Assert(x.OrderType() == k.elem, k.elem+": wrong order type")
		case ofxgo.Security:
			v.Assert(x.SecurityType() == k.elem, k.elem+": wrong security type")
			matches(k.elem+".SecurityInfo()", schemas["SecInfo"], common(k), reflect.ValueOf(x.SecurityInfo()))
		default:
			panic("no member of a list")
		}
	}
	v.Reach("list")
}

func pairOf(n int) []int { return []int{v.Choose("first", n), v.Choose("second", n)} }

// Every ordered pair of transaction types, transfers of cash between them;
// symbolic contents.
func C13_transactions() {
	listed("InvStatementResponse", "InvTransactions", "", pairOf(len(variantTypes["tran"])), 2)
}

// Every ordered pair of position types.
func C13_positions() {
	listed("InvStatementResponse", "InvPosList", "", pairOf(len(variantTypes["position"])), 0)
}

// Every ordered pair of order types.
func C13_orders() {
	listed("InvStatementResponse", "InvOOList", "", pairOf(len(variantTypes["order"])), 0)
}

// Every ordered triple of security types.
func C14_order() {
	n := len(variantTypes["security"])
	listed("SecurityList", "Securities", "", []int{v.Choose("first", n), v.Choose("second", n), v.Choose("third", n)}, 0)
}

// unknown puts an element of any name into a list: it is refused unless it is
// one of the names the list may hold.
func unknown(open, close string, known []string, min, max int) {
	n := min + v.Choose("length", max-min+1)
	name := v.Str("name", n, "A-Z")
	v.Assume(v.And(name[0] >= 'A', name[0] <= 'Z'))
	is := false
	for _, k := range known {
		is = v.Or(is, name == k)
	}
	v.Assume(!is)
	w := &writer{}
	w.str(xmlHeader("203") + "<OFX><SIGNONMSGSRSV1><SONRS>")
	w.content(signonNodes())
	w.str("</SONRS></SIGNONMSGSRSV1>" + open + "<" + name + "></" + name + ">" + close + "</OFX>")
	_, err := ofxgo.DecodeResponse(strings.NewReader(string(w.b)))
	v.Assert(err != nil, "an unknown element is ignored")
	v.Reach("refused")
}

func names(list string, more ...string) (out []string) {
	for _, x := range variantTypes[list] {
		out = append(out, x[:strings.Index(x, " ")])
	}
	return append(out, more...)
}

// Names of 4 to 15 letters.
func C13_unknown() {
	switch v.Choose("list", 3) {
	case 0:
		unknown("<INVSTMTMSGSRSV1><INVSTMTTRNRS><INVSTMTRS><INVTRANLIST>", "</INVTRANLIST></INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1>", names("tran", "DTSTART", "DTEND", "INVBANKTRAN"), 4, 15)
	case 1:
		unknown("<INVSTMTMSGSRSV1><INVSTMTTRNRS><INVSTMTRS><INVPOSLIST>", "</INVPOSLIST></INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1>", names("position"), 4, 10)
	case 2:
		unknown("<INVSTMTMSGSRSV1><INVSTMTTRNRS><INVSTMTRS><INVOOLIST>", "</INVOOLIST></INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1>", names("order"), 6, 13)
	}
}

// Names of 5 to 11 characters.
func C14_unknown() {
	unknown("<SECLISTMSGSRSV1><SECLIST>", "</SECLIST></SECLISTMSGSRSV1>", names("security"), 5, 11)
}
