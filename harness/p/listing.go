package p

import (
	"io"
	"strings"

	"verif/harness/v"
)

// child finds the child of an aggregate's content with a given field name, along
// a path of names.
func child(kids []*node, path ...string) *node {
	for _, k := range kids {
		if k.f.name == path[0] {
			if len(path) == 1 {
				return k
			}
			return child(k.kids, path[1:]...)
		}
	}
	return nil
}

// text gives the value of a leaf, as it is listed.
func text(kids []*node, path ...string) string {
	k := child(kids, path...)
	switch {
	case k == nil:
		return ""
	case k.f.kind == "date":
		return dateText(k.leaf.date) + ".000[0:GMT]"
	}
	return k.leaf.text
}

// listed values: amounts without zeros, texts which may look like formats.
func listedLeaf(signed bool) func(s *schema, f *field) *leafval {
	n := 0
	return func(s *schema, f *field) *leafval {
		if l := required(s, f); l != nil {
			return l
		}
		switch {
		case f.kind == "amount":
			n++
			sign := ""
			if signed && n%2 == 1 || !signed && n%3 == 0 {
				sign = "-"
			}
			switch n % 4 {
			case 0:
				return &leafval{text: sign + v.Str(f.name, 1, "1-9")}
			case 1:
				return &leafval{text: sign + "0." + v.Str(f.name, 2, "1-9")}
			}
			return &leafval{text: sign + v.Str(f.name, 2, "1-9") + "." + v.Str(f.name, 1, "1-9")}
		case f.name == "Name" || f.name == "Memo" || f.name == "UniqueID":
			return &leafval{text: v.Str(f.name, 2, "a-z%")}
		}
		return nil
	}
}

// listing gives the line of a bank transaction.
func listing(curdef string, t []*node) string {
	cur := curdef
	if c := text(t, "Currency", "CurSym"); c != "" {
		cur = c
	}
	name := text(t, "Name")
	if name == "" {
		name = text(t, "Payee", "Name")
	}
	if m := text(t, "Memo"); m != "" {
		name += " - " + m
	}
	return text(t, "DtPosted") + " " + text(t, "TrnAmt") + " " + cur + " " + text(t, "TrnType") + " " + name + "\n"
}

// squeezed drops blanks and empty lines.
func squeezed(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' || s[i] == '\t' || s[i] == '\n' && (len(out) == 0 || out[len(out)-1] == '\n') {
			continue
		}
		out = append(out, s[i])
	}
	return string(out)
}

// lists runs a command on a document and compares what it prints.
func lists(cmd, doc, want string) {
	n := answering(doc, 0, io.EOF)
	code, out := ofx(newDisk(), n, args(cmd, basics(cmd, cliURLs[0])...)...)
	if code != 0 {
		v.Assert(false, cmd+" fails: "+out)
	}
	sentOnce(n)
	got := strings.Split(squeezed(out), "\n")
	exp := strings.Split(squeezed(want), "\n")
	for i := range exp {
		if i >= len(got) {
			v.Assert(false, "the listing ends before "+exp[i])
		}
		if len(got[i]) != len(exp[i]) || got[i] != exp[i] {
			v.Assert(false, "line "+itoa(i)+" of the listing is "+got[i]+" instead of "+exp[i])
		}
	}
	v.Assert(len(got) == len(exp), "the listing goes on")
	v.Reach("listed")
}

func statementOf(name string, p int, tune func(g *gen)) message {
	g := &gen{sym: true, valid: true, old: true, shift: p, give: listedLeaf(p%2 == 0)}
	pattern(g, p)
	if tune != nil {
		tune(g)
	}
	return g.message(name)
}

func bankListing(kids []*node) string {
	cur := text(kids, "CurDef")
	want := "Balance: " + text(kids, "BalAmt") + " " + cur + " (as of " + text(kids, "DtAsOf") + ")\n"
	if l := child(kids, "BankTranList"); l != nil {
		want += "Transactions:\n"
		for _, t := range l.kids {
			if t.f.name == "Transactions" {
				want += listing(cur, t.kids)
			}
		}
	}
	return want
}

// A bank or card statement with a pattern of optional elements and up to two
// transactions; names and memos of 2 symbolic characters, amounts with up to 3
// symbolic digits and either sign.
func C31_bank() {
	k := v.Choose("kind", 2)
	m := statementOf([]string{"StatementResponse", "CCStatementResponse"}[k], v.Choose("pattern", patterns), nil)
	w := &writer{}
	lists([]string{"transactions-bank", "transactions-cc"}[k], w.document("203", signonNodes(), []message{m}), bankListing(m.kids))
}

// A bank or card statement whose transactions have or lack just one of their
// optional elements, or of those of the list or statement.
func C31_bank_single() {
	k := v.Choose("kind", 2)
	name := []string{"StatementResponse", "CCStatementResponse"}[k]
	all := optionals(schemas[name])
	x := v.Choose("element", len(all))
	absent := v.Choose("absent", 2) == 1
	m := statementOf(name, 0, func(g *gen) { single(g, all[x], absent) })
	w := &writer{}
	lists([]string{"transactions-bank", "transactions-cc"}[k], w.document("103", signonNodes(), []message{m}), bankListing(m.kids))
}

// invLine gives the line of an investment transaction.
func invLine(curdef string, t *node) string {
	k := t.kids
	common := k
	if c := child(k, "InvBuy"); c != nil {
		common = c.kids
	} else if c := child(k, "InvSell"); c != nil {
		common = c.kids
	}
	cur := curdef
	if c := text(common, "Currency", "CurSym"); c != "" {
		cur = c
	}
	sec := text(common, "SecID", "UniqueIDType") + " " + text(common, "SecID", "UniqueID")
	get := func(n string) string { return text(common, n) }
	out := t.elem + " " + text(common, "InvTran", "DtTrade") + " "
	switch t.elem {
	case "CLOSUREOPT":
		out += get("OptAction") + " " + get("Units") + " contracts (" + itoaText(get("ShPerCtrct")) + " shares each)"
	case "INCOME":
		out += get("IncomeType") + " " + get("Total") + " " + cur + " (" + sec + ")"
	case "INVEXPENSE", "RETOFCAP":
		out += get("Total") + " " + cur + " (" + sec + ")"
	case "JRNLFUND":
		out += get("Total") + " " + curdef + " (" + get("SubAcctFrom") + " -> " + get("SubAcctTo") + ")"
	case "JRNLSEC":
		out += get("Units") + " " + sec + " (" + get("SubAcctFrom") + " -> " + get("SubAcctTo") + ")"
	case "MARGININTEREST":
		out += get("Total") + " " + cur
	case "SPLIT":
		frac := get("FracCash")
		if frac == "" {
			frac = "0"
		}
		out += get("Numerator") + "/" + get("Denominator") + " " + get("OldUnits") + " -> " + get("NewUnits") + " shares of " + sec + " (" + frac + " " + cur + " for fractional shares)"
	case "TRANSFER":
		out += get("Units") + " (" + sec + ") " + get("TferAction")
	default:
		out += get("Units") + " (" + sec + ")@" + get("UnitPrice") + " " + cur + " (Total: " + get("Total") + ")"
	}
	return out + "\n"
}

func itoaText(s string) string { return s }

func invListing(kids []*node) string {
	cur := text(kids, "CurDef")
	want := ""
	if a := text(kids, "InvBal", "AvailCash"); a != "" {
		want = "Balance: " + a + " " + cur + " (as of " + text(kids, "DtAsOf") + ")\n"
	}
	l := child(kids, "InvTranList")
	if l == nil {
		return want
	}
	for _, b := range l.kids {
		if b.f.name == "BankTransactions" {
			want += "Bank Transactions for " + text(b.kids, "SubAcctFund") + " subaccount:\n"
			for _, t := range b.kids {
				if t.f.name == "Transactions" {
					want += listing(cur, t.kids)
				}
			}
		}
	}
	want += "Investment Transactions:\n"
	for _, t := range l.kids {
		if t.f.name == "InvTransactions" {
			want += invLine(cur, t)
		}
	}
	return want
}

// An investment statement with a pattern of optional elements: all kinds of
// transactions, or none or some of them.
func C31_investment() {
	m := statementOf("InvStatementResponse", v.Choose("pattern", patterns), nil)
	w := &writer{}
	lists("transactions-inv", w.document("203", signonNodes(), []message{m}), invListing(m.kids))
}

// An investment statement of two transactions of any kinds, the first with or
// without all optional elements, the second without or with, and likewise two
// cash transactions.
func C31_pair() {
	a, b := v.Choose("first", 20), v.Choose("second", 20)
	full := v.Choose("full", 2) == 0
	m := statementOf("InvStatementResponse", 0, func(g *gen) {
		has := full
		g.present = func(k int, f *field) bool { return has || f.name == "InvTranList" }
		g.count = func(k int, f *field) int {
			switch f.name {
			case "InvTransactions", "BankTransactions":
				return 2
			case "Transactions":
				return 1
			}
			return 0
		}
		g.variant = func(i int, f *field) int { return []int{a, b}[i] }
		g.enter = func(i int, f *field) func() {
			if f.name != "InvTransactions" && f.name != "BankTransactions" {
				return func() {}
			}
			was := has
			has = full == (i == 0)
			return func() { has = was }
		}
	})
	w := &writer{}
	lists("transactions-inv", w.document("211", signonNodes(), []message{m}), invListing(m.kids))
}

// Any status of the signon but success: the command fails and lists nothing.
func C31_refused() { refusedListing(v.Choose("command", 3)) }

// Any status of the signon but success: the command fails and lists nothing.
func C34_refused() { refusedListing(3) }

func refusedListing(k int) {
	cmd := []string{"transactions-bank", "transactions-cc", "transactions-inv", "get-accounts"}[k]
	name := []string{"StatementResponse", "CCStatementResponse", "InvStatementResponse", "AcctInfoResponse"}[k]
	sev := []string{"INFO", "WARN", "ERROR"}[v.Choose("severity", 3)]
	s := statusTable[v.Choose("code", len(statusTable))]
	v.Assume(s.code != 0)
	sn := signonNodes()
	st := child(sn, "Status")
	child(st.kids, "Code").leaf.text = itoa(s.code)
	child(st.kids, "Severity").leaf.text = sev
	m := shortMessage(name, false)
	w := &writer{}
	n := answering(w.document("203", sn, []message{m}), 0, io.EOF)
	rc, out := ofx(newDisk(), n, args(cmd, basics(cmd, cliURLs[0])...)...)
	v.Assert(rc != 0, cmd+" reports success although the signon is refused")
	v.Assert(!strings.Contains(out, "Balance:") && !strings.Contains(out, "accounts:"), cmd+" lists a statement although the signon is refused")
	v.Reach("refused")
}

// Answers without the statement asked for: a response without messages, one
// with another message, text which is no response, any first 3 bytes; a failing
// request. The command does not crash, and fails where there is no response.
func C31_other() { otherListing(v.Choose("command", 3)) }

// Answers without an account list: a response without messages, one with
// another message, text which is no response, any first 3 bytes; a failing
// request. The command does not crash, and fails where there is no response.
func C34_other() { otherListing(3) }

func otherListing(k int) {
	cmd := []string{"transactions-bank", "transactions-cc", "transactions-inv", "get-accounts"}[k]
	var n *network
	fail := true
	w := &writer{}
	switch j := v.Choose("answer", 4+len(messageNames)); j {
	case 0:
		n = answering(w.document("203", signonNodes(), nil), 0, io.EOF)
		fail = false
	case 1:
		n = answering("<html>Sorry</html>", 0, io.EOF)
	case 2:
		n = answering(v.Str("start", 3, ""), 0, io.EOF)
	case 3:
		n = serve(broken)
	default:
		n = answering(w.document("203", signonNodes(), []message{shortMessage(messageNames[j-4], false)}), 0, io.EOF)
		fail = false
	}
	rc, _ := ofx(newDisk(), n, args(cmd, basics(cmd, cliURLs[0])...)...)
	if fail {
		v.Reach("failed")
		v.Assert(rc != 0, cmd+" reports success although there is no response")
	} else {
		v.Reach("other")
	}
}

// accountListing gives what is listed for an account.
func accountListing(a []*node) string {
	q := func(s string) string { return "\"" + s + "\"\n" }
	if b := child(a, "BankAcctInfo", "BankAcctFrom"); b != nil {
		return "Bank Account:\nBankID: " + q(text(b.kids, "BankID")) + "AcctID: " + q(text(b.kids, "AcctID")) + "AcctType: " + text(b.kids, "AcctType") + "\n"
	}
	if c := child(a, "CCAcctInfo", "CCAcctFrom"); c != nil {
		return "Credit card:\nAcctID: " + q(text(c.kids, "AcctID"))
	}
	if i := child(a, "InvAcctInfo", "InvAcctFrom"); i != nil {
		return "Investment account:\nBrokerID: " + q(text(i.kids, "BrokerID")) + "AcctID: " + q(text(i.kids, "AcctID"))
	}
	return "Unknown type: " + text(a, "Name") + " " + text(a, "Desc") + "\n"
}

func accountsListing(kids []*node) string {
	want := "Found the following accounts:\n"
	for _, a := range kids {
		if a.f.name == "AcctInfo" {
			want += accountListing(a.kids)
		}
	}
	return want
}

// accountLeaf gives the texts which identify accounts symbolic values.
func accountLeaf(s *schema, f *field) *leafval {
	if l := required(s, f); l != nil {
		return l
	}
	switch f.name {
	case "BankID", "AcctID", "BrokerID", "Name", "Desc":
		return &leafval{text: v.Str(f.name, 2, "a-z%")}
	}
	return nil
}

// Account lists with up to three accounts of each kind or none (bank, card,
// investment, bill payment, without details), in any order; identifiers, names
// and descriptions of 2 symbolic characters each.
func C34_accounts() {
	count := v.Choose("accounts", 4)
	var kinds []int
	for i := 0; i < count; i++ {
		kinds = append(kinds, v.Choose("kind", 5))
	}
	full := v.Choose("full", 2) == 1
	at := 0
	g := &gen{sym: true, valid: true, old: true, give: accountLeaf}
	g.present = func(k int, f *field) bool {
		switch f.name {
		case "BankAcctInfo":
			return kinds[at] == 0
		case "CCAcctInfo":
			return kinds[at] == 1
		case "InvAcctInfo":
			return kinds[at] == 2
		case "BPAcctInfo":
			return kinds[at] == 3
		case "AcctInfo":
			return true
		}
		return full
	}
	g.count = func(k int, f *field) int { return count }
	g.enter = func(i int, f *field) func() {
		if f.name == "AcctInfo" {
			at = i
		}
		return func() {}
	}
	m := g.message("AcctInfoResponse")
	w := &writer{}
	lists("get-accounts", w.document([]string{"203", "102"}[v.Choose("version", 2)], signonNodes(), []message{m}), accountsListing(m.kids))
}

// Account lists with a pattern of optional elements, with details of several
// kinds in an account: the account is listed as that of the first among bank,
// card and investment account.
func C34_patterns() {
	g := &gen{sym: true, valid: true, old: true, give: accountLeaf}
	pattern(g, v.Choose("pattern", patterns))
	m := g.message("AcctInfoResponse")
	w := &writer{}
	lists("get-accounts", w.document("203", signonNodes(), []message{m}), accountsListing(m.kids))
}

// A bank, card or investment statement with 1030 transactions, with or without
// all their optional elements.
func C31_bulk() {
	v.Long()
	k := v.Choose("kind", 3)
	full := v.Choose("full", 2) == 1
	name := []string{"StatementResponse", "CCStatementResponse", "InvStatementResponse"}[k]
	m := statementOf(name, 0, func(g *gen) {
		g.sym = false
		g.present = func(k int, f *field) bool {
			return full || strings.HasSuffix(f.name, "TranList")
		}
		g.count = func(k int, f *field) int {
			switch f.name {
			case "Transactions", "InvTransactions":
				return 1030
			}
			return 0
		}
	})
	w := &writer{}
	doc := w.document("203", signonNodes(), []message{m})
	want := ""
	if k == 2 {
		want = invListing(m.kids)
	} else {
		want = bankListing(m.kids)
	}
	lists([]string{"transactions-bank", "transactions-cc", "transactions-inv"}[k], doc, want)
}

// An account list of 1030 accounts, of each kind or of all in turn.
func C34_bulk() {
	v.Long()
	kind := v.Choose("kind", 6)
	at := 0
	g := &gen{valid: true, old: true, give: accountLeaf}
	g.present = func(k int, f *field) bool {
		n := kind
		if kind == 5 {
			n = at % 5
		}
		switch f.name {
		case "BankAcctInfo":
			return n == 0
		case "CCAcctInfo":
			return n == 1
		case "InvAcctInfo":
			return n == 2
		case "BPAcctInfo":
			return n == 3
		case "AcctInfo":
			return true
		}
		return false
	}
	g.count = func(k int, f *field) int { return 1030 }
	g.enter = func(i int, f *field) func() {
		if f.name == "AcctInfo" {
			at = i
		}
		return func() {}
	}
	m := g.message("AcctInfoResponse")
	w := &writer{}
	lists("get-accounts", w.document("203", signonNodes(), []message{m}), accountsListing(m.kids))
}
