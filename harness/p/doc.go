package p

import (
	"reflect"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
	"verif/harness/v"
)

// ---- schemas ----

type field struct {
	name, kind     string
	path           []string
	opt, ptr, list bool
	sub            *schema           // aggregates
	words          []string          // enumerations
	vals           []uint            // their constants
	variants       []string          // lists of several kinds: their elements
	kinds          map[string]string // element to aggregate
}

type schema struct {
	name   string
	fields []*field
}

var schemas map[string]*schema

func init() { schemas = readSchemas(schemaText) }

// variantTypes maps the elements of lists of several kinds to aggregates.
var variantTypes = map[string][]string{
	"tran": {"BUYDEBT BuyDebt", "BUYMF BuyMF", "BUYOPT BuyOpt", "BUYOTHER BuyOther", "BUYSTOCK BuyStock", "CLOSUREOPT ClosureOpt", "INCOME Income", "INVEXPENSE InvExpense",
		"JRNLFUND JrnlFund", "JRNLSEC JrnlSec", "MARGININTEREST MarginInterest", "REINVEST Reinvest", "RETOFCAP RetOfCap", "SELLDEBT SellDebt", "SELLMF SellMF", "SELLOPT SellOpt",
		"SELLOTHER SellOther", "SELLSTOCK SellStock", "SPLIT Split", "TRANSFER Transfer"},
	"position": {"POSDEBT DebtPosition", "POSMF MFPosition", "POSOPT OptPosition", "POSOTHER OtherPosition", "POSSTOCK StockPosition"},
	"order": {"OOBUYDEBT OOBuyDebt", "OOBUYMF OOBuyMF", "OOBUYOPT OOBuyOpt", "OOBUYOTHER OOBuyOther", "OOBUYSTOCK OOBuyStock", "OOSELLDEBT OOSellDebt", "OOSELLMF OOSellMF",
		"OOSELLOPT OOSellOpt", "OOSELLOTHER OOSellOther", "OOSELLSTOCK OOSellStock", "SWITCHMF OOSwitchMF"},
	"security": {"DEBTINFO DebtInfo", "MFINFO MFInfo", "OPTINFO OptInfo", "OTHERINFO OtherInfo", "STOCKINFO StockInfo"},
	"msgset": {"SIGNONMSGSETV1 MessageSet", "SIGNUPMSGSETV1 MessageSet", "BANKMSGSETV1 MessageSet", "CREDITCARDMSGSETV1 MessageSet", "INVSTMTMSGSETV1 MessageSet", "INTERXFERMSGSETV1 MessageSet",
		"WIREXFERMSGSETV1 MessageSet", "BILLPAYMSGSETV1 MessageSet", "EMAILMSGSETV1 MessageSet", "SECLISTMSGSETV1 MessageSet", "PROFMSGSETV1 MessageSet"},
}

var goTypes = map[string]reflect.Type{
	"BuyDebt": reflect.TypeOf(ofxgo.BuyDebt{}), "BuyMF": reflect.TypeOf(ofxgo.BuyMF{}), "BuyOpt": reflect.TypeOf(ofxgo.BuyOpt{}), "BuyOther": reflect.TypeOf(ofxgo.BuyOther{}),
	"BuyStock": reflect.TypeOf(ofxgo.BuyStock{}), "ClosureOpt": reflect.TypeOf(ofxgo.ClosureOpt{}), "Income": reflect.TypeOf(ofxgo.Income{}), "InvExpense": reflect.TypeOf(ofxgo.InvExpense{}),
	"JrnlFund": reflect.TypeOf(ofxgo.JrnlFund{}), "JrnlSec": reflect.TypeOf(ofxgo.JrnlSec{}), "MarginInterest": reflect.TypeOf(ofxgo.MarginInterest{}), "Reinvest": reflect.TypeOf(ofxgo.Reinvest{}),
	"RetOfCap": reflect.TypeOf(ofxgo.RetOfCap{}), "SellDebt": reflect.TypeOf(ofxgo.SellDebt{}), "SellMF": reflect.TypeOf(ofxgo.SellMF{}), "SellOpt": reflect.TypeOf(ofxgo.SellOpt{}),
	"SellOther": reflect.TypeOf(ofxgo.SellOther{}), "SellStock": reflect.TypeOf(ofxgo.SellStock{}), "Split": reflect.TypeOf(ofxgo.Split{}), "Transfer": reflect.TypeOf(ofxgo.Transfer{}),
	"DebtPosition": reflect.TypeOf(ofxgo.DebtPosition{}), "MFPosition": reflect.TypeOf(ofxgo.MFPosition{}), "OptPosition": reflect.TypeOf(ofxgo.OptPosition{}),
	"OtherPosition": reflect.TypeOf(ofxgo.OtherPosition{}), "StockPosition": reflect.TypeOf(ofxgo.StockPosition{}),
	"OOBuyDebt": reflect.TypeOf(ofxgo.OOBuyDebt{}), "OOBuyMF": reflect.TypeOf(ofxgo.OOBuyMF{}), "OOBuyOpt": reflect.TypeOf(ofxgo.OOBuyOpt{}), "OOBuyOther": reflect.TypeOf(ofxgo.OOBuyOther{}),
	"OOBuyStock": reflect.TypeOf(ofxgo.OOBuyStock{}), "OOSellDebt": reflect.TypeOf(ofxgo.OOSellDebt{}), "OOSellMF": reflect.TypeOf(ofxgo.OOSellMF{}), "OOSellOpt": reflect.TypeOf(ofxgo.OOSellOpt{}),
	"OOSellOther": reflect.TypeOf(ofxgo.OOSellOther{}), "OOSellStock": reflect.TypeOf(ofxgo.OOSellStock{}), "OOSwitchMF": reflect.TypeOf(ofxgo.OOSwitchMF{}),
	"DebtInfo": reflect.TypeOf(ofxgo.DebtInfo{}), "MFInfo": reflect.TypeOf(ofxgo.MFInfo{}), "OptInfo": reflect.TypeOf(ofxgo.OptInfo{}), "OtherInfo": reflect.TypeOf(ofxgo.OtherInfo{}), "StockInfo": reflect.TypeOf(ofxgo.StockInfo{}),
	"MessageSet": reflect.TypeOf(ofxgo.MessageSet{}),
}

func readSchemas(text string) map[string]*schema {
	m := map[string]*schema{}
	var cur *schema
	lines := strings.Split(text, "\n")
	for _, l := range lines {
		if l == "" {
			continue
		}
		if l[0] != ' ' {
			cur = &schema{name: l}
			m[l] = cur
			continue
		}
		w := strings.Split(l[1:], " ")
		f := &field{name: w[0], kind: w[1]}
		if w[2] != "-" {
			f.path = strings.Split(w[2], ">")
		}
		if len(w) > 3 {
			f.opt, f.ptr, f.list = strings.Contains(w[3], "?"), strings.Contains(w[3], "*"), strings.Contains(w[3], "[]")
		}
		cur.fields = append(cur.fields, f)
	}
	for _, s := range m {
		for _, f := range s.fields {
			switch {
			case f.kind[0] == '=':
				f.words = enumWords[f.kind[1:]]
				if f.words == nil {
					panic("no enumeration " + f.kind)
				}
				f.vals = enumVals[f.kind[1:]]
				f.kind = "enum"
			case f.kind[0] == '~':
				f.kinds = map[string]string{}
				for _, x := range variantTypes[f.kind[1:]] {
					i := strings.Index(x, " ")
					f.variants = append(f.variants, x[:i])
					f.kinds[x[:i]] = x[i+1:]
				}
			case m[f.kind] != nil:
				f.sub = m[f.kind]
			}
		}
	}
	return m
}

// ---- values ----

// leafval is the value of a simple element.
type leafval struct {
	text string // as written in the document
	num  int64
	date time.Time
	yes  bool
	enum uint
}

// node is an element: a simple value or an aggregate with its children.
type node struct {
	f    *field
	elem string // name, for lists of several kinds
	typ  string // aggregate, for lists of several kinds
	s    *schema
	leaf *leafval
	kids []*node
}

// gen makes values: distinct ones, with symbolic contents where wanted.
type gen struct {
	leaves, nodes int
	sym           bool                                      // symbolic texts
	symnum        bool                                      // symbolic numbers, too
	width         int                                       // bytes of a text
	shift         int                                       // picks among enumerated values
	present       func(k int, f *field) bool                // whether the k-th optional element is there
	count         func(k int, f *field) int                 // length of the k-th list
	variant       func(k int, f *field) int                 // kind of the k-th member of lists of several kinds
	give          func(s *schema, f *field) *leafval        // prescribed values
	valid         bool                                      // only what statement rules allow
	old           bool                                      // nothing newer than OFX 2.1
	fulldate      bool                                      // dates as the library writes them
	enter         func(i int, f *field) func()              // called for each member of a list; what it returns, after it
	named         func(i int, f *field, name string) string // the name of a member of a list of several kinds, if not its kind's
	picks         int
}

// excluded lists fields of which at most one may be present.
var excluded = map[string][]string{"Transaction": {"Name Payee", "BankAcctTo CCAcctTo", "Currency OrigCurrency"}, "PendingTransaction": {"Currency OrigCurrency"}}

// together lists fields present together or not at all.
var together = map[string]string{"AvailDtAsOf": "AvailBalAmt", "CorrectAction": "CorrectFiTID"}

// allowed decides on the presence of an optional field where rules do.
func (g *gen) allowed(s *schema, f *field, has map[string]bool, pick bool, want bool) bool {
	if !g.valid {
		return want
	}
	if o := together[f.name]; o != "" {
		return has[o]
	}
	if s.name == "PendingTransaction" && f.name == "Name" {
		return true
	}
	if g.old && s.name == "StatementRequest" && (f.name == "IncludePending" || f.name == "IncTranImg") {
		return false
	}
	if g.old && (f.name == "ImageData" || f.name == "BankTranListP") {
		return false
	}
	for _, x := range excluded[s.name] {
		i := strings.Index(x, " ")
		if f.name == x[:i] && pick || f.name == x[i+1:] && !pick {
			return false
		}
	}
	return want
}

var curSyms = []string{"USD", "EUR", "GBP", "JPY", "CAD", "CHF", "AUD", "SEK", "NOK", "DKK", "NZD"}

var day0 = time.Date(2001, time.January, 1, 0, 0, 0, 0, time.UTC)

func digits2(n int) string { return string([]byte{byte('0' + n/10%10), byte('0' + n%10)}) }

// dateText writes an instant in the full form of the specification.
func dateText(t time.Time) string {
	y := t.Year()
	return digits2(y/100) + digits2(y) + digits2(int(t.Month())) + digits2(t.Day()) + digits2(t.Hour()) + digits2(t.Minute()) + digits2(t.Second())
}

func itoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

func (g *gen) leafOf(s *schema, f *field) *leafval {
	g.leaves++
	n := g.leaves
	if g.give != nil {
		if l := g.give(s, f); l != nil {
			return l
		}
	}
	w := g.width
	if w == 0 {
		w = 1
	}
	switch f.kind {
	case "string", "uid":
		if g.sym {
			return &leafval{text: v.Str(f.name, w, "a-zA-Z0-9")}
		}
		return &leafval{text: "t" + itoa(n)}
	case "int":
		if g.symnum {
			d := v.Str(f.name, 2, "0-9")
			x := int64(0)
			for i := 0; i < len(d); i++ {
				x = x*10 + int64(d[i]) - '0'
			}
			if n%4 == 2 {
				return &leafval{text: "-" + d, num: -x}
			}
			return &leafval{text: d, num: x}
		}
		if n%4 == 2 {
			return &leafval{text: "-" + itoa(n), num: -int64(n)}
		}
		return &leafval{text: itoa(n), num: int64(n)}
	case "amount":
		sign := ""
		if (n+g.shift)%3 == 1 {
			sign = "-"
		}
		if g.symnum {
			return &leafval{text: sign + v.Str(f.name, 2, "0-9") + "." + v.Str(f.name, 2, "0-9")}
		}
		return &leafval{text: sign + itoa(n) + ".25"}
	case "date":
		d := day0.AddDate(0, n%5, n).Add(time.Duration(n) * time.Second)
		if g.fulldate {
			return &leafval{text: dateText(d) + ".000[0:UTC]", date: d}
		}
		return &leafval{text: dateText(d), date: d}
	case "boolean":
		b := (n>>uint(g.shift%8))&1 == 0 || g.valid && f.opt
		return &leafval{text: map[bool]string{false: "N", true: "Y"}[b], yes: b}
	case "currsymbol":
		return &leafval{text: curSyms[(n+g.shift)%len(curSyms)]}
	case "enum":
		i := (n + g.shift) % len(f.words)
		if g.valid && f.words[i] == "HOLD" && s.name == "Transaction" {
			i = 0
		}
		return &leafval{text: f.words[i], enum: f.vals[i]}
	}
	panic("no kind " + f.kind)
}

// aggregate makes the children of an aggregate.
func (g *gen) aggregate(s *schema) []*node {
	var out []*node
	has := map[string]bool{}
	g.picks++
	pick := g.picks%2 == 0
	for _, f := range s.fields {
		n := 1
		if f.list {
			n = 2
			if f.kinds != nil {
				n = len(f.variants)
			}
			if g.count != nil {
				n = g.count(g.nodes, f)
			}
			g.nodes++
			if !g.allowed(s, f, has, pick, true) {
				n = 0
			}
		} else if f.opt || f.ptr {
			if !g.allowed(s, f, has, pick, g.present == nil || g.present(g.nodes, f)) {
				n = 0
			}
			g.nodes++
		}
		has[f.name] = n > 0
		for i := 0; i < n; i++ {
			out = append(out, g.element(s, f, i))
		}
	}
	return out
}

func (g *gen) element(s *schema, f *field, i int) *node {
	x := &node{f: f, s: f.sub}
	if g.enter != nil && f.list {
		defer g.enter(i, f)()
	}
	switch {
	case f.kinds != nil:
		k := (i + g.shift) % len(f.variants)
		if g.variant != nil {
			k = g.variant(i, f)
		}
		x.elem = f.variants[k]
		x.typ = f.kinds[x.elem]
		x.s = schemas[x.typ]
		if g.named != nil {
			x.elem = g.named(i, f, x.elem)
		}
		x.kids = g.aggregate(x.s)
	case f.sub != nil:
		x.kids = g.aggregate(f.sub)
	default:
		x.leaf = g.leafOf(s, f)
	}
	return x
}

// ---- documents ----

// writer writes elements.
type writer struct {
	b        []byte
	unclosed func(name string) bool // leaf without closing element
	space    func() string          // white space between elements
	escape   func(text string) string
	request  bool // requests rather than responses
}

func (w *writer) str(s string) { w.b = append(w.b, s...) }

func (w *writer) gap() {
	if w.space != nil {
		w.str(w.space())
	}
}

func (w *writer) open(name string) {
	w.gap()
	w.str("<" + name + ">")
}

func (w *writer) close(name string) {
	w.gap()
	w.str("</" + name + ">")
}

func (w *writer) value(name, text string) {
	w.open(name)
	if w.escape != nil {
		text = w.escape(text)
	}
	w.str(text)
	if w.unclosed == nil || !w.unclosed(name) {
		w.str("</" + name + ">")
	}
}

// content writes the children of an aggregate.
func (w *writer) content(kids []*node) {
	var stack []string
	for _, k := range kids {
		path := k.f.path
		wrap := path
		if k.f.kinds == nil {
			wrap = path[:len(path)-1]
		}
		c := 0
		for c < len(stack) && c < len(wrap) && stack[c] == wrap[c] {
			c++
		}
		for len(stack) > c {
			w.close(stack[len(stack)-1])
			stack = stack[:len(stack)-1]
		}
		for _, p := range wrap[c:] {
			w.open(p)
			stack = append(stack, p)
		}
		switch {
		case k.f.kinds != nil:
			set := ""
			if k.typ == "MessageSet" {
				set = k.elem[:len(k.elem)-2]
				w.open(set)
			}
			w.open(k.elem)
			w.content(k.kids)
			w.close(k.elem)
			if set != "" {
				w.close(set)
			}
		case k.leaf != nil:
			w.value(path[len(path)-1], k.leaf.text)
		default:
			w.open(path[len(path)-1])
			w.content(k.kids)
			w.close(path[len(path)-1])
		}
	}
	for len(stack) > 0 {
		w.close(stack[len(stack)-1])
		stack = stack[:len(stack)-1]
	}
}

func xmlHeader(ver string) string {
	return `<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + "\n" + `<?OFX OFXHEADER="200" VERSION="` + ver + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>` + "\n"
}

func sgmlHeader(ver string) string {
	return "OFXHEADER:100\nDATA:OFXSGML\nVERSION:" + ver + "\nSECURITY:NONE\nENCODING:USASCII\nCHARSET:1252\nCOMPRESSION:NONE\nOLDFILEUID:NONE\nNEWFILEUID:NONE\n\n"
}

func header(ver string) string {
	if ver < "200" {
		return sgmlHeader(ver)
	}
	return xmlHeader(ver)
}

// message is a message of a response: its set, element and content.
type message struct {
	set, elem string
	kids      []*node
}

var responseKinds = map[string]message{
	"AcctInfoResponse":     {set: "SIGNUPMSGSRSV1", elem: "ACCTINFOTRNRS"},
	"StatementResponse":    {set: "BANKMSGSRSV1", elem: "STMTTRNRS"},
	"CCStatementResponse":  {set: "CREDITCARDMSGSRSV1", elem: "CCSTMTTRNRS"},
	"InvStatementResponse": {set: "INVSTMTMSGSRSV1", elem: "INVSTMTTRNRS"},
	"SecListResponse":      {set: "SECLISTMSGSRSV1", elem: "SECLISTTRNRS"},
	"SecurityList":         {set: "SECLISTMSGSRSV1", elem: "SECLIST"},
	"ProfileResponse":      {set: "PROFMSGSRSV1", elem: "PROFTRNRS"},
	"AcctInfoRequest":      {set: "SIGNUPMSGSRQV1", elem: "ACCTINFOTRNRQ"},
	"StatementRequest":     {set: "BANKMSGSRQV1", elem: "STMTTRNRQ"},
	"CCStatementRequest":   {set: "CREDITCARDMSGSRQV1", elem: "CCSTMTTRNRQ"},
	"InvStatementRequest":  {set: "INVSTMTMSGSRQV1", elem: "INVSTMTTRNRQ"},
	"SecListRequest":       {set: "SECLISTMSGSRQV1", elem: "SECLISTTRNRQ"},
	"ProfileRequest":       {set: "PROFMSGSRQV1", elem: "PROFTRNRQ"},
}

func (g *gen) message(name string) message {
	m := responseKinds[name]
	if m.elem == "" {
		panic("no message " + name)
	}
	m.kids = g.aggregate(schemas[name])
	return m
}

// document writes a response holding the given signon and messages; messages
// of the same set must be adjacent.
func (w *writer) document(ver string, signon []*node, msgs []message) string {
	w.str(header(ver))
	w.open("OFX")
	sgn, son := "SIGNONMSGSRSV1", "SONRS"
	if w.request {
		sgn, son = "SIGNONMSGSRQV1", "SONRQ"
	}
	w.open(sgn)
	w.open(son)
	w.content(signon)
	w.close(son)
	w.close(sgn)
	set := ""
	for _, m := range msgs {
		if m.set != set {
			if set != "" {
				w.close(set)
			}
			w.open(m.set)
			set = m.set
		}
		w.open(m.elem)
		w.content(m.kids)
		w.close(m.elem)
	}
	if set != "" {
		w.close(set)
	}
	w.close("OFX")
	w.gap()
	return string(w.b)
}

// ---- comparison with decoded values ----

func path(where, name string) string {
	if where == "" {
		return name
	}
	return where + "." + name
}

// matches asserts that a decoded aggregate holds exactly the given children.
func matches(where string, s *schema, kids []*node, rv reflect.Value) {
	i := 0
	for _, f := range s.fields {
		fv := rv.FieldByName(f.name)
		at := path(where, f.name)
		if !fv.IsValid() {
			v.Assert(false, at+" is gone")
		}
		var mine []*node
		for i < len(kids) && kids[i].f == f {
			mine = append(mine, kids[i])
			i++
		}
		if f.list {
			if fv.Kind() == reflect.Ptr {
				fv = fv.Elem()
			}
			if fv.Len() != len(mine) {
				v.Assert(false, at+" has "+itoa(fv.Len())+" entries instead of "+itoa(len(mine)))
			}
			for j, k := range mine {
				matchOne(at, k, fv.Index(j))
			}
			continue
		}
		if len(mine) == 0 {
			v.Assert(isZero(f, fv), at+" is set although its element is absent")
			continue
		}
		if f.ptr {
			if fv.IsNil() {
				v.Assert(false, at+" is not set although its element is present")
			}
			fv = fv.Elem()
		}
		matchOne(at, mine[0], fv)
	}
	if i != len(kids) {
		panic("matches: children out of order")
	}
}

func matchOne(at string, k *node, fv reflect.Value) {
	switch {
	case k.typ != "":
		if fv.Kind() == reflect.Interface {
			fv = fv.Elem()
			if fv.Kind() == reflect.Ptr {
				fv = fv.Elem()
			}
		}
		if fv.Type().Name() != k.typ {
			v.Assert(false, at+": "+k.elem+" is read as "+fv.Type().Name())
		}
		if k.typ == "MessageSet" {
			v.Assert(fv.FieldByName("Name").String() == k.elem, at+": wrong name of "+k.elem)
		}
		matches(path(at, k.elem), k.s, k.kids, fv)
	case k.s != nil:
		matches(at, k.s, k.kids, fv)
	default:
		v.Assert(leafIs(k.f, k.leaf, fv), at+" differs from its element")
	}
}

func leafIs(f *field, l *leafval, fv reflect.Value) bool {
	switch x := fv.Interface().(type) {
	case ofxgo.String:
		return string(x) == l.text
	case ofxgo.UID:
		return string(x) == l.text
	case ofxgo.Int:
		return int64(x) == l.num
	case ofxgo.Amount:
		neg, ip, fp, _ := decimal(l.text)
		return x.Cmp(ratOf(neg, ip, fp)) == 0
	case ofxgo.Date:
		return x.Time.Equal(l.date)
	case ofxgo.Boolean:
		return bool(x) == l.yes
	case ofxgo.CurrSymbol:
		return x.String() == l.text
	}
	return fv.Uint() == uint64(l.enum)
}

// isZero tells whether a field has the value of an absent element.
func isZero(f *field, fv reflect.Value) bool {
	if fv.Kind() == reflect.Ptr || fv.Kind() == reflect.Interface {
		return fv.IsNil()
	}
	if f.sub != nil {
		ok := true
		for _, g := range f.sub.fields {
			ok = v.And(ok, isZero(g, fv.FieldByName(g.name)))
		}
		return ok
	}
	switch x := fv.Interface().(type) {
	case ofxgo.String:
		return x == ""
	case ofxgo.UID:
		return x == ""
	case ofxgo.Int:
		return x == 0
	case ofxgo.Amount:
		return x.Sign() == 0
	case ofxgo.Date:
		return x.Time.IsZero()
	case ofxgo.Boolean:
		return !bool(x)
	case ofxgo.CurrSymbol:
		return x.String() == "XXX"
	}
	if fv.Kind() == reflect.Slice {
		return fv.Len() == 0
	}
	return fv.Uint() == 0
}

// ---- filling Go values ----

// fill sets the fields of an aggregate from the given children.
func fill(kids []*node, rv reflect.Value) {
	for _, k := range kids {
		fv := rv.FieldByName(k.f.name)
		if k.f.list {
			if fv.Kind() == reflect.Ptr {
				fv = fv.Elem()
			}
			t := fv.Type().Elem()
			x := reflect.New(t).Elem()
			if t.Kind() == reflect.Interface {
				y := reflect.New(goTypes[k.typ]).Elem()
				fillOne(k, y)
				x.Set(y)
			} else {
				fillOne(k, x)
			}
			fv.Set(reflect.Append(fv, x))
			continue
		}
		if k.f.ptr {
			fv.Set(reflect.New(fv.Type().Elem()))
			fv = fv.Elem()
		}
		fillOne(k, fv)
	}
}

func fillOne(k *node, fv reflect.Value) {
	if k.leaf == nil {
		if k.typ == "MessageSet" {
			fv.FieldByName("Name").SetString(k.elem)
		}
		fill(k.kids, fv)
		return
	}
	l := k.leaf
	switch x := fv.Addr().Interface().(type) {
	case *ofxgo.String:
		*x = ofxgo.String(l.text)
	case *ofxgo.UID:
		*x = ofxgo.UID(l.text)
	case *ofxgo.Int:
		*x = ofxgo.Int(l.num)
	case *ofxgo.Amount:
		neg, ip, fp, _ := decimal(l.text)
		x.Set(ratOf(neg, ip, fp))
	case *ofxgo.Date:
		x.Time = l.date
	case *ofxgo.Boolean:
		*x = ofxgo.Boolean(l.yes)
	case *ofxgo.CurrSymbol:
		*x = symbol(l.text)
	default:
		fv.SetUint(uint64(l.enum))
	}
}

// ---- reading written documents ----

// tokens splits a written document into its header and its elements: "<X>",
// "</X>" and texts, without the white space between elements. Missing closing
// elements are added after values.
func tokens(doc string) (head string, out []string) {
	i := strings.Index(doc, "<OFX>")
	if i < 0 {
		v.Assert(false, "the document lacks its OFX element")
	}
	head, doc = doc[:i], doc[i:]
	last := ""
	for len(doc) > 0 {
		if doc[0] == '<' {
			j := strings.IndexByte(doc, '>')
			if j < 0 {
				v.Assert(false, "an element is not ended")
			}
			t := doc[:j+1]
			doc = doc[j+1:]
			if last != "" {
				if t != last {
					out = append(out, last)
				}
				last = ""
			}
			out = append(out, t)
			continue
		}
		j := strings.IndexByte(doc, '<')
		if j < 0 {
			j = len(doc)
		}
		t := doc[:j]
		doc = doc[j:]
		if trimBlank(t) == "" {
			continue
		}
		if len(out) > 0 && out[len(out)-1][1] != '/' {
			last = "</" + out[len(out)-1][1:]
		}
		// only a line break may follow an unclosed value
		out = append(out, strings.TrimRight(t, "\r\n "))
	}
	return
}
