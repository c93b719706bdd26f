package p

import (
	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
	"strings"
	"time"

	"verif/harness/v"
)

// as converts a number to an enumeration or version.
func as[T ~uint](like T, u uint) T { return T(u) }

// versions lists the supported versions, oldest first.
var versionText = []string{"102", "103", "151", "160", "200", "201", "202", "203", "210", "211", "220"}

// sized is a text of 0 to max bytes.
func sized(label string, max int, class string) string {
	return v.Str(label, v.Choose(label+" length", max+1), class)
}

// around is a text whose length is near one of the given limits.
func around(label string, limits ...int) string { return aroundIn(label, "", limits...) }

func aroundIn(label, class string, limits ...int) string {
	var ns []int
	for n := 0; n <= 2; n++ {
		ns = append(ns, n)
	}
	for _, l := range limits {
		if l > 3 {
			ns = append(ns, l-1)
		}
		if l >= 3 {
			ns = append(ns, l, l+1)
		} else {
			ns = append(ns, 3)
		}
		ns = append(ns, l+20)
	}
	n := ns[v.Choose(label+" length", len(ns))]
	if n <= 1 {
		return v.Str(label, n, class)
	}
	return v.Str(label, 1, class) + strings.Repeat("x", n-1)
}

// Signon requests: two fields at a time (all pairs) around their limits, the
// others valid; the contents of one byte of each arbitrary; any version value;
// every other field set or unset.
func C20_request() {
	ver := as(ofxgo.OfxVersion102, uint(v.Range("version", 0, 12)))
	r := ofxgo.SignonRequest{UserID: "user", UserPass: "pass", Language: "ENG", Org: "o", Fid: "f", AppID: "OFXGO", AppVer: "0001"}
	signonExtras(&r)
	set := func(i int) {
		switch i {
		case 0:
			r.UserID = ofxgo.String(around("user", 32))
		case 1:
			r.UserPass = ofxgo.String(around("pass", 32))
		case 2:
			r.UserKey = ofxgo.String(around("key", 64))
		case 3:
			r.Language = ofxgo.String(around("language", 3))
		case 4:
			r.AppID = ofxgo.String(around("app", 5))
		case 5:
			r.AppVer = ofxgo.String(around("appver", 4))
		}
	}
	i := v.Choose("first", 6)
	set(i)
	j := v.Choose("second", 6)
	if j < i {
		set(j)
	} else if j > i {
		return
	}
	lang := r.Language
	ok, err := r.Valid(ver)
	want := len(r.UserID) >= 1 && len(r.UserID) <= 32 &&
		(len(r.UserPass) > 0) != (len(r.UserKey) > 0) && len(r.UserPass) <= 32 && len(r.UserKey) <= 64 &&
		(len(lang) == 0 || len(lang) == 3) &&
		len(r.AppID) >= 1 && len(r.AppID) <= 5 && len(r.AppVer) >= 1 && len(r.AppVer) <= 4
	v.Assert(ok == want, "signon request validity")
	v.Assert(ok == (err == nil), "validity and error differ")
	if ok {
		v.Reach("valid")
		if lang == "" {
			v.Assert(r.Language == "ENG", "language is not set to ENG")
		} else {
			v.Assert(r.Language == lang, "language changed")
		}
	} else {
		v.Reach("invalid")
	}
}

// signonExtras sets the fields that play no part in validity.
func signonExtras(r *ofxgo.SignonRequest) {
	r.GenUserKey = ofxgo.Boolean(v.Bool("genuserkey"))
	if v.Bool("extras") {
		r.Org, r.Fid = ofxgo.String(v.Str("org", 1, "")), ofxgo.String(v.Str("fid", 2, ""))
		r.ClientUID = ofxgo.UID(v.Str("clientuid", 40, ""))
		r.DtClient = *ofxgo.NewDateGMT(2020, 1, 2, 3, 4, 5, 6)
	} else {
		r.Org, r.Fid = "", ""
	}
}

// Password and user key together, of every length around the limits.
func C20_secrets() {
	r := ofxgo.SignonRequest{UserID: "user", Language: "ENG", AppID: "OFXGO", AppVer: "0001"}
	signonExtras(&r)
	r.UserPass = ofxgo.String(around("pass", 32, 64))
	r.UserKey = ofxgo.String(around("key", 32, 64))
	ok, err := r.Valid(ofxgo.OfxVersion203)
	np, nk := len(r.UserPass), len(r.UserKey)
	v.Assert(ok == (np == 0 && nk >= 1 && nk <= 64 || nk == 0 && np >= 1 && np <= 32), "password and key rules")
	v.Assert(ok == (err == nil), "validity and error differ")
}

// Signon responses: languages of 0 to 5 arbitrary bytes, any 64-bit status
// code, severities of INFO, WARN, ERROR and other texts.
func C20_response() {
	ver := as(ofxgo.OfxVersion102, uint(v.Range("version", 0, 12)))
	var r ofxgo.SignonResponse
	r.Language = ofxgo.String(sized("language", 5, ""))
	r.Status.Code = ofxgo.Int(v.Int64("code"))
	r.Status.Severity = ofxgo.String([]string{"INFO", "WARN", "ERROR", "", "info", "OK"}[v.Choose("severity", 6)])
	ok, err := r.Valid(ver)
	v.Assert(ok == (len(r.Language) == 3 && statusOK(int64(r.Status.Code), string(r.Status.Severity))), "signon response validity")
	v.Assert(ok == (err == nil), "validity and error differ")
	if ok {
		v.Reach("valid")
	}
}

// statusOK decides whether the specification has this code with this severity.
func statusOK(code int64, sev string) bool {
	c := false
	for i := range statusTable {
		if statusTable[i].sev == sev {
			c = v.Or(c, code == int64(statusTable[i].code))
		}
	}
	return c
}

// Statuses: any 64-bit code and any severity of 0 to 6 bytes; the message
// plays no part.
func C21_valid() {
	var s ofxgo.Status
	s.Code = ofxgo.Int(v.Int64("code"))
	s.Severity = ofxgo.String(sized("severity", 6, ""))
	s.Message = ofxgo.String(v.Str("message", 1, ""))
	ok, err := s.Valid()
	sev := string(s.Severity)
	want := v.Or(v.And(sev == "INFO", statusOK(int64(s.Code), "INFO")), v.And(sev == "WARN", statusOK(int64(s.Code), "WARN")), v.And(sev == "ERROR", statusOK(int64(s.Code), "ERROR")))
	v.Assert(ok == want, "status validity")
	v.Assert(ok == (err == nil), "validity and error differ")
	if ok {
		v.Reach("valid " + sev)
	}
}

// Meanings of all 64-bit codes.
func C21_meaning() {
	var s ofxgo.Status
	code := v.Int64("code")
	s.Code = ofxgo.Int(code)
	m, err := s.CodeMeaning()
	c, err2 := s.CodeConditions()
	known := false
	for i := range statusTable {
		known = v.Or(known, code == int64(statusTable[i].code))
	}
	v.Assert((err == nil) == known, "meaning of known codes only")
	v.Assert((err2 == nil) == known, "conditions of known codes only")
	if err != nil {
		v.Assert(m == "" && c == "", "meaning of an unknown code")
		v.Reach("unknown")
		return
	}
	for i := range statusTable {
		t := &statusTable[i]
		v.Assert(v.Implies(code == int64(t.code), m == t.mean), "wrong meaning")
		v.Assert(v.Implies(code == int64(t.code), strings.HasPrefix(c, t.condition)), "wrong conditions")
	}
	v.Reach("known")
}

// ---- statement rules ----

func someDate(day int) ofxgo.Date {
	return *ofxgo.NewDate(2020, time.March, day, 10, 11, 12, 0, time.UTC)
}

func datePtr(day int) *ofxgo.Date { d := someDate(day); return &d }

// amount reads an amount through the public interface.
func amount(s string) ofxgo.Amount {
	var h struct {
		XMLName xml.Name     `xml:"H"`
		A       ofxgo.Amount `xml:"A"`
	}
	if err := xml.Unmarshal([]byte("<H><A>"+s+"</A></H>"), &h); err != nil {
		panic(err)
	}
	return h.A
}

func symbol(s string) ofxgo.CurrSymbol {
	c, err := ofxgo.NewCurrSymbol(s)
	if err != nil {
		panic(err)
	}
	return *c
}

// currencies: none, valid ones, and ones invalid in each way
func currencyOf(label string) *ofxgo.Currency {
	switch v.Choose(label, 7) {
	case 0:
		return nil
	case 1:
		return &ofxgo.Currency{CurRate: amount("1.3"), CurSym: symbol("USD")}
	case 2:
		return &ofxgo.Currency{CurRate: amount("0"), CurSym: symbol("USD")}
	case 3:
		return &ofxgo.Currency{CurRate: amount("1"), CurSym: symbol("XXX")}
	case 4:
		return &ofxgo.Currency{CurRate: amount("36893488147419103232"), CurSym: symbol("EUR")}
	case 5:
		return &ofxgo.Currency{CurRate: amount("-0.00000000000000000000001"), CurSym: symbol("JPY")}
	}
	return &ofxgo.Currency{}
}

func currencyOK(c *ofxgo.Currency) bool {
	return c != nil && c.CurRate.Sign() != 0 && c.CurSym.String() != "XXX"
}

func acctOK(a *ofxgo.BankAcct) bool {
	return len(a.BankID) > 0 && len(a.AcctID) > 0 && acctTypeOK(uint(a.AcctType))
}

func acctTypeOK(u uint) bool { return v.And(u >= 1, u <= 5) }

func payeeOK(p *ofxgo.Payee) bool {
	return len(p.Name) > 0 && len(p.Addr1) > 0 && len(p.City) > 0 && len(p.State) > 0 && len(p.PostalCode) > 0 &&
		(len(p.Country) == 0 || len(p.Country) == 3) && len(p.Phone) > 0
}

func balanceOK(b *ofxgo.Balance) bool {
	return v.And(len(b.Name) > 0, len(b.Desc) > 0, uint(b.BalType) >= 1, uint(b.BalType) <= 3)
}

// v220 reports whether a version has what came with 2.2.
func v220(ver uint) bool { return ver >= uint(ofxgo.OfxVersion220) }

func transactionOK(t *ofxgo.Transaction, new bool) bool {
	tt := uint(t.TrnType)
	ok := v.And(tt >= 1, tt <= 18, tt != 17, !t.DtPosted.Equal(ofxgo.Date{}), len(t.FiTID) > 0)
	ok = v.And(ok, v.Or(len(t.CorrectFiTID) == 0, uint(t.CorrectAction) == 1, uint(t.CorrectAction) == 2))
	ok = v.And(ok, len(t.Name) == 0 || t.Payee == nil, t.Payee == nil || payeeOK(t.Payee))
	ok = v.And(ok, t.BankAcctTo == nil || t.CCAcctTo == nil)
	if t.BankAcctTo != nil {
		ok = v.And(ok, acctOK(t.BankAcctTo))
	}
	if t.CCAcctTo != nil {
		ok = v.And(ok, len(t.CCAcctTo.AcctID) > 0)
	}
	ok = v.And(ok, v.Or(len(t.ImageData) == 0, v.And(new, len(t.ImageData) <= 2)))
	return v.And(ok, !(currencyOK(t.Currency) && currencyOK(t.OrigCurrency)))
}

func transaction() ofxgo.Transaction {
	return ofxgo.Transaction{TrnType: ofxgo.TrnTypeCheck, DtPosted: someDate(1), TrnAmt: amount("-3.5"), FiTID: "1", Name: "n"}
}

func payee() *ofxgo.Payee {
	return &ofxgo.Payee{Name: "n", Addr1: "a", City: "c", State: "s", PostalCode: "p", Country: "USA", Phone: "1"}
}

func payeeField(p *ofxgo.Payee, label string) {
	s := ofxgo.String(sized(label, 4, ""))
	switch v.Choose(label+" field", 9) {
	case 0:
		p.Name = s
	case 1:
		p.Addr1 = s
	case 2:
		p.City = s
	case 3:
		p.State = s
	case 4:
		p.PostalCode = s
	case 5:
		p.Country = s
	case 6:
		p.Phone = s
	case 7:
		p.Addr2 = s
	case 8:
		p.Addr3 = s
	}
}

func acctField(a *ofxgo.BankAcct, label string) {
	switch v.Choose(label+" field", 4) {
	case 0:
		a.BankID = ofxgo.String(sized(label, 1, ""))
	case 1:
		a.AcctID = ofxgo.String(sized(label, 1, ""))
	case 2:
		a.AcctType = as(a.AcctType, uint(v.Uint64(label+" type")))
	case 3:
		a.BranchID = ofxgo.String(sized(label, 1, ""))
		a.AcctKey = a.BranchID
	}
}

const transactionFields = 14

func transactionField(t *ofxgo.Transaction, i int) {
	switch i {
	case 0:
		t.TrnType = as(t.TrnType, uint(v.Uint64("type")))
	case 1:
		if v.Bool("no date") {
			t.DtPosted = ofxgo.Date{}
		} else {
			t.DtPosted = ofxgo.Date{Time: time.Unix(v.Int64("posted")>>16, 0)}
		}
	case 2:
		t.FiTID = ofxgo.String(sized("fitid", 1, ""))
	case 3:
		t.CorrectFiTID = ofxgo.String(sized("correctfitid", 1, ""))
	case 4:
		t.CorrectAction = as(t.CorrectAction, uint(v.Uint64("action")))
	case 5:
		t.Name = ofxgo.String(sized("name", 1, ""))
	case 6:
		t.Payee = payee()
		payeeField(t.Payee, "payee")
	case 7:
		t.BankAcctTo = &ofxgo.BankAcct{BankID: "1", AcctID: "2", AcctType: ofxgo.AcctTypeSavings}
		acctField(t.BankAcctTo, "bank")
	case 8:
		t.CCAcctTo = &ofxgo.CCAcct{AcctID: ofxgo.String(sized("ccacct", 1, ""))}
	case 9:
		t.ImageData = make([]ofxgo.ImageData, v.Choose("images", 5))
	case 10:
		t.Currency = currencyOf("currency")
	case 11:
		t.OrigCurrency = currencyOf("origcurrency")
	case 12:
		// what plays no part
		x := ofxgo.String(v.Str("other", 1, ""))
		t.DtUser, t.DtAvail = datePtr(0), datePtr(31)
		t.TrnAmt = amount([]string{"0", "5"}[v.Choose("amount", 2)])
		t.SrvrTID, t.CheckNum, t.RefNum, t.PayeeID, t.ExtdName, t.Memo = x, x, x, x, x, x
		t.SIC = ofxgo.Int(v.Int64("sic"))
		t.Inv401kSource = as(t.Inv401kSource, uint(v.Uint64("source")))
	case 13:
		t.DtUser, t.DtAvail = &ofxgo.Date{}, &ofxgo.Date{}
		t.Name = ""
	}
}

// pair chooses one or two of n fields.
func pair(n int, set func(i int)) {
	i := v.Choose("first", n)
	j := v.Choose("second", i+1)
	set(i)
	if j < i {
		set(j)
	}
}

// Bank transactions: every pair of fields at a time absent, valid or invalid
// (types, actions and account types any 64-bit number, texts of up to 1 byte,
// any second as date, up to 4 images, all kinds of currencies), any version.
func C22_transaction() {
	t := transaction()
	pair(transactionFields, func(i int) { transactionField(&t, i) })
	ver := uint(v.Range("version", 1, 11))
	ok, err := t.Valid(as(ofxgo.OfxVersion102, ver))
	v.Assert(ok == transactionOK(&t, v220(ver)), "transaction validity")
	v.Assert(ok == (err == nil), "validity and error differ")
	if ok {
		v.Reach("valid")
	} else {
		v.Reach("invalid")
	}
}

// Payees: every pair of fields of 0 to 4 arbitrary bytes.
func C22_payee() {
	p := payee()
	payeeField(p, "one")
	payeeField(p, "two")
	ok, err := p.Valid()
	v.Assert(ok == payeeOK(p), "payee validity")
	v.Assert(ok == (err == nil), "validity and error differ")
}

// Accounts: texts of up to 2 bytes, any account type value; credit card
// accounts; currencies with a rate of up to 6 symbolic digits.
func C22_parts() {
	switch v.Choose("part", 5) {
	case 0:
		a := ofxgo.BankAcct{BankID: ofxgo.String(sized("bank", 2, "")), AcctID: ofxgo.String(sized("acct", 2, "")), AcctType: as(ofxgo.AcctTypeChecking, uint(v.Uint64("type")))}
		ok, err := a.Valid()
		v.Assert(ok == acctOK(&a), "account validity")
		v.Assert(ok == (err == nil), "validity and error differ")
	case 1:
		a := ofxgo.CCAcct{AcctID: ofxgo.String(sized("acct", 2, "")), AcctKey: ofxgo.String(sized("key", 1, ""))}
		ok, err := a.Valid()
		v.Assert(ok == (len(a.AcctID) > 0), "credit card account validity")
		v.Assert(ok == (err == nil), "validity and error differ")
	case 2:
		c := currencyOf("currency")
		if c == nil {
			return
		}
		ok, err := c.Valid()
		v.Assert(ok == currencyOK(c), "currency validity")
		v.Assert(ok == (err == nil), "validity and error differ")
	case 3:
		d := v.Str("digits", 6, "0-9")
		c := ofxgo.Currency{CurRate: amount([]string{"", "-"}[v.Choose("sign", 2)] + d[:3] + "." + d[3:]), CurSym: symbol("GBP")}
		ok, _ := c.Valid()
		v.Assert(ok == (d != "000000"), "currency rate")
	case 4:
		b := ofxgo.Balance{Name: ofxgo.String(sized("name", 2, "")), Desc: ofxgo.String(sized("desc", 2, "")), BalType: as(ofxgo.BalTypeDollar, uint(v.Uint64("type"))), Currency: currencyOf("currency")}
		ok, err := b.Valid()
		v.Assert(ok == balanceOK(&b), "balance validity")
		v.Assert(ok == (err == nil), "validity and error differ")
	}
}

// Pending transactions: type any 64-bit number, date and name present or not,
// all kinds of currencies.
func C22_pending() {
	t := ofxgo.PendingTransaction{TrnType: as(ofxgo.TrnTypeCheck, uint(v.Uint64("type"))), Name: ofxgo.String(sized("name", 1, ""))}
	if v.Bool("dated") {
		t.DtTran = someDate(1)
	}
	if v.Bool("extras") {
		t.DtExpire = datePtr(0)
		t.TrnAmt = amount("7")
		t.RefNum, t.ExtdName, t.Memo = "r", "e", "m"
		t.ImageData = make([]ofxgo.ImageData, 3)
	}
	c, o := currencyOf("currency"), currencyOf("origcurrency")
	if c != nil {
		t.Currency = *c
	}
	if o != nil {
		t.OrigCurrency = *o
	}
	want := pendingOK(&t)
	ok, err := t.Valid()
	v.Assert(ok == want, "pending transaction validity")
	v.Assert(ok == (err == nil), "validity and error differ")
	l := ofxgo.PendingTransactionList{Transactions: []ofxgo.PendingTransaction{t}}
	if v.Bool("list dated") {
		l.DtAsOf = someDate(2)
	}
	ok, err = l.Valid()
	v.Assert(ok == v.And(want, !l.DtAsOf.Equal(ofxgo.Date{})), "pending list validity")
	v.Assert(ok == (err == nil), "validity and error differ")
}

func pendingOK(t *ofxgo.PendingTransaction) bool {
	tt := uint(t.TrnType)
	return v.And(tt >= 1, tt <= 18, !t.DtTran.Equal(ofxgo.Date{}), len(t.Name) > 0, !(currencyOK(&t.Currency) && currencyOK(&t.OrigCurrency)))
}

// Statements: every pair of deviations of the statement, its lists, and the
// first, middle or last of three transactions, pending transactions and
// balances; any version.
func C22_statement() {
	ver := uint(v.Range("version", 1, 11))
	s := ofxgo.StatementResponse{TrnUID: "1", CurDef: symbol("USD"), DtAsOf: someDate(9),
		Status:       ofxgo.Status{Code: 0, Severity: "INFO"},
		BankAcctFrom: ofxgo.BankAcct{BankID: "1", AcctID: "2", AcctType: ofxgo.AcctTypeChecking}}
	list := func() *ofxgo.TransactionList {
		if s.BankTranList == nil {
			s.BankTranList = &ofxgo.TransactionList{DtStart: someDate(1), DtEnd: someDate(2), Transactions: []ofxgo.Transaction{transaction(), transaction(), transaction()}}
		}
		return s.BankTranList
	}
	pending := func() *ofxgo.PendingTransactionList {
		if s.BankTranListP == nil {
			t := ofxgo.PendingTransaction{TrnType: ofxgo.TrnTypeHold, DtTran: someDate(3), Name: "x"}
			s.BankTranListP = &ofxgo.PendingTransactionList{DtAsOf: someDate(4), Transactions: []ofxgo.PendingTransaction{t, t, t}}
		}
		return s.BankTranListP
	}
	pair(14, func(i int) {
		switch i {
		case 12:
			a := amount("5")
			s.BalAmt, s.CashAdvBalAmt, s.IntRate = a, &a, &a
			s.CltCookie, s.MktgInfo, s.Status.Message = "c", "m", "x"
		case 13:
			list().Transactions = nil
			pending().Transactions = nil
		case 0:
			s.TrnUID = ofxgo.UID(around("uid", 36))
		case 1:
			s.Status.Code = ofxgo.Int(v.Int64("code"))
		case 2:
			s.CurDef = symbol([]string{"EUR", "XXX"}[v.Choose("curdef", 2)])
		case 3:
			acctField(&s.BankAcctFrom, "from")
		case 4:
			s.DtAsOf = ofxgo.Date{}
		case 5:
			if v.Bool("avail") {
				a := amount("5")
				s.AvailBalAmt = &a
			}
		case 6:
			if v.Bool("avail date") {
				s.AvailDtAsOf = datePtr(5)
			}
		case 7:
			if v.Bool("start") {
				list().DtStart = ofxgo.Date{}
			}
		case 8:
			list().DtEnd = ofxgo.Date{}
		case 9:
			if len(list().Transactions) == 0 {
				return
			}
			transactionField(&list().Transactions[v.Choose("transaction", 3)], v.Choose("field", transactionFields))
		case 10:
			switch k := v.Choose("pending", 14); k {
			case 0, 1, 2:
				if len(pending().Transactions) > 0 {
					pending().Transactions[k].Name = ""
				}
			case 3:
				pending().DtAsOf = ofxgo.Date{}
			case 4:
				pending()
			case 5, 6, 7:
				if len(pending().Transactions) > 0 {
					pending().Transactions[k-5].DtTran = ofxgo.Date{}
				}
			case 8, 9, 10:
				if len(pending().Transactions) > 0 {
					pending().Transactions[k-8].TrnType = as(ofxgo.TrnTypeHold, uint(v.Uint64("type")))
				}
			case 11, 12, 13:
				if len(pending().Transactions) > 0 {
					t := &pending().Transactions[k-11]
					c := ofxgo.Currency{CurRate: amount("2"), CurSym: symbol("EUR")}
					t.Currency, t.OrigCurrency = c, c
				}
			}
		case 11:
			b := ofxgo.Balance{Name: "n", Desc: "d", BalType: ofxgo.BalTypeNumber}
			s.BalList = []ofxgo.Balance{b, b, b}
			s.BalList[v.Choose("balance", 3)].Name = ofxgo.String(sized("balance name", 1, ""))
		}
	})
	ok, err := s.Valid(as(ofxgo.OfxVersion102, ver))
	want := v.And(len(s.TrnUID) >= 1, len(s.TrnUID) <= 36, statusOK(int64(s.Status.Code), "INFO"), s.CurDef.String() != "XXX", acctOK(&s.BankAcctFrom),
		!s.DtAsOf.Equal(ofxgo.Date{}), (s.AvailBalAmt == nil) == (s.AvailDtAsOf == nil))
	if l := s.BankTranList; l != nil {
		want = v.And(want, !l.DtStart.Equal(ofxgo.Date{}), !l.DtEnd.Equal(ofxgo.Date{}))
		for i := range l.Transactions {
			want = v.And(want, transactionOK(&l.Transactions[i], v220(ver)))
		}
	}
	if l := s.BankTranListP; l != nil {
		want = v.And(want, v220(ver), !l.DtAsOf.Equal(ofxgo.Date{}))
		for i := range l.Transactions {
			want = v.And(want, pendingOK(&l.Transactions[i]))
		}
	}
	for i := range s.BalList {
		want = v.And(want, balanceOK(&s.BalList[i]))
	}
	v.Assert(ok == want, "statement validity")
	v.Assert(ok == (err == nil), "validity and error differ")
	if ok {
		v.Reach("valid")
	} else {
		v.Reach("invalid")
	}
}
