package p

import (
	"math/big"
	"strings"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
	"verif/harness/v"
)

// leaf decodes text as the content of one element.
func leaf(text string, dst interface{}) error {
	return xml.Unmarshal([]byte("<A>"+text+"</A>"), dst)
}

var blanks = []string{"", " ", "\r\n\t "}

// decimal reads text as [+-]digits[sep digits] and gives its digits.
func decimal(s string) (neg bool, ip, fp string, ok bool) {
	if s == "" {
		return
	}
	if s[0] == '-' {
		neg, s = true, s[1:]
	} else if s[0] == '+' {
		s = s[1:]
	}
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	ip = s[:i]
	if i < len(s) {
		if s[i] != '.' && s[i] != ',' {
			return
		}
		fp = s[i+1:]
		for j := 0; j < len(fp); j++ {
			if fp[j] < '0' || fp[j] > '9' {
				return
			}
		}
	}
	ok = len(ip)+len(fp) > 0
	return
}

func trimBlank(s string) string {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\n' || s[0] == '\t' || s[0] == '\r') {
		s = s[1:]
	}
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] == '\n' || s[len(s)-1] == '\t' || s[len(s)-1] == '\r') {
		s = s[:len(s)-1]
	}
	return s
}

func ratOf(neg bool, ip, fp string) *big.Rat {
	t := "0" + ip + "." + fp + "0"
	if neg {
		t = "-" + t
	}
	r, ok := new(big.Rat).SetString(t)
	v.Assert(ok, "the reference number")
	return r
}

// every text of up to 5 characters over digits, signs, separators and blanks
func C01_text() {
	n := v.Choose("n", 6)
	amountText(v.Str("s", n, "0-9.,+\\- \n"))
}

// every text of 6 characters over digits, signs, separators and blanks
func C01_text6_deep() {
	amountText(v.Str("s", 6, "0-9.,+\\- \n"))
}

func amountText(s string) {
	var a ofxgo.Amount
	err := leaf(s, &a)
	neg, ip, fp, ok := decimal(trimBlank(s))
	if !ok {
		v.Reach("refused")
		v.Assert(err != nil, "a text that is no number was accepted as an amount")
		return
	}
	v.Reach("number")
	if err != nil {
		v.Assert(false, "a decimal number was refused: "+err.Error())
	}
	v.Assert(a.Cmp(ratOf(neg, ip, fp)) == 0, "the amount differs from the number written")
}

var manyDigits = []int{0, 1, 2, 3, 9, 10, 18, 19, 20, 21, 39, 60, 101, 130}

func amountLong(ni, nf int) {
	sign := []string{"", "-", "+"}[v.Choose("sign", 3)]
	sep := ""
	if nf > 0 || v.Bool("dot") {
		sep = []string{".", ","}[v.Choose("sep", 2)]
	}
	pre, post := blanks[v.Choose("pre", 2)], blanks[2*v.Choose("post", 2)]
	ip, fp := v.Str("int", ni, "0-9"), v.Str("frac", nf, "0-9")
	var a ofxgo.Amount
	if v.Bool("used") {
		// a value decoded earlier must not shine through
		a.SetFrac64(7, 3)
	}
	if err := leaf(pre+sign+ip+sep+fp+post, &a); err != nil {
		v.Assert(false, "a decimal number was refused: "+err.Error())
	}
	v.Reach("number")
	v.Assert(a.Cmp(ratOf(sign == "-", ip, fp)) == 0, "the amount differs from the number written")
	v.Observe("sign", a.Sign())
}

// any digits, 14 lengths (0 to 130) of integer part by no or 2 decimals, and of fraction by 1 integer digit; all signs, both separators, blanks around
func C01_digits() {
	k := manyDigits[v.Choose("k", len(manyDigits))]
	if v.Bool("ints") {
		nf := 2 * v.Choose("nf", 2)
		if k+nf > 0 {
			amountLong(k, nf)
		}
		return
	}
	amountLong(1, k)
}

// integer and fraction lengths of 0, 5, 19, 20, 50 and 100 digits in all combinations
func C01_both() {
	l := []int{0, 5, 19, 20, 50, 100}
	a, b := l[v.Choose("a", 6)], l[v.Choose("b", 6)]
	if a+b > 0 {
		amountLong(a, b)
	}
}

// one or two bytes that belong to no number, anywhere among 0 to 4 digits
func C01_foreign() {
	n := v.Choose("n", 5)
	d := v.Str("d", n, "0-9")
	i := v.Choose("at", n+1)
	f := v.Str("f", 1+v.Choose("nf", 2), "g-nq-wy-zG-NQ-WY-Z$%()*#@!?:;='")
	var a ofxgo.Amount
	err := leaf(d[:i]+f+d[i:], &a)
	v.Reach("refused")
	v.Assert(err != nil, "a text that is no number was accepted as an amount")
}

// canonical checks that text is the shortest plain decimal form.
func canonical(t string) bool {
	neg, ip, fp, ok := decimal(t)
	if !ok || ip == "" || strings.Contains(t, ",") || t[0] == '+' {
		return false
	}
	if len(ip) > 1 && ip[0] == '0' {
		return false
	}
	if strings.Contains(t, ".") && (fp == "" || fp[len(fp)-1] == '0') {
		return false
	}
	return !neg || ip != "0" || fp != ""
}

type amountHolder struct {
	XMLName xml.Name     `xml:"H"`
	X       ofxgo.Amount `xml:"X"`
}

func amountPrint(neg bool, ip, fp string) {
	r := ratOf(neg, ip, fp)
	var a ofxgo.Amount
	a.Set(r)
	t := a.String()
	v.Observe("t", t)
	v.Assert(canonical(t), "not the shortest decimal form: "+t)
	var back ofxgo.Amount
	if err := leaf(t, &back); err != nil {
		v.Assert(false, "the printed amount is refused: "+err.Error())
	}
	v.Assert(back.Cmp(r) == 0, "printing changed the amount: "+t)
	v.Assert(back.Equal(a) && a.Equal(back), "an amount that was printed and read again is not equal to itself")
	v.Assert(a.Cmp(r) == 0, "printing changed the amount in place")
	h := amountHolder{X: a}
	out, err := xml.Marshal(&h)
	if err != nil {
		v.Assert(false, "the amount was not written: "+err.Error())
	}
	v.Assert(string(out) == "<H><X>"+t+"</X></H>", "the element differs from the printed amount: "+string(out))
	v.Reach("printed")
}

// any amount of 0 to 4 integer and 0 to 4 fraction digits, either sign
func C02_small() {
	ni, nf := v.Choose("ni", 5), v.Choose("nf", 5)
	amountPrint(v.Bool("neg"), v.Str("int", ni, "0-9"), v.Str("frac", nf, "0-9"))
}

// integers of 9 to 60 digits and fractions of 9 to 100 digits, either sign
func C02_long() {
	l := []int{9, 10, 18, 19, 20, 40, 60, 99, 100}
	k := l[v.Choose("k", len(l))]
	if v.Bool("ints") {
		amountPrint(v.Bool("neg"), v.Str("int", k, "0-9"), v.Str("frac", 2, "0-9"))
	} else {
		amountPrint(v.Bool("neg"), v.Str("int", 1, "0-9"), v.Str("frac", k, "0-9"))
	}
}

// fractions whose expansion is longer than 100 digits (thirds, sevenths, ... by numerators up to 60): the printed value is within 10^-100
func C02_inexact() {
	den := []int64{3, 6, 7, 9, 11, 13, 17}[v.Choose("den", 7)]
	num := int64(v.Range("num", 0, 60))
	neg := v.Bool("neg")
	num = int64(v.Concrete(int(num)))
	if neg {
		num = -num
	}
	var a ofxgo.Amount
	a.SetFrac64(num, den)
	var back ofxgo.Amount
	if err := leaf(a.String(), &back); err != nil {
		v.Assert(false, "the printed amount is refused: "+err.Error())
	}
	d := new(big.Rat).Sub(&back.Rat, &a.Rat)
	d.Abs(d)
	eps := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(100), nil))
	v.Assert(d.Cmp(eps) < 0, "printing an amount moved it by 10^-100 or more")
	v.Reach("printed")
}

// powers of two up to 2^62 and their neighbours by up to 2, and odd multiples of 2^-1 to 2^-60, either sign
func C02_binary() {
	var a ofxgo.Amount
	d := int64(v.Concrete(v.Range("near", -2, 2)))
	if v.Bool("whole") {
		a.SetInt64(int64(1)<<uint(v.Choose("power", 63)) + d)
	} else {
		a.SetFrac64(2*d+1, int64(1)<<uint(1+v.Choose("power", 60)))
	}
	if v.Bool("neg") {
		a.Neg(&a.Rat)
	}
	t := a.String()
	v.Assert(canonical(t), "not the shortest decimal form: "+t)
	var back ofxgo.Amount
	if err := leaf(t, &back); err != nil {
		v.Assert(false, "the printed amount is refused: "+err.Error())
	}
	v.Assert(back.Cmp(&a.Rat) == 0, "printing changed the amount: "+t)
	v.Reach("printed")
}

// equality of any two amounts of up to 2+3 digits each, either sign: exactly when they are the same number
func C02_equal() {
	var a, b ofxgo.Amount
	x := ratOf(v.Bool("na"), v.Str("ia", 1, "0-9"), v.Str("fa", v.Choose("la", 3), "0-9"))
	y := ratOf(v.Bool("nb"), v.Str("ib", 2, "0-9"), v.Str("fb", v.Choose("lb", 4), "0-9"))
	a.Set(x)
	b.Set(y)
	same := x.Cmp(y) == 0
	v.Assert(a.Equal(b) == same, "equality of amounts does not follow their values")
	v.Assert(b.Equal(a) == same, "equality of amounts is not symmetric")
	v.Assert(a.Equal(a), "an amount differs from itself")
	v.Reach("compared")
}
