package p

import (
	"strings"

	"github.com/aclindsa/xml"
	"verif/harness/v"
)

type enumerated interface {
	~uint
	Valid() bool
	String() string
	MarshalXML(*xml.Encoder, xml.StartElement) error
}

const (
	enumText = iota
	enumValue
	enumBlank
)

// enumWords maps each enumeration to its words.
var enumWords = map[string][]string{}

// enumVals maps each enumeration to its constants, in the order of the words.
var enumVals = map[string][]uint{}

// enumShow reads and prints all words of each enumeration, and tells what they
// are.
var enumShow []func() (got, want string)

func enumCase[T enumerated](name string, parse func(string) (T, error), texts []string, vals ...T) func(int) {
	enumWords[name] = texts
	for _, x := range vals {
		enumVals[name] = append(enumVals[name], uint(x))
	}
	enumShow = append(enumShow, func() (got, want string) {
		for _, t := range texts {
			want += t + ","
			if e, err := parse(" " + t); err == nil && e.Valid() {
				got += e.String() + ","
			}
		}
		return
	})
	return func(mode int) {
		switch mode {
		case enumText:
			// any text of the length of one of the words, or one more or less
			k := v.Choose("like", len(texts))
			n := len(texts[k]) - 1 + v.Choose("longer", 3)
			s := v.Str("text", n, "A-Z0-9 ")
			e, err := parse(s)
			t := trimBlank(s)
			for i := range texts {
				if t == texts[i] {
					if err != nil {
						v.Assert(false, name+": "+t+" is refused")
					}
					v.Assert(e == vals[i], name+": "+t+" is taken for another value")
					v.Assert(e.Valid(), name+": "+t+" gives an invalid value")
					v.Reach("word")
					return
				}
			}
			v.Reach("refused")
			v.Assert(err != nil, name+": a word outside the enumeration is accepted")
			v.Assert(!e.Valid(), name+": a refused word gives a valid value")
		case enumValue:
			// any value
			u := uint(v.Uint64("value"))
			e := T(u)
			v.Assert(e.Valid() == (u >= 1 && u <= uint(len(texts))), name+": the wrong values are valid")
			out, err := xml.Marshal(&struct {
				XMLName xml.Name `xml:"H"`
				X       T        `xml:"X"`
			}{X: e})
			if err != nil {
				v.Assert(false, name+": not written: "+err.Error())
			}
			for i := range texts {
				if e == vals[i] {
					v.Reach("value")
					v.Assert(e.Valid(), name+": a defined value is invalid")
					v.Assert(e.String() == texts[i], name+": "+texts[i]+" is printed as "+e.String())
					v.Assert(string(out) == "<H><X>"+texts[i]+"</X></H>", name+": "+texts[i]+" is written as "+string(out))
					return
				}
			}
			v.Reach("undefined")
			v.Assert(!e.Valid(), name+": an undefined value is valid")
			v.Assert(string(out) == "<H></H>", name+": an undefined value is written")
			v.Assert(strings.HasPrefix(T(0).String(), "invalid"), name+": the empty value prints like a word")
		case enumBlank:
			// every word with blanks around it, in an element; changed case
			k := v.Choose("word", len(texts))
			pre, post := blanks[v.Choose("pre", 3)], blanks[v.Choose("post", 3)]
			h := struct {
				XMLName xml.Name `xml:"H"`
				X       T        `xml:"X"`
			}{}
			err := xml.Unmarshal([]byte("<H><X>"+pre+texts[k]+post+"</X></H>"), &h)
			if err != nil {
				v.Assert(false, name+": "+texts[k]+" is refused in an element: "+err.Error())
			}
			v.Assert(h.X == vals[k], name+": "+texts[k]+" in an element is taken for another value")
			v.Reach("word")
			i := v.Choose("at", len(texts[k]))
			c := v.Byte("byte")
			v.Assume(c > ' ')
			v.Assume(c < 0x80)
			v.Assume(c != texts[k][i])
			w := texts[k][:i] + string([]byte{c}) + texts[k][i+1:]
			for j := range texts {
				v.Assume(w != texts[j])
			}
			_, err = parse(w)
			v.Assert(err != nil, name+": a changed word is accepted")
		}
	}
}

// each of the 41 enumerations, any text over A-Z0-9 and blanks as long as one of its words, or one byte longer or shorter
func C06_text() { enums[v.Choose("enum", len(enums))](enumText) }

// each of the 41 enumerations, any 64-bit value
func C06_value() { enums[v.Choose("enum", len(enums))](enumValue) }

// each word of the 41 enumerations with blanks around, and with any one byte changed to any other printable one
func C06_blank() { enums[v.Choose("enum", len(enums))](enumBlank) }
