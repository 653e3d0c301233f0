package parse

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"unicode/utf8"

	fields "github.com/madkins23/go-slog/internal/json"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// tokens of a JSON text; concatenated they are the text.
type tokens []string

func (ts tokens) String() string { return strings.Join(ts, "") }

var keyPool = []string{"a", "b", "msg", "level", "time", "Fields", "field", "fields", "", "a.b", "x\"y", "t\tb", "ü", "日本", "\\", "/", "a b", "😀", "{", "}", ",", "[]"}

// quote writes s as a JSON string choosing freely among the possible escapes.
func quote(t *rapid.T, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	style := rapid.IntRange(0, 3).Draw(t, "escapes")
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			b.WriteByte(s[i])
			i++
			continue
		}
		i += n
		must := r < 0x20 || r == '"' || r == '\\'
		esc := must || style == 2 || (style == 1 && rapid.Bool().Draw(t, "esc"))
		if !esc {
			b.WriteRune(r)
			continue
		}
		short := strings.IndexRune("\"\\/\b\f\n\r\t", r)
		switch {
		case short >= 0 && rapid.Bool().Draw(t, "short"):
			b.WriteByte('\\')
			b.WriteByte("\"\\/bfnrt"[short])
		case r > 0xffff:
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
		case rapid.Bool().Draw(t, "upper"):
			fmt.Fprintf(&b, `\u%04X`, r)
		default:
			fmt.Fprintf(&b, `\u%04x`, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

type jgen struct {
	t      *rapid.T
	ts     tokens
	spaces int
}

func (g *jgen) tok(s string) {
	g.space()
	g.ts = append(g.ts, s)
	g.space()
}

func (g *jgen) space() {
	if g.spaces > 0 && rapid.IntRange(0, 7).Draw(g.t, "space") < g.spaces {
		g.ts = append(g.ts, rapid.StringOfN(rapid.RuneFrom([]rune(" \t\r\n")), 1, 3, -1).Draw(g.t, "blank"))
	}
}

var numbers = []string{"0", "-0", "1", "-1", "42", "3.25", "-0.5", "1e9", "1E+3", "2.5e-10", "12345678901234567890123", "1e400", "0.1", "-7E0"}

func (g *jgen) value(depth int) {
	n := 5
	if depth > 0 {
		n = 9
	}
	switch rapid.IntRange(0, n).Draw(g.t, "kind") {
	case 0:
		g.tok(rapid.SampledFrom(numbers).Draw(g.t, "number"))
	case 1:
		g.tok(rapid.SampledFrom([]string{"true", "false", "null"}).Draw(g.t, "word"))
	case 2, 3:
		g.tok(quote(g.t, kit.WildText(g.t, "text")))
	case 4:
		// Looks like JSON.
		g.tok(quote(g.t, rapid.SampledFrom([]string{`{"a":1,"a":2}`, `"}`, `\`, `\"`, `,"x":`, `]`, "[", `"`}).Draw(g.t, "text")))
	case 5:
		g.tok(rapid.SampledFrom([]string{"{}", "[]", `""`, "{ }", "[ ]"}).Draw(g.t, "empty"))
	case 6, 7:
		g.tok("[")
		for i := rapid.IntRange(0, 3).Draw(g.t, "items"); i > 0; i-- {
			g.value(depth - 1)
			if i > 1 {
				g.tok(",")
			}
		}
		g.tok("]")
	default:
		g.object(depth-1, 3, true)
	}
}

// object generates an object. Members called fields are left out of members of fields.
func (g *jgen) object(depth, max int, allowFields bool) {
	g.tok("{")
	for i := rapid.IntRange(0, max).Draw(g.t, "members"); i > 0; i-- {
		key := rapid.SampledFrom(keyPool[:8]).Draw(g.t, "key")
		switch rapid.IntRange(0, 3).Draw(g.t, "keyKind") {
		case 0:
			key = rapid.SampledFrom(keyPool).Draw(g.t, "oddKey")
		case 1:
			key = kit.WildText(g.t, "wildKey")
		}
		if !allowFields && key == "fields" {
			key = "fielde"
		}
		g.tok(quote(g.t, key))
		g.tok(":")
		if key == "fields" && depth > 0 && rapid.Bool().Draw(g.t, "fieldsObject") {
			g.object(depth-1, 4, false)
		} else {
			g.value(depth)
		}
		if i > 1 {
			g.tok(",")
		}
	}
	g.tok("}")
}

func genObject(t *rapid.T) tokens {
	g := &jgen{t: t, spaces: rapid.SampledFrom([]int{0, 0, 2, 6}).Draw(t, "spaces")}
	g.object(rapid.IntRange(0, 4).Draw(t, "depth"), 7, true)
	if n := kit.Size(t, "deep", 60, 7, 12, 25, 60, 130, 300, 1100, 2500); n > 0 {
		g.member(g.deep(n))
	}
	if n := kit.Size(t, "wide", 60, 10, 18, 45, 70, 130, 350, 1100); n > 0 {
		var ts tokens
		for i := 0; i < n; i++ {
			ts = append(ts, fmt.Sprintf("%q", fmt.Sprint("w", i)), ":", numbers[i%len(numbers)], ",")
		}
		g.member(ts[:len(ts)-1])
	}
	if n := kit.Size(t, "often", 60, 6, 11, 18, 40, 70, 270, 1100); n > 0 {
		var ts tokens
		name := rapid.SampledFrom([]string{`"again"`, `"a"`, `"msg"`}).Draw(t, "name")
		for i := 0; i < n; i++ {
			ts = append(ts, name, ":", numbers[i%len(numbers)], ",")
		}
		g.member(ts[:len(ts)-1])
	}
	return g.ts
}

// deep is a member with n arrays or objects within each other.
func (g *jgen) deep(n int) tokens {
	mix := rapid.SampledFrom([]int{1, 2, 3, 1000000}).Draw(g.t, "mix")
	ts := tokens{`"deep"`, ":"}
	var ends tokens
	if rapid.Bool().Draw(g.t, "within") {
		ts, ends = tokens{`"fields"`, ":", "{", `"deep"`, ":"}, tokens{"}"}
	}
	for i := 0; i < n; i++ {
		if i%mix == mix-1 {
			ts, ends = append(ts, "{", `"d"`, ":"), append(ends, "}")
		} else {
			ts, ends = append(ts, "["), append(ends, "]")
		}
	}
	ts = append(ts, "1")
	for i := range ends {
		end := ends[len(ends)-1-i]
		if i%5 == 4 && end == "]" {
			ts = append(ts, ",", "{", "}")
		}
		ts = append(ts, end)
	}
	return ts
}

// member adds members to the object at its start or end.
func (g *jgen) member(m tokens) {
	first, last := 0, len(g.ts)-1
	for g.ts[first] != "{" {
		first++
	}
	for g.ts[last] != "}" {
		last--
	}
	empty := strings.TrimSpace(g.ts[first+1:last].String()) == ""
	var ts tokens
	if rapid.Bool().Draw(g.t, "front") {
		ts = append(append(ts, g.ts[:first+1]...), m...)
		if !empty {
			ts = append(ts, ",")
		}
		ts = append(ts, g.ts[first+1:]...)
	} else {
		ts = append(ts, g.ts[:last]...)
		if !empty {
			ts = append(ts, ",")
		}
		ts = append(append(ts, m...), g.ts[last:]...)
	}
	g.ts = ts
}

// walk counts fields with the decoder of the standard library.
// ok tells that the text has no member fields within an object fields.
func walk(src string) (counts map[string]uint, ok bool) {
	counts, ok = map[string]uint{}, true
	dec := json.NewDecoder(strings.NewReader(src))
	dec.UseNumber()
	next := func() json.Token {
		tok, err := dec.Token()
		if err != nil {
			panic(fmt.Sprintf("VERIF-HARNESS-ERROR %v in %q", err, src))
		}
		return tok
	}
	var object func(count, within bool)
	object = func(count, within bool) {
		for dec.More() {
			key := next().(string)
			if count {
				counts[key]++
				if within && key == "fields" {
					ok = false
				}
			}
			switch tok := next(); tok {
			case json.Delim('{'):
				if count && key == "fields" {
					if counts[key]--; counts[key] == 0 {
						delete(counts, key)
					}
					object(true, true)
				} else {
					object(false, false)
				}
			case json.Delim('['):
				for depth := 1; depth > 0; {
					if d, isDelim := next().(json.Delim); isDelim {
						if d == '{' || d == '[' {
							depth++
						} else {
							depth--
						}
					}
				}
			}
		}
		next()
	}
	if next() != json.Delim('{') {
		panic("VERIF-HARNESS-ERROR not an object: " + src)
	}
	object(true, false)
	return counts, ok
}

func isObject(src string) bool {
	return json.Valid([]byte(src)) && strings.HasPrefix(strings.TrimLeft(src, " \t\r\n"), "{")
}

func checkCounts(tb interface {
	Fatalf(string, ...any)
}, ctr *fields.FieldCounter, src string, want map[string]uint) {
	names, dups := []string{}, map[string]uint{}
	for name, n := range want {
		names = append(names, name)
		if n > 1 {
			dups[name] = n
		}
	}
	sort.Strings(names)
	if got := ctr.Fields(); !reflect.DeepEqual(got, names) {
		tb.Fatalf("Fields of %q are %q, should be %q", src, got, names)
	}
	if got := ctr.Duplicates(); !reflect.DeepEqual(got, dups) {
		tb.Fatalf("Duplicates of %q are %v, should be %v", src, got, dups)
	}
	if got := ctr.NumFields(); got != uint(len(names)) {
		tb.Fatalf("NumFields of %q is %d, should be %d", src, got, len(names))
	}
}

func TestJ01_valid(t *testing.T) {
	kit.Check(t, 20000, 1200000,
		"JSON objects built from tokens with free white space and free choice of escapes, nesting up to 4, members called fields (objects or not) at the top level; "+
			"counts compared with the token stream of encoding/json; non-trivial: a duplicated name or an object called fields",
		func(c *kit.C) {
			src := genObject(c.T).String()
			want, ok := walk(src)
			if !ok {
				c.Case(false, "%s", src)
				return
			}
			dup := false
			for _, n := range want {
				dup = dup || n > 1
			}
			c.Case(dup || strings.Contains(src, `"fields"`), "%s", src)
			c.Class(dup, "duplicates")
			c.Class(strings.Contains(src, `\u`), "escapes")
			ctr := fields.NewFieldCounter([]byte(src))
			if rapid.Bool().Draw(c.T, "print") {
				_ = ctr.String()
			}
			if err := ctr.Parse(); err != nil {
				c.Fatalf("valid object %q not counted: %v", src, err)
			}
			checkCounts(c, ctr, src, want)
			if s := ctr.String(); !strings.Contains(s, fmt.Sprintf(" %d field", len(want))) ||
				strings.Contains(s, "no duplicates") == dup {
				if !strings.Contains(src, "no duplicates") {
					c.Fatalf("String() for %q is %q", src, s)
				}
			}
			checkCounts(c, ctr, src, want)
		})
}

var intruders = []string{"{", "}", "[", "]", ",", ":", `"`, "1", "true", `"x"`, "nil", "NaN", "x", "'a'", "\x00", "{}", "{{", "}}", `\`, "-", "undefined", "tru", "falsey", "nulll"}

func damage(t *rapid.T, ts tokens) (string, string) {
	src := ts.String()
	at := rapid.IntRange(0, len(ts)-1).Draw(t, "at")
	switch kind := rapid.SampledFrom([]string{"truncate", "drop", "double", "insert", "swap", "trailing", "comma", "control", "escape", "quote", "leading", "byte", "number"}).Draw(t, "damage"); kind {
	case "truncate":
		return src[:rapid.IntRange(0, len(src)-1).Draw(t, "length")], kind
	case "drop":
		return (append(append(tokens{}, ts[:at]...), ts[at+1:]...)).String(), kind
	case "double":
		return (append(append(tokens{}, ts[:at+1]...), ts[at:]...)).String(), kind
	case "insert":
		in := rapid.SampledFrom(intruders).Draw(t, "intruder")
		return (append(append(append(tokens{}, ts[:at]...), in), ts[at:]...)).String(), kind
	case "swap":
		to := rapid.IntRange(0, len(ts)-1).Draw(t, "to")
		x := append(tokens{}, ts...)
		x[at], x[to] = x[to], x[at]
		return x.String(), kind
	case "trailing":
		return src + rapid.SampledFrom(append([]string{"{}\n", "\n{\"a\":1}", " x"}, intruders...)).Draw(t, "intruder"), kind
	case "number":
		odd := rapid.StringOfN(rapid.RuneFrom([]rune("0011222..eE+-")), 1, 8, -1).Draw(t, "number")
		odd = rapid.SampledFrom([]string{odd, odd, odd, "127.0.0.1", "2024-01-02", "1.2.3", "1e5e5", "1e+-5", "1e5.5", "3-4"}).Draw(t, "odd")
		if d := odd[0]; d < '0' || d > '9' {
			odd = "1" + odd
		}
		for i := range ts {
			if j := (at + i) % len(ts); strings.IndexByte("0123456789-", ts[j][0]) >= 0 {
				return (append(append(append(tokens{}, ts[:j]...), odd), ts[j+1:]...)).String(), kind
			}
		}
		return src[:1] + `"odd":` + odd + rapid.SampledFrom([]string{",", "}"}).Draw(t, "rest") + src[1:], kind
	case "leading":
		return rapid.SampledFrom(intruders).Draw(t, "intruder") + src, kind
	case "comma":
		for i := range ts {
			if j := (at + i) % len(ts); ts[j] == "}" || ts[j] == "]" {
				return (append(append(append(tokens{}, ts[:j]...), ","), ts[j:]...)).String(), kind
			}
		}
		return src + ",", kind
	case "byte":
		i := rapid.IntRange(0, len(src)-1).Draw(t, "where")
		return src[:i] + string(rapid.SampledFrom([]rune("{}[],:\"\\ \nx")).Draw(t, "new")) + src[i+1:], kind
	default: // within a string
		for i := range ts {
			j := (at + i) % len(ts)
			if !strings.HasPrefix(ts[j], `"`) {
				continue
			}
			k := rapid.IntRange(1, len(ts[j])-1).Draw(t, "where")
			var in string
			switch kind {
			case "control":
				in = rapid.SampledFrom([]string{"\n", "\t", "\x00", "\x1f", "\r", "\x1b"}).Draw(t, "control")
			case "escape":
				in = rapid.SampledFrom([]string{`\x41`, `\'`, `\u12`, `\uzzzz`, `\a`, `\ `, `\`, `\U00000041`}).Draw(t, "bad")
			case "quote":
				in = `"`
			}
			x := append(tokens{}, ts...)
			x[j] = x[j][:k] + in + x[j][k:]
			return x.String(), kind
		}
		return src[:len(src)/2], kind
	}
}

// lenient tells that the text has a feature which the counter reads more freely than JSON on purpose
// or without relevance for the names: odd keywords in upper case, odd numbers, exotic white space.
func lenient(src string) bool {
	for _, r := range src {
		if r > 0x7f || r == '\f' || r == '\v' {
			return true
		}
	}
	return false
}

func TestJ01_malformed(t *testing.T) {
	kit.Check(t, 20000, 1200000,
		"objects as before, damaged by truncation, a lost, doubled, inserted or exchanged token, leading or trailing data, a trailing comma, raw control characters, bad escapes or quotes in strings; "+
			"whatever encoding/json rejects must be rejected, anything else counted alike; non-trivial: the damaged text is no valid object",
		func(c *kit.C) {
			kind := "raw"
			src := string(kit.Given(func() []byte {
				src, how := damage(c.T, genObject(c.T))
				kind = how
				return []byte(src)
			}))
			if len(src) > 100000 {
				return
			}
			c.Class(true, kind)
			if lenient(src) {
				c.Case(false, "%s", src)
				return
			}
			valid := isObject(src)
			c.Case(!valid, "%s: %s", kind, src)
			c.Class(valid, "still valid")
			ctr := fields.NewFieldCounter([]byte(src))
			err := ctr.Parse()
			switch {
			case err == nil && !valid:
				if oddNumber(src) {
					return
				}
				c.Fatalf("malformed object %q is counted without error: %s", src, ctr)
			case err != nil && valid:
				c.Fatalf("valid object %q not counted: %v", src, err)
			case valid:
				if want, ok := walk(src); ok {
					checkCounts(c, ctr, src, want)
				}
			}
		})
}

// badNumber matches what no lenient reading makes one number: a second decimal point or one
// in the exponent, a second exponent, a sign outside the exponent or a second one in it.
var badNumber = regexp.MustCompile(`\..*\.|[eE].*[.eE]|^[^eE]+[+-]|[eE].*[+-].*[+-]`)

// oddNumber tells that the only thing wrong with the text are the numbers in it,
// and that those could be read as numbers.
func oddNumber(src string) bool {
	var b bytes.Buffer
	inString, inNumber, start := false, false, 0
	for i := 0; i < len(src); i++ {
		ch := src[i]
		if inString {
			b.WriteByte(ch)
			if ch == '\\' && i+1 < len(src) {
				i++
				b.WriteByte(src[i])
			} else if ch == '"' {
				inString = false
			}
			continue
		}
		if strings.IndexByte("0123456789+-.eE", ch) >= 0 && (inNumber || ch != 'e' && ch != 'E') {
			if !inNumber {
				b.WriteByte('0')
				start = i
			}
			inNumber = true
			continue
		}
		if inNumber && badNumber.MatchString(src[start:i]) {
			return false
		}
		inNumber = false
		inString = ch == '"'
		b.WriteByte(ch)
	}
	return isObject(b.String())
}
