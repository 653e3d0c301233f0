package kit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Field of an ordered JSON object.
type Field struct {
	Key string
	Val any // Obj, []any, string, json.Number, bool, nil
}

// Obj is a JSON object with order and duplicates kept.
type Obj []Field

// DecodeLine checks that line is exactly one JSON object and a line end, and decodes it.
func DecodeLine(line []byte) (Obj, error) {
	switch {
	case bytes.HasSuffix(line, []byte("\r\n")):
		line = line[:len(line)-2]
	case bytes.HasSuffix(line, []byte("\n")):
		line = line[:len(line)-1]
	default:
		return nil, fmt.Errorf("no line end")
	}
	for i, b := range line {
		if b < 0x20 {
			return nil, fmt.Errorf("raw control character %#x at %d", b, i)
		}
	}
	return DecodeObj(line)
}

// DecodeObj decodes exactly one JSON object.
func DecodeObj(b []byte) (Obj, error) {
	if !utf8.Valid(b) {
		return nil, fmt.Errorf("invalid UTF-8")
	}
	if !json.Valid(b) {
		return nil, fmt.Errorf("invalid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := decodeValue(d)
	if err != nil {
		return nil, err
	}
	if _, err = d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one value")
	}
	o, ok := v.(Obj)
	if !ok {
		return nil, fmt.Errorf("not an object but %T", v)
	}
	return o, nil
}

// DecodeAny decodes one JSON value.
func DecodeAny(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return decodeValue(d)
}

func decodeValue(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t := t.(type) {
	case json.Delim:
		switch t {
		case '{':
			o := Obj{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v, err := decodeValue(d)
				if err != nil {
					return nil, err
				}
				o = append(o, Field{k.(string), v})
			}
			_, err = d.Token()
			return o, err
		case '[':
			a := []any{}
			for d.More() {
				v, err := decodeValue(d)
				if err != nil {
					return nil, err
				}
				a = append(a, v)
			}
			_, err = d.Token()
			return a, err
		}
		return nil, fmt.Errorf("unexpected %v", t)
	default:
		return t, nil
	}
}

// Get the values of all fields named key.
func (o Obj) Get(key string) []any {
	var r []any
	for _, f := range o {
		if f.Key == key {
			r = append(r, f.Val)
		}
	}
	return r
}

// String shows a decoded value.
func (o Obj) String() string { return Show(o) }

// Show a decoded value.
func Show(v any) string {
	switch v := v.(type) {
	case Obj:
		var b strings.Builder
		b.WriteByte('{')
		for i, f := range v {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(strconv.Quote(f.Key))
			b.WriteByte(':')
			b.WriteString(Show(f.Val))
		}
		b.WriteByte('}')
		return b.String()
	case []any:
		var b strings.Builder
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(Show(e))
		}
		b.WriteByte(']')
		return b.String()
	case string:
		return strconv.Quote(v)
	case Text:
		return "text" + strconv.Quote(string(v))
	case Prefix:
		return "prefix" + strconv.Quote(string(v))
	case Float:
		return "float" + strconv.FormatFloat(float64(v), 'g', -1, 64)
	case nil:
		return "null"
	default:
		return fmt.Sprintf("%v", v)
	}
}

// Expected values beyond the decoded ones.
type (
	// Text is arbitrary text that may hold invalid UTF-8.
	Text string
	// Float is a finite number compared by value.
	Float float64
	// Prefix is any string with that prefix.
	Prefix string
	// Contains is any string containing that text.
	Contains string
	// Unordered is an object whose field order does not matter.
	Unordered Obj
)

// SameText tells whether got is what text s decodes to.
func SameText(s, got string) bool {
	if utf8.ValidString(s) {
		return s == got
	}
	if !utf8.ValidString(got) {
		return false
	}
	// runs of replacement characters may have any length from 1 to the number of bytes
	perByte := string([]rune(s))
	minimal := strings.ToValidUTF8(s, "\uFFFD")
	if squash(got) != squash(perByte) {
		return false
	}
	n := utf8.RuneCountInString(got)
	return n <= utf8.RuneCountInString(perByte) && n >= utf8.RuneCountInString(squash(minimal))
}

func squash(s string) string {
	for strings.Contains(s, "\uFFFD\uFFFD") {
		s = strings.ReplaceAll(s, "\uFFFD\uFFFD", "\uFFFD")
	}
	return s
}

// Diff compares an expected with a decoded value; "" means equal.
func Diff(path string, want, got any) string {
	bad := func(f string, a ...any) string { return path + ": " + fmt.Sprintf(f, a...) }
	switch w := want.(type) {
	case Obj:
		g, ok := got.(Obj)
		if !ok {
			return bad("want object %s, got %s", Show(w), Show(got))
		}
		for i := 0; i < len(w) && i < len(g); i++ {
			if !SameText(w[i].Key, g[i].Key) {
				return bad("field %d: want key %q, got %q", i, w[i].Key, g[i].Key)
			}
			if d := Diff(path+"."+w[i].Key, w[i].Val, g[i].Val); d != "" {
				return d
			}
		}
		if len(w) > len(g) {
			return bad("missing field %q = %s", w[len(g)].Key, Show(w[len(g)].Val))
		}
		if len(g) > len(w) {
			return bad("unexpected field %q = %s", g[len(w)].Key, Show(g[len(w)].Val))
		}
		return ""
	case Unordered:
		g, ok := got.(Obj)
		if !ok || len(g) != len(w) {
			return bad("want object %s, got %s", Show(Obj(w)), Show(got))
		}
		for _, f := range w {
			vs := g.Get(f.Key)
			if len(vs) != 1 {
				return bad("want one field %q, got %s", f.Key, Show(got))
			}
			if d := Diff(path+"."+f.Key, f.Val, vs[0]); d != "" {
				return d
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return bad("want array %s, got %s", Show(w), Show(got))
		}
		for i := range w {
			if d := Diff(fmt.Sprintf("%s[%d]", path, i), w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	case Text:
		if g, ok := got.(string); !ok || !SameText(string(w), g) {
			return bad("want text %q, got %s", string(w), Show(got))
		}
		return ""
	case string:
		if g, ok := got.(string); !ok || g != w {
			return bad("want string %q, got %s", w, Show(got))
		}
		return ""
	case Prefix:
		if g, ok := got.(string); !ok || !strings.HasPrefix(g, string(w)) {
			return bad("want string starting with %q, got %s", string(w), Show(got))
		}
		return ""
	case Contains:
		if g, ok := got.(string); !ok || !strings.Contains(g, string(w)) {
			return bad("want string containing %q, got %s", string(w), Show(got))
		}
		return ""
	case OneOf:
		first := ""
		for _, alt := range w {
			d := Diff(path, alt, got)
			if d == "" {
				return ""
			}
			if first == "" {
				first = d
			}
		}
		return first
	case Float:
		g, ok := got.(json.Number)
		if !ok {
			return bad("want number %v, got %s", float64(w), Show(got))
		}
		f, err := strconv.ParseFloat(string(g), 64)
		if err != nil || f != float64(w) {
			return bad("want number %v, got %s", float64(w), Show(got))
		}
		return ""
	case json.Number:
		g, ok := got.(json.Number)
		if !ok {
			return bad("want number %v, got %s", w, Show(got))
		}
		if g == w {
			return ""
		}
		a, e1 := strconv.ParseFloat(string(w), 64)
		b, e2 := strconv.ParseFloat(string(g), 64)
		if strings.ContainsAny(string(w), ".eE") && e1 == nil && e2 == nil && a == b {
			return ""
		}
		return bad("want number %v, got %v", w, g)
	default:
		if want != got {
			return bad("want %s, got %s", Show(want), Show(got))
		}
		return ""
	}
}
