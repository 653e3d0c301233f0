package kit

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"log/slog"
	"math"
	"math/big"
	"net"
	"net/netip"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- value types

// ErrT is an error and nothing else.
type ErrT struct{ S string }

func (e ErrT) Error() string { return e.S }

// StrT is a fmt.Stringer and nothing else.
type StrT struct{ S string }

func (s StrT) String() string { return s.S }

// TextT is an encoding.TextMarshaler and nothing else.
type TextT struct{ S string }

func (t TextT) MarshalText() ([]byte, error) { return []byte(t.S), nil }

// JSONT is a json.Marshaler and nothing else.
type JSONT struct{ Raw string }

func (j JSONT) MarshalJSON() ([]byte, error) { return []byte(j.Raw), nil }

// FailJSON is a json.Marshaler that fails.
type FailJSON struct{ S string }

func (f FailJSON) MarshalJSON() ([]byte, error) { return nil, errors.New(f.S) }

// FailText is a encoding.TextMarshaler that fails.
type FailText struct{ S string }

func (f FailText) MarshalText() ([]byte, error) { return nil, errors.New(f.S) }

// Valuer is a slog.LogValuer.
type Valuer struct{ V slog.Value }

func (v Valuer) LogValue() slog.Value { return v.V }

// PtrValuer is a slog.LogValuer on a pointer.
type PtrValuer struct{ V slog.Value }

func (v *PtrValuer) LogValue() slog.Value { return v.V }

type point struct {
	X    int               `json:"x"`
	Name string            `json:"name,omitempty"`
	M    map[string]string `json:"m,omitempty"`
}

type (
	named int
	word  string
	yesno bool
)

// Values with several texts: any of them may be shown.
type (
	// ErrStr is an error and a fmt.Stringer.
	ErrStr struct{ S string }
	// StrJSON is a fmt.Stringer and marshals itself both ways.
	StrJSON struct{ S string }
	// ErrText is an error and an encoding.TextMarshaler.
	ErrText struct{ S string }
	// JSONText is a json.Marshaler and an encoding.TextMarshaler.
	JSONText struct{ S string }
)

func (e ErrStr) Error() string                  { return "error " + e.S }
func (e ErrStr) String() string                 { return "string " + e.S }
func (s *StrJSON) String() string               { return "string " + s.S }
func (s *StrJSON) MarshalJSON() ([]byte, error) { return json.Marshal([]string{s.S}) }
func (s *StrJSON) MarshalText() ([]byte, error) { return []byte("text " + s.S), nil }
func (e ErrText) Error() string                 { return "error " + e.S }
func (e ErrText) MarshalText() ([]byte, error)  { return []byte("text " + e.S), nil }
func (j JSONText) MarshalJSON() ([]byte, error) { return json.Marshal(map[string]string{"json": j.S}) }
func (j JSONText) MarshalText() ([]byte, error) { return []byte("text " + j.S), nil }

// anyForm is what the forms of a value with several texts decode to.
func anyForm(v any) OneOf {
	var forms OneOf
	if e, ok := v.(error); ok {
		forms = append(forms, Text(e.Error()))
	}
	if s, ok := v.(fmt.Stringer); ok {
		forms = append(forms, Text(s.String()))
	}
	if n, ok := v.(net.IPNet); ok {
		forms = append(forms, Text(n.String()))
	}
	if m, ok := v.(encoding.TextMarshaler); ok {
		if b, err := m.MarshalText(); err == nil {
			forms = append(forms, Text(string(b)))
		}
	}
	if b, err := json.Marshal(v); err == nil {
		forms = append(forms, Text(string(b)))
		if d, err := DecodeAny(b); err == nil {
			forms = append(forms, d)
		}
	}
	return forms
}

// Hook is a value whose text is made by user code that may panic or log.
type Hook struct {
	Mode string // stringer, error, json, text, valuer
	Fn   func() string
}

type (
	HookStringer struct{ H *Hook }
	HookError    struct{ H *Hook }
	HookJSON     struct{ H *Hook }
	HookText     struct{ H *Hook }
	HookValuer   struct{ H *Hook }
)

func (h HookStringer) String() string           { return h.H.Fn() }
func (h HookError) Error() string               { return h.H.Fn() }
func (h HookJSON) MarshalJSON() ([]byte, error) { return json.Marshal(h.H.Fn()) }
func (h HookText) MarshalText() ([]byte, error) { return []byte(h.H.Fn()), nil }
func (h HookValuer) LogValue() slog.Value       { return slog.StringValue(h.H.Fn()) }
func (h *Hook) Value() slog.Value {
	switch h.Mode {
	case "stringer":
		return slog.AnyValue(HookStringer{h})
	case "error":
		return slog.AnyValue(HookError{h})
	case "json":
		return slog.AnyValue(HookJSON{h})
	case "text":
		return slog.AnyValue(HookText{h})
	default:
		return slog.AnyValue(HookValuer{h})
	}
}

// HookModes that exist.
var HookModes = []string{"stringer", "error", "json", "text", "valuer"}

// ---------------------------------------------------------------- generators

// Profile steers the attribute generator.
type Profile struct {
	Any     bool // error, stringer, structured values, nil
	Fail    bool // failing marshallers, NaN, Inf
	Valuers bool
	Empties int  // percentage of empty attributes and empty groups
	Wild    bool // wild text (control characters, invalid UTF-8)
	Keys    []string
	Depth   int
	Width   int
	Long    bool // occasionally long strings
	BigTime bool
}

var pieces = []string{
	"a", "b", "Z", "0", " ", "\"", "\\", "/", "\b", "\f", "\n", "\r", "\t", "\v", "\x00", "\x01", "\x1f", "\x1b", "\x7f",
	"é", "ß", "Ω", "中", "字", "€", "😀", "𝄞", "\u2028", "\u2029", "\ufeff", "\u0080", "\u009f", "\u00a0", "\uffff", "\U0010ffff", "\ufffd", "\ue000",
	"<", ">", "&", "'", "{", "}", "[", "]", ":", ",", "%", "%s", "\\u0041", "null", "=", "`", "$", "@",
}
var broken = []string{
	"\x80", "\xbf", "\xc3", "\xc0\x80", "\xe4\xb8", "\xe4", "\xf0\x9f\x98", "\xf0\x9f", "\xf0", "\xff", "\xfe", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xc1\xbf", "\xe0\x80\xaf",
}

// WildText draws any byte string.
func WildText(t *rapid.T, label string) string {
	mode := rapid.IntRange(0, 9).Draw(t, label+"/mode")
	switch {
	case mode <= 4:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(pieces), 0, 12).Draw(t, label), "")
	case mode <= 6:
		all := append(append([]string{}, pieces...), append(append([]string{}, broken...), broken...)...)
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(all), 0, 10).Draw(t, label), "")
	case mode == 7:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, label))
	case mode == 8:
		return rapid.StringN(0, 20, -1).Draw(t, label)
	default:
		p := rapid.SampledFrom(pieces).Draw(t, label+"/rep")
		n := rapid.SampledFrom([]int{1, 31, 32, 33, 255, 256, 511, 512, 513, 1023, 1024, 1025, 3000, hugeText}).Draw(t, label+"/n")
		if n == hugeText {
			n = rapid.SampledFrom([]int{1, 33, 257, 4096, 5000, 8193, 16385, 66000}).Draw(t, label+"/huge")
		}
		return strings.Repeat(p, n)
	}
}

const hugeText = -1

// ValidText draws valid UTF-8 text.
func ValidText(t *rapid.T, label string) string {
	mode := rapid.IntRange(0, 7).Draw(t, label+"/mode")
	switch {
	case mode <= 4:
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(pieces), 0, 12).Draw(t, label), "")
	case mode == 5:
		return strings.ToValidUTF8(string(rapid.SliceOfN(rapid.Rune(), 0, 16).Draw(t, label)), "?")
	default:
		return rapid.StringMatching(`[a-z]{0,6}`).Draw(t, label)
	}
}

// PlainText draws simple words.
func PlainText(t *rapid.T, label string) string {
	return rapid.StringMatching(`[a-zA-Z0-9 ]{0,10}`).Draw(t, label)
}

// Text draws text for the profile.
func (p Profile) Text(t *rapid.T, label string) string {
	if p.Long && rapid.IntRange(0, 39).Draw(t, label+"/long") == 39 {
		return strings.Repeat("lorem-", rapid.SampledFrom([]int{20, 85, 86, 170, 171, 400, 700, 1400, 11000}).Draw(t, label+"/len"))
	}
	if p.Wild {
		return WildText(t, label)
	}
	if rapid.IntRange(0, 3).Draw(t, label+"/t") == 0 {
		return ValidText(t, label)
	}
	return PlainText(t, label)
}

// DefaultKeys collide often and include the names of the built-in fields
// and the blank key, with which a group is merged but a value is not left out.
var DefaultKeys = []string{"", "a", "b", "c", "d", "A", "g", "h", "time", "level", "msg", "source", "message", "x y", "q\"q", "ü", "a.b"}

// Key draws an attribute key.
func (p Profile) Key(t *rapid.T, label string) string {
	if p.Wild && rapid.IntRange(0, 3).Draw(t, label+"/w") == 0 {
		return WildText(t, label)
	}
	keys := p.Keys
	if keys == nil {
		keys = DefaultKeys
	}
	return rapid.SampledFrom(keys).Draw(t, label)
}

var zones = []*time.Location{
	time.UTC, time.FixedZone("east", 2*3600), time.FixedZone("west", -9*3600-30*60), time.FixedZone("odd", 5*3600+45*60),
}

// Time draws a time between the years 1 and 9999.
func Time(t *rapid.T, label string) time.Time {
	var sec int64
	switch rapid.IntRange(0, 3).Draw(t, label+"/m") {
	case 0:
		sec = rapid.Int64Range(-62135596800+200000, 253402300799-200000).Draw(t, label+"/sec")
	default:
		sec = rapid.Int64Range(0, 4e9).Draw(t, label+"/sec")
	}
	var nano int64
	switch rapid.IntRange(0, 3).Draw(t, label+"/nm") {
	case 0:
		nano = 0
	case 1:
		nano = rapid.Int64Range(0, 999).Draw(t, label+"/ms") * 1e6
	default:
		nano = rapid.Int64Range(0, 999_999_999).Draw(t, label+"/ns")
	}
	return time.Unix(sec, nano).In(rapid.SampledFrom(zones).Draw(t, label+"/z"))
}

var edgeTimes = []time.Time{{}, time.Unix(0, 0).UTC(), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999_999_999, time.UTC), time.Date(2000, 2, 29, 12, 0, 0, 100_000_000, time.UTC)}
var edgeInts = []int64{0, 1, -1, 9, 10, -10, 99, 100, 255, 256, 1 << 31, -(1 << 31), 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1}
var edgeFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.5, 1e6, 1e20, 1e21, 1e22, 1e-6, 1e-7, 1e-9, 123456789.123456789, math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, math.Pi, 1 << 53, 5e-324, 1e300}

func (p Profile) leaf(t *rapid.T, label string) slog.Value {
	n := 7
	if p.Any {
		n = 13
	}
	if p.Fail {
		n = 16
	}
	switch rapid.IntRange(0, n-1).Draw(t, label+"/kind") {
	case 0:
		return slog.StringValue(p.Text(t, label+"/str"))
	case 1:
		return slog.BoolValue(rapid.Bool().Draw(t, label+"/bool"))
	case 2:
		if rapid.Bool().Draw(t, label+"/edge") {
			return slog.Int64Value(rapid.SampledFrom(edgeInts).Draw(t, label+"/int"))
		}
		return slog.Int64Value(rapid.Int64().Draw(t, label+"/int"))
	case 3:
		if rapid.Bool().Draw(t, label+"/edge") {
			return slog.Uint64Value(rapid.SampledFrom([]uint64{0, 1, 1 << 63, math.MaxUint64, 1<<53 + 1}).Draw(t, label+"/uint"))
		}
		return slog.Uint64Value(rapid.Uint64().Draw(t, label+"/uint"))
	case 4:
		if rapid.Bool().Draw(t, label+"/edge") {
			return slog.Float64Value(rapid.SampledFrom(edgeFloats).Draw(t, label+"/float"))
		}
		return slog.Float64Value(rapid.Float64Range(-1e9, 1e9).Draw(t, label+"/float"))
	case 5:
		if rapid.IntRange(0, 3).Draw(t, label+"/edge") == 0 {
			return slog.TimeValue(rapid.SampledFrom(edgeTimes).Draw(t, label+"/time"))
		}
		return slog.TimeValue(Time(t, label+"/time"))
	case 6:
		if rapid.IntRange(0, 2).Draw(t, label+"/edge") == 0 {
			return slog.DurationValue(time.Duration(rapid.Int64().Draw(t, label+"/dur")))
		}
		return slog.DurationValue(time.Duration(rapid.SampledFrom([]int64{0, 1, -1, 1000, 1e9, 3600e9, math.MaxInt64, math.MinInt64, 123456789}).Draw(t, label+"/dur")))
	case 7:
		return slog.AnyValue(ErrT{p.Text(t, label+"/err")})
	case 8:
		return slog.AnyValue(StrT{p.Text(t, label+"/stringer")})
	case 9:
		return slog.AnyValue(TextT{p.Text(t, label+"/textm")})
	case 10:
		return slog.AnyValue(JSONT{rapid.SampledFrom([]string{`{"a":1}`, `[1,2]`, `"s"`, `null`, `1.5`, `{"q":"\""}`}).Draw(t, label+"/jsonm")})
	case 11, 12:
		return slog.AnyValue(p.structured(t, label))
	case 13:
		return slog.AnyValue(FailJSON{p.Text(t, label+"/fj")})
	case 14:
		return slog.AnyValue(FailText{p.Text(t, label+"/ft")})
	default:
		switch rapid.IntRange(0, 5).Draw(t, label+"/bad") {
		case 0:
			return slog.Float64Value(math.NaN())
		case 1:
			return slog.Float64Value(math.Inf(1))
		case 2:
			return slog.Float64Value(math.Inf(-1))
		case 3:
			return slog.AnyValue(make(chan int))
		case 4:
			return slog.AnyValue(map[string]any{"f": math.NaN()})
		default:
			return slog.AnyValue([]any{func() {}})
		}
	}
}

func (p Profile) structured(t *rapid.T, label string) any {
	switch rapid.IntRange(0, 18).Draw(t, label+"/any") {
	case 0:
		return nil
	case 1:
		return rapid.SliceOfN(rapid.SampledFrom([]string{"x", "y<", "z\"", "é"}), 0, 3).Draw(t, label+"/slice")
	case 2:
		return map[string]int{"one": 1, "two": 2}
	case 3:
		return point{X: rapid.IntRange(-5, 5).Draw(t, label+"/x"), Name: p.Text(t, label+"/name")}
	case 4:
		return &point{X: 3, M: map[string]string{"k{": "v}"}}
	case 5:
		return []byte("bytes")
	case 6:
		return []any{1, "two", nil, 3.5, map[string]any{"n": []int{}}}
	case 7:
		return net.IPv4(10, 0, 0, byte(rapid.IntRange(0, 255).Draw(t, label+"/ip")))
	case 8:
		return time.Month(rapid.IntRange(1, 12).Draw(t, label+"/month"))
	case 9:
		return struct{}{}
	case 10:
		return [][]string{{}, {"{"}}
	case 11:
		return net.HardwareAddr{2, 0, 0x5e, 0x10, 0, byte(rapid.IntRange(0, 255).Draw(t, label+"/mac"))}
	case 12:
		return &net.IPNet{IP: net.IPv4(10, 1, 0, 0), Mask: net.CIDRMask(rapid.IntRange(0, 32).Draw(t, label+"/mask"), 32)}
	case 13:
		return &url.URL{Scheme: "https", Host: "example.com", Path: p.Text(t, label+"/path")}
	case 14:
		return netip.AddrFrom4([4]byte{10, 2, 0, byte(rapid.IntRange(0, 255).Draw(t, label+"/addr"))})
	case 15:
		return rapid.SampledFrom([]any{named(7), word("word"), yesno(true), json.Number("12.50"), [2]int8{-1, 1}, map[int]bool{3: true}, []float64{1e21, 1e-7, 0.5},
			[]time.Duration{5}, struct{ A, b int }{1, 2}, new(int), []error{}, json.RawMessage(`{"r": [1]}`), map[string]*point{"nil": nil}}).Draw(t, label+"/odd")
	case 16:
		s := rapid.SampledFrom([]string{"", "both", "ends {", "x\ny", "q\"q"}).Draw(t, label+"/several")
		return rapid.SampledFrom([]any{ErrStr{s}, &StrJSON{s}, ErrText{s}, JSONText{s}, net.IPNet{IP: net.IPv4(10, 3, 0, 0), Mask: net.CIDRMask(16, 32)}}).Draw(t, label+"/form")
	case 17:
		s := p.Text(t, label+"/wrapped")
		when := Time(t, label+"/when")
		return rapid.SampledFrom([]any{fmt.Errorf("wrap: %w", ErrT{s}), errors.Join(ErrT{s}, ErrT{"second"}), &fs.PathError{Op: "open", Path: s, Err: fs.ErrNotExist}, syscall.ENOENT,
			&when, slog.Level(3), slog.LevelWarn, big.NewInt(-12345678901234567), big.NewFloat(0.5), bytes.NewBufferString(s), StrT{s}.String, reflect.TypeOf(s), &s, []string{s}, map[string]any{"k": s}}).Draw(t, label+"/kind")
	default:
		return (*point)(nil)
	}
}

// Attr draws an attribute.
func (p Profile) Attr(t *rapid.T, label string, depth int) slog.Attr {
	r := rapid.IntRange(0, 99).Draw(t, label+"/what")
	if r >= 100-p.Empties {
		switch rapid.IntRange(0, 6).Draw(t, label+"/empty") {
		case 0, 1:
			return slog.Attr{}
		case 2:
			return slog.Attr{Key: p.Key(t, label+"/key"), Value: slog.GroupValue()}
		case 3:
			return slog.Attr{Key: p.Key(t, label+"/key"), Value: slog.GroupValue(slog.Attr{}, slog.Attr{Key: "e", Value: slog.GroupValue(slog.Attr{})})}
		case 4:
			if p.Valuers {
				return slog.Attr{Key: p.Key(t, label+"/key"), Value: slog.AnyValue(Valuer{slog.GroupValue()})}
			}
			return slog.Attr{}
		case 5:
			if p.Valuers {
				return slog.Attr{Key: p.Key(t, label+"/key"), Value: slog.GroupValue(slog.Any("v", Valuer{slog.GroupValue(slog.Attr{})}), slog.Any("", Valuer{slog.AnyValue(nil)}))}
			}
			return slog.Attr{Key: "", Value: slog.GroupValue()}
		default:
			if p.Valuers {
				return slog.Attr{Key: "", Value: slog.AnyValue(Valuer{slog.AnyValue(nil)})}
			}
			return slog.Attr{Key: "", Value: slog.GroupValue(slog.Attr{})}
		}
	}
	r = rapid.IntRange(0, 99).Draw(t, label+"/shape")
	key := p.Key(t, label+"/key")
	switch {
	case r == 98 && depth > 1:
		// A tower of groups.
		v := p.leaf(t, label)
		i := rapid.IntRange(1, 12).Draw(t, label+"/tower")
		if i > 9 {
			v = Tower(rapid.SampledFrom([]int{8, 15, 16, 17, 31, 32, 33, 64, 70}).Draw(t, label+"/high"), v)
			i = 1
		}
		for ; i > 0; i-- {
			as := []slog.Attr{{Key: p.Key(t, label+"/t"+strconv.Itoa(i)), Value: v}}
			if rapid.IntRange(0, 3).Draw(t, label+"/side"+strconv.Itoa(i)) == 0 {
				as = append(as, p.Attrs(t, label+"/s"+strconv.Itoa(i), 0)...)
			}
			v = slog.GroupValue(as...)
		}
		return slog.Attr{Key: key, Value: v}
	case r >= 78 && depth > 0:
		if rapid.IntRange(0, 4).Draw(t, label+"/inline") == 0 {
			key = ""
		}
		return slog.Attr{Key: key, Value: slog.GroupValue(p.Attrs(t, label+"/g", depth-1)...)}
	case r >= 66 && p.Valuers:
		return slog.Attr{Key: key, Value: p.valuer(t, label, depth)}
	default:
		return slog.Attr{Key: key, Value: p.leaf(t, label)}
	}
}

func (p Profile) valuer(t *rapid.T, label string, depth int) slog.Value {
	var inner slog.Value
	r := rapid.IntRange(0, 9).Draw(t, label+"/vin")
	switch {
	case r < 2:
		inner = p.valuer(t, label+"/v", depth)
	case r < 5 && depth > 0:
		inner = slog.GroupValue(p.Attrs(t, label+"/vg", depth-1)...)
	default:
		inner = p.leaf(t, label+"/vl")
	}
	if rapid.Bool().Draw(t, label+"/ptr") {
		return slog.AnyValue(&PtrValuer{inner})
	}
	return slog.AnyValue(Valuer{inner})
}

// Attrs draws a list of attributes.
func (p Profile) Attrs(t *rapid.T, label string, depth int) []slog.Attr {
	w := p.Width
	if w == 0 {
		w = 4
	}
	n := rapid.IntRange(0, w).Draw(t, label+"/n")
	as := make([]slog.Attr, 0, n)
	for i := 0; i < n; i++ {
		as = append(as, p.Attr(t, label+strconv.Itoa(i), depth))
	}
	return as
}

// Size draws a size now and then (about once in oneIn cases), zero otherwise.
func Size(t *rapid.T, label string, oneIn int, sizes ...int) int {
	if rapid.IntRange(0, oneIn-1).Draw(t, label+"/big") != oneIn/2 {
		return 0
	}
	return rapid.SampledFrom(sizes).Draw(t, label+"/size")
}

// Filler is a text of about n bytes without repetition, of letters, digits and points only.
func Filler(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "x%d.", i)
	}
	return b.String()
}

// Tower wraps the value into that many groups within each other, some of them with more attributes.
func Tower(n int, v slog.Value) slog.Value {
	for i := n; i > 0; i-- {
		as := []slog.Attr{{Key: "t" + strconv.Itoa(i), Value: v}}
		if i%5 == 0 {
			as = append(as, slog.Int("level", i))
		}
		if i%7 == 0 {
			as = append([]slog.Attr{slog.String("msg", "before")}, as...)
		}
		v = slog.GroupValue(as...)
	}
	return v
}

// Crowd makes that many attributes.
func Crowd(n int) []slog.Attr {
	as := make([]slog.Attr, 0, n)
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i)
		switch i % 11 {
		case 3:
			as = append(as, slog.Int(k, i))
		case 5:
			as = append(as, slog.Group(k, slog.Bool("b", i%2 == 0), slog.String("k0", k)))
		case 7:
			as = append(as, slog.Duration("d", time.Duration(i)))
		case 9:
			as = append(as, slog.Group("", slog.Float64(k, float64(i)/2)))
		default:
			as = append(as, slog.String(k, "value \""+k))
		}
	}
	return as
}

// crowd adds many attributes now and then.
func (p Profile) crowd(t *rapid.T, label string, as []slog.Attr) []slog.Attr {
	if rapid.IntRange(0, 59).Draw(t, label+"/crowd") < 59 {
		return as
	}
	more := Crowd(rapid.SampledFrom([]int{7, 15, 16, 17, 31, 32, 33, 63, 65, 100, 129, 257}).Draw(t, label+"/size"))
	if rapid.Bool().Draw(t, label+"/grouped") {
		return append(as, slog.Attr{Key: "crowd", Value: slog.GroupValue(more...)})
	}
	return append(as, more...)
}

// ---------------------------------------------------------------- programs

// Op of a logging program: a derivation or a record.
type Op struct {
	Node  int  // the logger derived from or logged to
	Kind  byte // 'A' WithAttrs, 'G' WithGroup, 'R' record, 'L' set threshold
	Name  string
	Attrs []slog.Attr
	Level slog.Level
	Time  time.Time
	PC    uintptr
}

// Program is a history over a growing tree of loggers; node 0 is the root and
// each derivation adds the next node.
type Program []Op

// Program draws a history. chain biases towards deep derivation.
func (p Profile) Program(t *rapid.T, maxOps int, pcs []uintptr) Program {
	nodes := 1
	n := rapid.IntRange(1, maxOps).Draw(t, "ops")
	var prog Program
	deep := 0
	if rapid.IntRange(0, 15).Draw(t, "deep") == 0 {
		deep = rapid.IntRange(3, 13).Draw(t, "deepness")
	}
	if deep == 13 {
		// Many derivations, mostly groups.
		deep = 0
		for more := rapid.SampledFrom([]int{15, 16, 17, 31, 32, 33, 40, 66}).Draw(t, "depth"); more > 0; more-- {
			op := Op{Node: nodes - 1, Kind: 'G', Name: "g" + strconv.Itoa(more)}
			if more%4 == 1 {
				op = Op{Node: nodes - 1, Kind: 'A', Attrs: []slog.Attr{slog.Int("depth", more)}}
			}
			prog = append(prog, op)
			nodes++
		}
	}
	for i := 0; i < deep; i++ {
		l := "deep" + strconv.Itoa(i)
		op := Op{Node: i, Kind: 'G'}
		if rapid.IntRange(0, 4).Draw(t, l+"/kind") == 0 {
			op.Kind = 'A'
			op.Attrs = p.Attrs(t, l, 1)
		} else {
			op.Name = p.Key(t, l+"/name")
		}
		prog = append(prog, op)
		nodes++
	}
	for i := 0; i < n; i++ {
		l := "op" + strconv.Itoa(i)
		op := Op{}
		if rapid.IntRange(0, 2).Draw(t, l+"/last") > 0 {
			op.Node = nodes - 1
		} else {
			op.Node = rapid.IntRange(0, nodes-1).Draw(t, l+"/node")
		}
		k := rapid.IntRange(0, 9).Draw(t, l+"/kind")
		if i == n-1 {
			k = 9
		}
		switch {
		case k < 3:
			op.Kind = 'A'
			op.Attrs = p.crowd(t, l, p.Attrs(t, l, p.Depth))
			nodes++
		case k < 6:
			op.Kind = 'G'
			if rapid.IntRange(0, 9).Draw(t, l+"/noname") > 0 {
				op.Name = p.Key(t, l+"/name")
			}
			nodes++
		default:
			op = p.Record(t, l, op.Node, pcs)
		}
		prog = append(prog, op)
	}
	return prog
}

// Record draws one record op.
func (p Profile) Record(t *rapid.T, l string, node int, pcs []uintptr) Op {
	op := Op{Node: node, Kind: 'R'}
	op.Name = p.Text(t, l+"/msg")
	op.Level = Level(t, l+"/level")
	if rapid.IntRange(0, 5).Draw(t, l+"/zt") < 5 {
		op.Time = Time(t, l+"/time")
	}
	if len(pcs) > 0 {
		op.PC = rapid.SampledFrom(pcs).Draw(t, l+"/pc")
	}
	op.Attrs = p.Attrs(t, l, p.Depth)
	if rapid.IntRange(0, 9).Draw(t, l+"/many") == 9 {
		op.Attrs = append(op.Attrs, p.Attrs(t, l+"/more", p.Depth)...)
		op.Attrs = append(op.Attrs, p.Attrs(t, l+"/most", p.Depth)...)
		op.Attrs = p.crowd(t, l, op.Attrs)
	}
	return op
}

// Level draws a level, mostly near the named ones.
func Level(t *rapid.T, label string) slog.Level {
	switch rapid.IntRange(0, 5).Draw(t, label+"/m") {
	case 0, 1:
		return rapid.SampledFrom([]slog.Level{-4, 0, 4, 8}).Draw(t, label)
	case 2, 3, 4:
		return slog.Level(rapid.IntRange(-12, 16).Draw(t, label))
	default:
		return rapid.SampledFrom([]slog.Level{-100, 100, -1000000, 1000000, math.MaxInt32, math.MinInt32, slog.Level(math.MaxInt64 - 8), slog.Level(math.MinInt64 + 8)}).Draw(t, label)
	}
}

// Record makes the slog record of a record op.
func (op Op) Record() slog.Record {
	r := slog.NewRecord(op.Time, op.Level, op.Name, op.PC)
	r.AddAttrs(op.Attrs...)
	return r
}

// Path of derivation ops from the root to each node.
func (prog Program) Paths() [][]Op {
	paths := [][]Op{nil}
	for _, op := range prog {
		if op.Kind == 'A' || op.Kind == 'G' {
			paths = append(paths, append(append([]Op{}, paths[op.Node]...), op))
		}
	}
	return paths
}

// String writes a program out.
func (prog Program) String() string {
	var b strings.Builder
	for i, op := range prog {
		if i > 0 {
			b.WriteString("; ")
		}
		switch op.Kind {
		case 'A':
			fmt.Fprintf(&b, "n%d.With%s", op.Node, ShowAttrs(op.Attrs))
		case 'G':
			fmt.Fprintf(&b, "n%d.Group(%q)", op.Node, op.Name)
		case 'R':
			fmt.Fprintf(&b, "n%d.Log(%d,%q,t=%v,pc=%v)%s", op.Node, op.Level, op.Name, !op.Time.IsZero(), op.PC != 0, ShowAttrs(op.Attrs))
		case 'L':
			fmt.Fprintf(&b, "threshold=%d", op.Level)
		}
	}
	return b.String()
}

// ShowAttrs writes attributes out without running their methods.
func ShowAttrs(as []slog.Attr) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, a := range as {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(strconv.Quote(a.Key) + "=" + showValue(a.Value))
	}
	b.WriteByte(']')
	return b.String()
}

func showValue(v slog.Value) string {
	switch v.Kind() {
	case slog.KindGroup:
		return "group" + ShowAttrs(v.Group())
	case slog.KindString:
		s := v.String()
		if len(s) > 60 {
			return fmt.Sprintf("%q...(%d)", s[:20], len(s))
		}
		return strconv.Quote(s)
	case slog.KindLogValuer:
		switch w := v.Any().(type) {
		case Valuer:
			return "valuer(" + showValue(w.V) + ")"
		case *PtrValuer:
			return "pvaluer(" + showValue(w.V) + ")"
		}
		return fmt.Sprintf("%T", v.Any())
	case slog.KindAny:
		switch w := v.Any().(type) {
		case ErrT:
			return fmt.Sprintf("err(%q)", w.S)
		case StrT:
			return fmt.Sprintf("stringer(%q)", w.S)
		case TextT:
			return fmt.Sprintf("text(%q)", w.S)
		case JSONT:
			return fmt.Sprintf("json(%s)", w.Raw)
		case FailJSON, FailText:
			return fmt.Sprintf("%T", w)
		case HookStringer, HookError, HookJSON, HookText, HookValuer:
			return fmt.Sprintf("%T", w)
		case chan int:
			return "chan"
		}
		return fmt.Sprintf("%T(%#v)", v.Any(), v.Any())
	case slog.KindTime:
		return v.Time().Format(time.RFC3339Nano)
	default:
		return v.String()
	}
}

// ---------------------------------------------------------------- model

// Model predicts log lines from derivation path and record, following the rules
// of log/slog (and its JSONHandler as the documented default behaviour).
type Model struct {
	Replace   func(groups []string, a slog.Attr) slog.Attr
	AddSource bool
	TimeKey, LevelKey, MessageKey, SourceKey,
	TimeFormat string
	LevelName func(slog.Level) string
	SourceAt  int // position of the source field among the built-in ones, from the end
	// Source gives the expected source field; nil for the default.
	Source func(pc uintptr) any
}

func (m Model) fill() Model {
	if m.TimeKey == "" {
		m.TimeKey = slog.TimeKey
	}
	if m.LevelKey == "" {
		m.LevelKey = slog.LevelKey
	}
	if m.MessageKey == "" {
		m.MessageKey = slog.MessageKey
	}
	if m.SourceKey == "" {
		m.SourceKey = slog.SourceKey
	}
	if m.TimeFormat == "" {
		m.TimeFormat = time.RFC3339Nano
	}
	if m.LevelName == nil {
		m.LevelName = slog.Level.String
	}
	return m
}

// SourceMarker stands for the source value while replace functions run on it.
type SourceMarker struct{ PC uintptr }

// Expect gives the expected fields of op logged through path.
func (m Model) Expect(path []Op, op Op) Obj {
	m = m.fill()
	var o Obj
	basic := func(a slog.Attr, format string) {
		if m.Replace != nil {
			a = m.Replace(nil, a)
			a.Value = a.Value.Resolve()
		}
		if isEmpty(a) {
			return
		}
		if s, ok := a.Value.Any().(SourceMarker); ok {
			o = append(o, Field{a.Key, m.Source(s.PC)})
			return
		}
		if a.Value.Kind() == slog.KindTime {
			o = append(o, Field{a.Key, Text(a.Value.Time().Format(format))})
			return
		}
		o = append(o, m.attr(a, nil, true)...)
	}
	source := func(at int) {
		if m.AddSource && op.PC != 0 && at == m.SourceAt {
			basic(slog.Any(m.SourceKey, SourceMarker{op.PC}), time.RFC3339Nano)
		}
	}
	source(3)
	if !op.Time.IsZero() {
		basic(slog.Time(m.TimeKey, op.Time), m.TimeFormat)
	}
	source(2)
	basic(slog.String(m.LevelKey, m.LevelName(op.Level)), time.RFC3339Nano)
	source(1)
	basic(slog.String(m.MessageKey, op.Name), time.RFC3339Nano)
	source(0)
	return append(o, m.walk(path, nil, op.Attrs)...)
}

// Fields gives the expected fields of attributes logged through path, without the built-in ones.
func (m Model) Fields(path []Op, attrs []slog.Attr) Obj { return m.fill().walk(path, nil, attrs) }

// OnlyGroups leaves the groups of a path.
func OnlyGroups(path []Op) []Op {
	var out []Op
	for _, op := range path {
		if op.Kind == 'G' {
			out = append(out, op)
		}
	}
	return out
}

func isEmpty(a slog.Attr) bool {
	return a.Key == "" && a.Value.Kind() == slog.KindAny && a.Value.Any() == nil
}

func (m Model) walk(path []Op, groups []string, last []slog.Attr) Obj {
	var o Obj
	for i, st := range path {
		if st.Kind == 'A' {
			o = append(o, m.attrs(st.Attrs, groups)...)
		} else if st.Name != "" {
			sub := m.walk(path[i+1:], append(append([]string{}, groups...), st.Name), last)
			if len(sub) > 0 {
				o = append(o, Field{st.Name, sub})
			}
			return o
		}
	}
	return append(o, m.attrs(last, groups)...)
}

func (m Model) attrs(as []slog.Attr, groups []string) Obj {
	var o Obj
	for _, a := range as {
		o = append(o, m.attr(a, groups, false)...)
	}
	return o
}

func (m Model) attr(a slog.Attr, groups []string, replaced bool) Obj {
	a.Value = a.Value.Resolve()
	if m.Replace != nil && !replaced && a.Value.Kind() != slog.KindGroup {
		a = m.Replace(groups, a)
		a.Value = a.Value.Resolve()
	}
	if isEmpty(a) {
		return nil
	}
	if a.Value.Kind() == slog.KindGroup {
		inner := groups
		if a.Key != "" {
			inner = append(append([]string{}, groups...), a.Key)
		}
		sub := m.attrs(a.Value.Group(), inner)
		if len(sub) == 0 || a.Key == "" {
			return sub
		}
		return Obj{{a.Key, sub}}
	}
	return Obj{{a.Key, Expected(a.Value)}}
}

// OneOf accepts any of several values.
type OneOf []any

// Expected value of a resolved non-group value.
func Expected(v slog.Value) any {
	switch v.Kind() {
	case slog.KindString:
		return Text(v.String())
	case slog.KindBool:
		return v.Bool()
	case slog.KindInt64:
		return json.Number(strconv.FormatInt(v.Int64(), 10))
	case slog.KindUint64:
		return json.Number(strconv.FormatUint(v.Uint64(), 10))
	case slog.KindDuration:
		return json.Number(strconv.FormatInt(int64(v.Duration()), 10))
	case slog.KindFloat64:
		f := v.Float64()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return Contains(strings.TrimPrefix(strconv.FormatFloat(f, 'g', -1, 64), "+"))
		}
		return Float(f)
	case slog.KindTime:
		return v.Time().Format(time.RFC3339Nano)
	}
	switch w := v.Any().(type) {
	case ErrStr, *StrJSON, ErrText, JSONText, net.IPNet, *big.Int, *big.Float:
		return anyForm(w)
	case ErrT:
		return Text(w.S)
	case error:
		return Text(w.Error())
	case StrT:
		return Text(w.S)
	case fmt.Stringer:
		return Text(w.String())
	case TextT:
		return Text(w.S)
	case JSONT:
		raw, err := DecodeAny([]byte(w.Raw))
		if err != nil {
			panic(err)
		}
		return OneOf{Text(w.Raw), raw}
	case json.RawMessage:
		raw, err := DecodeAny(w)
		if err != nil {
			panic(err)
		}
		return OneOf{Text(string(w)), raw}
	case FailJSON, FailText:
		return Prefix("!ERROR")
	}
	b, err := json.Marshal(v.Any())
	if err != nil {
		return Prefix("!ERROR")
	}
	d, err := DecodeAny(b)
	if err != nil {
		panic(err)
	}
	return d
}

// ---------------------------------------------------------------- writers

// Sink records every Write call.
type Sink struct {
	mu     sync.Mutex
	Writes [][]byte
}

func (s *Sink) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Writes = append(s.Writes, append([]byte{}, b...))
	return len(b), nil
}

// Take returns and forgets the writes so far.
func (s *Sink) Take() [][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	w := s.Writes
	s.Writes = nil
	return w
}
