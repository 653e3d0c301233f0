package handlers

import (
	"bytes"
	"encoding/json"
	"fmt"
	"log/slog"
	"slices"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

func jsonInt(n int) json.Number { return json.Number(strconv.Itoa(n)) }

const progRule = "random history of WithAttrs/WithGroup/log operations over a tree of loggers; "

// ---------------------------------------------------------------- H01

func TestH01_ValidLine(t *testing.T) {
	p := kit.Profile{Any: true, Fail: true, Valuers: true, Empties: 12, Wild: true, Depth: 3, Long: true}
	kit.Check(t, 6000, 120000, progRule+"wild text everywhere, failing marshallers, NaN; non-trivial when some text or value needs special treatment", func(c *kit.C) {
		mk := drawMaker(c.T)
		opts := &slog.HandlerOptions{Level: everything, AddSource: rapid.Bool().Draw(c.T, "src")}
		if rapid.IntRange(0, 3).Draw(c.T, "rep") == 0 {
			opts.ReplaceAttr = drawReplace(c.T, p).fn
		}
		var ex *flash.Extras
		if mk.name == "flash" && rapid.IntRange(0, 3).Draw(c.T, "extras") == 0 {
			ex = &flash.Extras{
				TimeKey: kit.WildText(c.T, "timekey"), LevelKey: kit.WildText(c.T, "levelkey"),
				MessageKey: kit.WildText(c.T, "msgkey"), SourceKey: kit.WildText(c.T, "srckey"),
				TimeFormat: kit.WildText(c.T, "timefmt"), LevelNames: map[slog.Level]string{0: kit.WildText(c.T, "l0"), 3: kit.WildText(c.T, "l3")},
			}
		}
		prog := p.Program(c.T, 8, somePCs)
		text := prog.String()
		special := strings.Contains(text, `\`) || anyAttr(prog, func(a slog.Attr) bool { return a.Value.Kind() == slog.KindAny })
		c.Case(special && records(prog) > 0, "%s src=%v replace=%v extras=%v: %s", mk.name, opts.AddSource, opts.ReplaceAttr != nil, ex != nil, text)
		classify(c, prog)
		var tr *tree
		if ex != nil {
			s := &kit.Sink{}
			tr = &tree{sink: s, nodes: []slog.Handler{flash.NewHandler(s, opts, ex)}}
		} else {
			tr = newTree(mk, opts)
		}
		for _, op := range prog {
			if op.Kind != 'R' {
				tr.derive(op)
				if w := tr.sink.Take(); len(w) > 0 {
					c.Fatalf("%s: derivation wrote %q", mk.name, w)
				}
				continue
			}
			w, _ := tr.log(op)
			one(c.T, mk.name+" "+kit.Program{op}.String(), w)
		}
	})
}

// ---------------------------------------------------------------- H02

func TestH02_Content(t *testing.T) {
	p := kit.Profile{Any: true, Fail: true, Valuers: true, Empties: 3, Depth: 3, Long: true}
	kit.Check(t, 6000, 120000, progRule+"every attribute kind; non-trivial when a record through a derived logger carries attributes", func(c *kit.C) {
		mk, m := drawConfigured(c.T)
		opts := &slog.HandlerOptions{Level: everything, AddSource: rapid.IntRange(0, 3).Draw(c.T, "src") == 0}
		m.AddSource = opts.AddSource
		prog := p.Program(c.T, 8, somePCs)
		nt := false
		for _, op := range prog {
			nt = nt || op.Kind == 'R' && op.Node > 0 && len(op.Attrs) > 0
		}
		c.Case(nt, "%s src=%v: %s", mk.name, opts.AddSource, prog)
		classify(c, prog)
		content(c.T, mk, opts, m, prog)
	})
}

// Many attributes, large values and long derivation chains.
func TestH02_Large(t *testing.T) {
	p := kit.Profile{Any: true, Valuers: true, Empties: 2, Depth: 4, Width: 14, Long: true}
	kit.Check(t, 300, 6000, progRule+"wide and deep: up to 40 operations with up to 14 attributes at each of 4 nesting levels; non-trivial when a line has more than 1024 bytes", func(c *kit.C) {
		mk, m := drawConfigured(c.T)
		opts := &slog.HandlerOptions{Level: everything}
		var prog kit.Program
		n := rapid.IntRange(3, 20).Draw(c.T, "chain")
		for i := 0; i < n; i++ {
			op := kit.Op{Node: i, Kind: 'A'}
			if rapid.IntRange(0, 2).Draw(c.T, fmt.Sprint("g", i)) == 0 {
				op.Kind, op.Name = 'G', p.Key(c.T, fmt.Sprint("n", i))
			} else {
				op.Attrs = p.Attrs(c.T, fmt.Sprint("w", i), 1)
			}
			prog = append(prog, op)
		}
		for i := 0; i < 3; i++ {
			prog = append(prog, p.Record(c.T, fmt.Sprint("r", i), rapid.IntRange(0, n).Draw(c.T, fmt.Sprint("at", i)), nil))
		}
		c.Case(len(prog.String()) > 2000, "%s: %s", mk.name, prog)
		content(c.T, mk, opts, m, prog)
	})
}

// ---------------------------------------------------------------- H03

func hasEmpty(prog kit.Program) bool {
	return anyAttr(prog, func(a slog.Attr) bool {
		if a.Equal(slog.Attr{}) {
			return true
		}
		v := a.Value.Resolve()
		return v.Kind() == slog.KindGroup && len((kit.Model{}).Expect(nil, kit.Op{Attrs: []slog.Attr{a}})) == 2
	})
}

func TestH03_Empties(t *testing.T) {
	p := kit.Profile{Any: true, Valuers: true, Empties: 40, Depth: 3, Width: 3}
	kit.Check(t, 8000, 150000, progRule+"40% empty attributes and groups in all forms, many groups; non-trivial when an empty element occurs together with a group", func(c *kit.C) {
		mk, m := drawConfigured(c.T)
		opts := &slog.HandlerOptions{Level: everything}
		if rapid.IntRange(0, 3).Draw(c.T, "rep") == 0 {
			r := drawReplace(c.T, p)
			opts.ReplaceAttr = r.fn
			m.Replace = r.fn
		}
		prog := p.Program(c.T, 9, nil)
		c.Case(hasEmpty(prog) && strings.Contains(prog.String(), "roup"), "%s replace=%v: %s", mk.name, opts.ReplaceAttr != nil, prog)
		classify(c, prog)
		content(c.T, mk, opts, m, prog)
	})
}

// Inserting empty things anywhere changes no byte of the output.
func TestH03_InsertEmpty(t *testing.T) {
	p := kit.Profile{Any: true, Valuers: true, Depth: 2, Width: 3}
	empties := []slog.Attr{
		{}, slog.Group("e"), slog.Group(""), slog.Group("e", slog.Attr{}), slog.Group("e", slog.Group("f"), slog.Attr{}),
		slog.Any("e", kit.Valuer{V: slog.GroupValue()}), slog.Any("", kit.Valuer{V: slog.AnyValue(nil)}),
		{Key: "e", Value: slog.GroupValue(slog.Attr{Key: "f", Value: slog.AnyValue(kit.Valuer{V: slog.GroupValue(slog.Attr{})})})},
	}
	kit.Check(t, 4000, 80000, "a logging program and the same with empty elements inserted in attribute lists and as derivations; non-trivial when something was inserted before a record", func(c *kit.C) {
		mk, _ := drawConfigured(c.T)
		prog := p.Program(c.T, 7, nil)
		var fat kit.Program
		rename := []int{0}
		next, inserted := 1, 0
		ins := func(as []slog.Attr, l string) []slog.Attr {
			out := slices.Clone(as)
			for i := rapid.IntRange(0, 2).Draw(c.T, l); i > 0; i-- {
				at := rapid.IntRange(0, len(out)).Draw(c.T, l+"/at")
				out = slices.Insert(out, at, rapid.SampledFrom(empties).Draw(c.T, l+"/e"))
				inserted++
			}
			return out
		}
		for i, op := range prog {
			l := fmt.Sprint("ins", i)
			node := rename[op.Node]
			switch rapid.IntRange(0, 4).Draw(c.T, l+"/derive") {
			case 0:
				fat = append(fat, kit.Op{Node: node, Kind: 'G'})
				node = next
				next++
				inserted++
			case 1:
				fat = append(fat, kit.Op{Node: node, Kind: 'A', Attrs: ins(nil, l+"/pre")})
				node = next
				next++
				inserted++
			}
			op.Node = node
			op.Attrs = ins(op.Attrs, l)
			fat = append(fat, op)
			if op.Kind != 'R' {
				rename = append(rename, next)
				next++
			}
		}
		c.Case(inserted > 0 && records(prog) > 0, "%s: %s", mk.name, fat)
		a, b := newTree(mk, &slog.HandlerOptions{Level: everything}), newTree(mk, &slog.HandlerOptions{Level: everything})
		run := func(tr *tree, pr kit.Program) (all [][]byte) {
			for _, op := range pr {
				if op.Kind != 'R' {
					tr.derive(op)
				} else if w, err := tr.log(op); err != nil {
					c.Fatalf("%s: error %v", mk.name, err)
				} else {
					all = append(all, w...)
				}
			}
			return
		}
		x, y := run(a, prog), run(b, fat)
		for i := range x {
			if i >= len(y) || !bytes.Equal(x[i], y[i]) {
				c.Fatalf("%s: empty elements changed the output\n lean %q\n fat  %q\n lean program %s\n fat program %s", mk.name, x, y, prog, fat)
			}
		}
		if len(x) != len(y) {
			c.Fatalf("%s: number of writes changed %d -> %d", mk.name, len(x), len(y))
		}
	})
}

// ---------------------------------------------------------------- H08

func TestH08_RoundTrip(t *testing.T) {
	p := kit.Profile{Wild: true}
	kit.Check(t, 12000, 300000, "one record with generated text as message, key, string value, group name, error and stringer text; non-trivial when the text needs escaping or is not ASCII", func(c *kit.C) {
		mk := drawMaker(c.T)
		msg := kit.WildText(c.T, "msg")
		key := kit.WildText(c.T, "key")
		val := kit.WildText(c.T, "val")
		grp := kit.WildText(c.T, "grp")
		gval := kit.WildText(c.T, "gval")
		txt := kit.WildText(c.T, "txt")
		prog := kit.Program{
			{Kind: 'A', Attrs: []slog.Attr{slog.String(val, key)}},
			{Kind: 'G', Node: 1, Name: grp},
			{Kind: 'A', Node: 2, Attrs: []slog.Attr{slog.Any("err", kit.ErrT{S: txt})}},
			{Kind: 'R', Node: 3, Name: msg, Attrs: []slog.Attr{slog.String(key, val), slog.Group(gval, slog.Any("s", kit.StrT{S: txt}), slog.String(txt, gval)), slog.Any("tm", kit.TextT{S: txt})}},
		}
		all := msg + key + val + grp + gval + txt
		c.Case(strconv.QuoteToASCII(all) != `"`+all+`"`, "%s: %s", mk.name, prog)
		c.Class(!utf8.ValidString(all), "invalid UTF-8")
		c.Class(strings.ContainsAny(all, "\x00\x01\x1f\x1b\x7f\v"), "control characters")
		c.Class(len(all) > 1024, "long")
		_ = p
		opts := &slog.HandlerOptions{Level: everything}
		tr := newTree(mk, opts)
		for _, op := range prog[:3] {
			tr.derive(op)
		}
		w, err := tr.log(prog[3])
		if err != nil {
			c.Fatalf("%s: error %v", mk.name, err)
		}
		line := one(c.T, mk.name, w)
		compare(c.T, mk.name, line, kit.Model{}, prog.Paths()[3], prog[3], w[0])
		if mk.name == "flash" {
			if err := flashEscapes(w[0], utf8.ValidString(all)); err != nil {
				c.Fatalf("flash escapes: %v in %q", err, w[0])
			}
		}
	})
}

// flashEscapes checks the documented escape forms inside all strings of a line.
func flashEscapes(line []byte, valid bool) error {
	in := false
	for i := 0; i < len(line); i++ {
		b := line[i]
		switch {
		case b == '"':
			in = !in
		case !in:
		case b == '/':
			return fmt.Errorf("slash without backslash at %d", i)
		case b < 0x20 || b == 0x7f:
			return fmt.Errorf("raw control character at %d", i)
		case b == '\\':
			i++
			switch line[i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			case 'u':
				h := string(line[i+1 : i+5])
				n, err := strconv.ParseUint(h, 16, 16)
				if err != nil {
					return err
				}
				i += 4
				if n == 0xFFFD && !valid {
					continue
				}
				if h != strings.ToUpper(h) {
					return fmt.Errorf("lower case hexadecimal escape %q", h)
				}
				if !(n < 0x20 || n == 0x7f) {
					return fmt.Errorf("needless escape %q", h)
				}
				if strings.ContainsRune("\b\f\n\r\t", rune(n)) {
					return fmt.Errorf("long escape %q for a short one", h)
				}
			default:
				return fmt.Errorf("unexpected escape %q", line[i])
			}
		}
	}
	return nil
}

// Every single code point and every pair of interesting pieces round-trips.
func TestH08_EveryRune(t *testing.T) {
	var blocks [][2]rune
	for r := rune(0); r <= utf8.MaxRune; r += 0x1000 {
		blocks = append(blocks, [2]rune{r, r + 0x1000})
	}
	kit.Enum(t, "every Unicode code point, alone in the message and between two others, in blocks of 4096; exhaustive", blocks, func(f kit.Failer, bl [2]rune) (bool, string) {
		for _, mk := range both {
			tr := newTree(mk, &slog.HandlerOptions{Level: everything})
			for lo := bl[0]; lo < bl[1]; lo += 64 {
				var as []slog.Attr
				for r := lo; r < lo+64 && r <= utf8.MaxRune; r++ {
					if r >= 0xD800 && r < 0xE000 {
						continue
					}
					as = append(as, slog.String("k", string(r)), slog.String(string(r), "x"+string(r)+"y"))
				}
				op := kit.Op{Kind: 'R', Name: "m", Attrs: as}
				w, err := tr.log(op)
				if err != nil {
					f.Fatalf("%v", err)
				}
				compare(f, mk.name, one(f, mk.name, w), kit.Model{}, nil, op, w[0])
				if mk.name == "flash" {
					if err := flashEscapes(w[0], true); err != nil {
						f.Fatalf("flash escapes: %v in %q", err, w[0])
					}
				}
			}
		}
		return true, fmt.Sprintf("code points %#x-%#x", bl[0], bl[1]-1)
	})
}

// ---------------------------------------------------------------- H12

func squashAll(v any) any {
	switch v := v.(type) {
	case string:
		if strings.Contains(v, "\uFFFD") {
			for strings.Contains(v, "\uFFFD\uFFFD") {
				v = strings.ReplaceAll(v, "\uFFFD\uFFFD", "\uFFFD")
			}
		}
		return v
	case kit.Obj:
		o := kit.Obj{}
		for _, f := range v {
			o = append(o, kit.Field{Key: squashAll(f.Key).(string), Val: squashAll(f.Val)})
		}
		return o
	case []any:
		var a []any
		for _, e := range v {
			a = append(a, squashAll(e))
		}
		return a
	case json.Number:
		if strings.ContainsAny(string(v), ".eE") {
			f, err := strconv.ParseFloat(string(v), 64)
			if err == nil {
				return json.Number(strconv.FormatFloat(f, 'f', -1, 64))
			}
		}
		return v
	}
	return v
}

func like(m kit.Model, path []kit.Op, op kit.Op, got kit.Obj) bool {
	for at := 0; at <= 3; at++ {
		m.SourceAt = at
		if kit.Diff("line", m.Expect(path, op), got) == "" {
			return true
		}
	}
	return false
}

func TestH12_Equivalence(t *testing.T) {
	kit.Check(t, 6000, 120000, progRule+"basic kinds, groups, valuers, run on flash, sloggy and slog.JSONHandler with the same options; non-trivial when a record through a derived logger carries a group or valuer", func(c *kit.C) {
		p := kit.Profile{Valuers: true, Empties: 10, Depth: 3, Wild: rapid.Bool().Draw(c.T, "wild"), Long: true}
		src := rapid.Bool().Draw(c.T, "src")
		lv := rapid.SampledFrom([]slog.Leveler{everything, slog.LevelDebug, slog.LevelWarn, slog.Level(3), nil}).Draw(c.T, "threshold")
		var opts *slog.HandlerOptions
		if src || lv != nil || rapid.Bool().Draw(c.T, "opts") {
			opts = &slog.HandlerOptions{Level: lv, AddSource: src}
		}
		clone := func() *slog.HandlerOptions {
			if opts == nil {
				return nil
			}
			o := *opts
			return &o
		}
		prog := p.Program(c.T, 8, somePCs)
		c.Case(derivedRecords(prog) > 0 && (strings.Contains(prog.String(), "group[") || strings.Contains(prog.String(), "valuer(")), "src=%v threshold=%v: %s", src, lv, prog)
		classify(c, prog)
		trees := []*tree{newTree(mkJSON, clone()), newTree(mkFlash, clone()), newTree(mkSloggy, clone())}
		names := []string{"json", "flash", "sloggy"}
		paths := prog.Paths()
		m := kit.Model{AddSource: src, Source: sourceOf}
		for _, op := range prog {
			var first kit.Obj
			var firstSrc []kit.Field
			var firstN int
			var skip bool
			for i, tr := range trees {
				if op.Kind != 'R' {
					tr.derive(op)
					continue
				}
				if tr.nodes[op.Node].Enabled(ctx, op.Level) {
					if err := tr.nodes[op.Node].Handle(ctx, op.Record()); err != nil {
						c.Fatalf("%s: error %v", names[i], err)
					}
				}
				w := tr.sink.Take()
				if i == 0 {
					firstN = len(w)
				} else if firstN != len(w) {
					c.Fatalf("%s wrote %d times, json %d times for %s", names[i], len(w), firstN, kit.Program{op})
				}
				if len(w) == 0 {
					continue
				}
				if i == 0 {
					// the standard handler loses separators after some all-empty groups: no reference then
					ref, err := kit.DecodeLine(w[0])
					skip = err != nil || !like(m, paths[op.Node], op, ref)
					c.Class(skip, "standard handler unusable as reference")
				}
				if skip {
					continue
				}
				o := squashAll(one(c.T, names[i], w)).(kit.Obj)
				basics := 2
				if !op.Time.IsZero() {
					basics++
				}
				var s []kit.Field
				if src && op.PC != 0 {
					o, s = splitSource(o, basics+1)
				}
				if i == 0 {
					first, firstSrc = o, s
					continue
				}
				if d := kit.Diff("line", first, o); d != "" {
					c.Fatalf("%s differs from json: %s\n json %s\n %s %q", names[i], d, first, names[i], w)
				}
				if len(s) != len(firstSrc) {
					c.Fatalf("%s has %d source fields, json %d", names[i], len(s), len(firstSrc))
				}
				for k := range s {
					if d := kit.Diff("source", kit.Unordered(firstSrc[k].Val.(kit.Obj)), s[k].Val); d != "" {
						c.Fatalf("%s source: %s", names[i], d)
					}
				}
			}
		}
	})
}
