package handlers

import (
	"fmt"
	"log/slog"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// rule of a generated replace function.
type rule struct {
	key    string // "" matches any key
	depth  int    // -1 any
	last   string // innermost group, "" any
	action string
	arg    string
}

type replacer struct {
	rules []rule
	text  string
}

func (r *replacer) fn(groups []string, a slog.Attr) slog.Attr {
	if a.Key == "" && a.Value.Kind() == slog.KindAny && a.Value.Any() == nil {
		return a
	}
	for _, ru := range r.rules {
		if ru.key != "" && ru.key != a.Key {
			continue
		}
		if ru.depth >= 0 && ru.depth != len(groups) {
			continue
		}
		if ru.last != "" && (len(groups) == 0 || groups[len(groups)-1] != ru.last) {
			continue
		}
		switch ru.action {
		case "remove":
			return slog.Attr{}
		case "rename":
			a.Key = ru.arg
		case "string":
			a.Value = slog.StringValue(ru.arg)
		case "int":
			a.Value = slog.IntValue(len(groups))
		case "path":
			a.Value = slog.StringValue(strings.Join(groups, "/"))
		case "valuer":
			a.Value = slog.AnyValue(kit.Valuer{V: slog.AnyValue(kit.Valuer{V: slog.StringValue(ru.arg)})})
		case "err":
			a.Value = slog.AnyValue(kit.ErrT{S: ru.arg})
		case "time":
			a.Value = slog.TimeValue(time.Unix(1e9, 0).UTC())
		case "nokey":
			a.Key = ""
		case "nil":
			a.Value = slog.AnyValue(nil)
		case "emptygroup":
			a.Value = slog.GroupValue()
		}
	}
	return a
}

func drawReplace(t *rapid.T, p kit.Profile) *replacer {
	r := &replacer{}
	n := rapid.IntRange(1, 4).Draw(t, "rules")
	for i := 0; i < n; i++ {
		l := fmt.Sprint("rule", i)
		ru := rule{depth: -1}
		if rapid.IntRange(0, 5).Draw(t, l+"/any") > 0 {
			ru.key = p.Key(t, l+"/key")
		}
		if rapid.IntRange(0, 2).Draw(t, l+"/d") == 0 {
			ru.depth = rapid.IntRange(0, 3).Draw(t, l+"/depth")
		}
		if rapid.IntRange(0, 4).Draw(t, l+"/g") == 0 {
			ru.last = p.Key(t, l+"/last")
		}
		ru.action = rapid.SampledFrom([]string{"remove", "remove", "rename", "string", "int", "path", "valuer", "err", "time", "nokey", "nil", "emptygroup"}).Draw(t, l+"/action")
		if ru.key == "" && ru.depth < 0 && (ru.action == "emptygroup" || ru.action == "remove") {
			ru.depth = 1
		}
		ru.arg = p.Text(t, l+"/arg")
		r.rules = append(r.rules, ru)
	}
	r.text = fmt.Sprintf("%q", r.rules)
	return r
}

type call struct {
	groups []string
	attr   slog.Attr
}

func isNone(a slog.Attr) bool {
	return a.Key == "" && a.Value.Kind() == slog.KindAny && a.Value.Any() == nil
}

func callNames(cs []call) []string {
	var out []string
	for _, c := range cs {
		if !isNone(c.attr) {
			out = append(out, fmt.Sprintf("%q in %q", c.attr.Key, c.groups))
		}
	}
	sort.Strings(out)
	return out
}

func TestH07_ReplaceAttr(t *testing.T) {
	p := kit.Profile{Any: true, Valuers: true, Empties: 8, Depth: 3}
	kit.Check(t, 6000, 120000, progRule+"with a generated replace function (match by key, depth, innermost group; rename, change, remove); non-trivial when the function changed something in a record with groups", func(c *kit.C) {
		mk, m := drawConfigured(c.T)
		r := drawReplace(c.T, p)
		src := rapid.IntRange(0, 3).Draw(c.T, "src") == 0
		prog := p.Program(c.T, 7, somePCs)

		var got, want []call
		changed := false
		opts := &slog.HandlerOptions{Level: everything, AddSource: src,
			ReplaceAttr: func(groups []string, a slog.Attr) slog.Attr {
				got = append(got, call{slices.Clone(groups), a})
				return r.fn(groups, a)
			}}
		m.AddSource = src
		m.Replace = func(groups []string, a slog.Attr) slog.Attr {
			want = append(want, call{slices.Clone(groups), a})
			b := r.fn(groups, a)
			if len(groups) > 0 && !isNone(a) && (b.Key != a.Key || !sameValue(a.Value, b.Value)) {
				changed = true
			}
			return b
		}
		tr := newTree(mk, opts)
		paths := prog.Paths()
		for _, op := range prog {
			path := paths[op.Node]
			groups := kit.OnlyGroups(path)
			got, want = nil, nil
			switch op.Kind {
			case 'G':
				tr.derive(op)
				checkCalls(c, mk.name, op, nil, got)
			case 'A':
				tr.derive(op)
				m.Fields(groups, op.Attrs)
				checkCalls(c, mk.name, op, want, got)
			case 'R':
				w, err := tr.log(op)
				if err != nil {
					c.Fatalf("%s: error %v", mk.name, err)
				}
				m.Expect(groups, op)
				checkCalls(c, mk.name, op, want, got)
				compare(c.T, mk.name, one(c.T, mk.name, w), m, path, op, w[0])
			}
		}
		c.Case(changed, "%s src=%v rules=%s: %s", mk.name, src, r.text, prog)
		classify(c, prog)
	})
}

func sameValue(a, b slog.Value) bool {
	if a.Kind() != b.Kind() {
		return false
	}
	if a.Kind() == slog.KindAny || a.Kind() == slog.KindLogValuer || a.Kind() == slog.KindGroup {
		return true
	}
	return a.Equal(b)
}

func checkCalls(c *kit.C, who string, op kit.Op, want, got []call) {
	for _, g := range got {
		k := g.attr.Value.Kind()
		if k == slog.KindLogValuer {
			c.Fatalf("%s: replace function got unresolved value for %q", who, g.attr.Key)
		}
		if k == slog.KindGroup {
			c.Fatalf("%s: replace function called on group %q", who, g.attr.Key)
		}
	}
	w, g := callNames(want), callNames(got)
	if !slices.Equal(w, g) {
		c.Fatalf("%s: replace function calls differ for %s\n want %q\n got  %q", who, kit.Program{op}, w, g)
	}
}
