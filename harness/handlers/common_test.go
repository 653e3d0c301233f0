package handlers

import (
	"context"
	"fmt"
	"io"
	"log/slog"
	"math"
	"runtime"
	"slices"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

type maker struct {
	name string
	make func(w io.Writer, o *slog.HandlerOptions) slog.Handler
}

var (
	mkFlash  = maker{"flash", func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return flash.NewHandler(w, o, nil) }}
	mkSloggy = maker{"sloggy", func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return sloggy.NewHandler(w, o) }}
	mkJSON   = maker{"json", func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return slog.NewJSONHandler(w, o) }}
	both     = []maker{mkFlash, mkSloggy}
)

const everything = slog.Level(math.MinInt64)

var ctx = context.Background()

//go:noinline
func herePC() uintptr {
	var pcs [1]uintptr
	runtime.Callers(2, pcs[:])
	return pcs[0]
}

//go:noinline
func store(pc *uintptr) {
	var pcs [1]uintptr
	runtime.Callers(2, pcs[:])
	*pc = pcs[0]
}

func inlined(pc *uintptr) {
	store(pc)
}

type recv struct{}

func (recv) method() uintptr     { return herePC() }
func generic[T any](_ T) uintptr { return herePC() }

// somePCs are program counters of varied call sites.
var somePCs = func() []uintptr {
	pcs := []uintptr{0, herePC(),
		herePC(),
		recv{}.method(), generic(1), generic("s"),
		func() uintptr { return herePC() }(),
	}
	var pc uintptr
	store(&pc)

	pcs = append(pcs, pc)
	func() { store(&pc) }()
	pcs = append(pcs, pc)
	inlined(&pc)
	pcs = append(pcs, pc)
	return pcs
}()

func sourceOf(pc uintptr) any {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	return kit.Unordered{
		{Key: "function", Val: f.Function},
		{Key: "file", Val: f.File},
		{Key: "line", Val: jsonInt(f.Line)},
	}
}

// tree runs a program on one handler.
type tree struct {
	nodes []slog.Handler
	sink  *kit.Sink
}

func newTree(mk maker, o *slog.HandlerOptions) *tree {
	s := &kit.Sink{}
	return &tree{nodes: []slog.Handler{mk.make(s, o)}, sink: s}
}

// derive applies a derivation op.
func (tr *tree) derive(op kit.Op) {
	h := tr.nodes[op.Node]
	switch op.Kind {
	case 'A':
		tr.nodes = append(tr.nodes, h.WithAttrs(slices.Clone(op.Attrs)))
	case 'G':
		tr.nodes = append(tr.nodes, h.WithGroup(op.Name))
	}
}

// log applies a record op and returns the writes.
func (tr *tree) log(op kit.Op) ([][]byte, error) {
	h := tr.nodes[op.Node]
	if !h.Enabled(ctx, op.Level) {
		return nil, fmt.Errorf("level %d not enabled", op.Level)
	}
	err := h.Handle(ctx, op.Record())
	return tr.sink.Take(), err
}

func one(t kit.Failer, who string, writes [][]byte) kit.Obj {
	t.Helper()
	if len(writes) != 1 {
		t.Fatalf("%s: %d Write calls for one record: %q", who, len(writes), writes)
	}
	o, err := kit.DecodeLine(writes[0])
	if err != nil {
		t.Fatalf("%s: %v in line %q", who, err, writes[0])
	}
	return o
}

// splitSource takes the source field among the built-in ones out of the fields.
func splitSource(o kit.Obj, basics int) (kit.Obj, []kit.Field) {
	var src []kit.Field
	var rest kit.Obj
	for i, f := range o {
		if i < basics && f.Key == slog.SourceKey {
			src = append(src, f)
		} else {
			rest = append(rest, f)
		}
	}
	return rest, src
}

// content compares every record of a program with the model.
func content(t kit.Failer, mk maker, o *slog.HandlerOptions, m kit.Model, prog kit.Program) {
	t.Helper()
	paths := prog.Paths()
	tr := newTree(mk, o)
	for _, op := range prog {
		if op.Kind != 'R' {
			tr.derive(op)
			continue
		}
		w, err := tr.log(op)
		if err != nil {
			t.Fatalf("%s: error %v from %s", mk.name, err, kit.Program{op})
		}
		compare(t, mk.name, one(t, mk.name, w), m, paths[op.Node], op, w[0])
	}
}

// compare a decoded line with the model; the source field may stand anywhere among the built-in fields.
func compare(t kit.Failer, who string, got kit.Obj, m kit.Model, path []kit.Op, op kit.Op, line []byte) {
	t.Helper()
	want := m.Expect(path, op)
	d := kit.Diff("line", want, got)
	for at := 1; at <= 3 && d != "" && m.AddSource; at++ {
		m2 := m
		m2.SourceAt = at
		if kit.Diff("line", m2.Expect(path, op), got) == "" {
			d = ""
		}
	}
	if d != "" {
		if len(line) > 2000 {
			line = append(append([]byte{}, line[:2000]...), "..."...)
		}
		t.Fatalf("%s: %s\n line %q\n want %s\n path %s\n op %s", who, d, line, kit.Show(want), kit.Program(path), kit.Program{op})
	}
}

func records(prog kit.Program) (n int) {
	for _, op := range prog {
		if op.Kind == 'R' {
			n++
		}
	}
	return
}

func derivedRecords(prog kit.Program) (n int) {
	for _, op := range prog {
		if op.Kind == 'R' && op.Node > 0 {
			n++
		}
	}
	return
}

func anyAttr(prog kit.Program, f func(slog.Attr) bool) bool {
	var in func(as []slog.Attr) bool
	in = func(as []slog.Attr) bool {
		for _, a := range as {
			if f(a) {
				return true
			}
			v := a.Value.Resolve()
			if v.Kind() == slog.KindGroup && in(v.Group()) {
				return true
			}
		}
		return false
	}
	for _, op := range prog {
		if in(op.Attrs) {
			return true
		}
	}
	return false
}

func classify(c *kit.C, prog kit.Program) {
	c.Class(derivedRecords(prog) > 0, "derived logger")
	c.Class(anyAttr(prog, func(a slog.Attr) bool { return a.Value.Kind() == slog.KindGroup }), "group value")
	c.Class(anyAttr(prog, func(a slog.Attr) bool { return a.Value.Kind() == slog.KindLogValuer }), "log valuer")
	c.Class(anyAttr(prog, func(a slog.Attr) bool { return a.Value.Kind() == slog.KindAny }), "any value")
	deep, group := 0, false
	for _, p := range prog.Paths() {
		n := 0
		for _, op := range p {
			if op.Kind == 'G' && op.Name != "" {
				group = true
				n++
			}
		}
		deep = max(deep, n)
	}
	c.Class(group, "WithGroup")
	c.Class(deep >= 2, "nested WithGroup")
}

func drawMaker(t *rapid.T) maker { return rapid.SampledFrom(both).Draw(t, "handler") }

// drawConfigured also draws flash handlers with extras, along with a model of the handler.
func drawConfigured(t *rapid.T) (maker, kit.Model) {
	mk := drawMaker(t)
	if mk.name != "flash" || rapid.IntRange(0, 2).Draw(t, "extras") > 0 {
		return mk, kit.Model{Source: sourceOf}
	}
	e := drawExtras(t, "x")
	mk.name = "flash with extras " + showExtras(e)
	mk.make = func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return flash.NewHandler(w, o, e) }
	return mk, extrasModel(e)
}
