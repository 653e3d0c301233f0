package handlers

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/handlers/trace"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- H04

func TestH04_Independence(t *testing.T) {
	p := kit.Profile{Any: true, Valuers: true, Empties: 5, Depth: 2, Long: true, Width: 3}
	kit.Check(t, 5000, 100000, progRule+"all loggers log again at the end in any order, with and without replace function; non-trivial when some logger has two derived children", func(c *kit.C) {
		mk, m := drawConfigured(c.T)
		opts := &slog.HandlerOptions{Level: everything}
		var got, want []call
		if rapid.Bool().Draw(c.T, "rep") {
			// the replace function shows the groups it sees
			path := func(rec *[]call) func(groups []string, a slog.Attr) slog.Attr {
				return func(groups []string, a slog.Attr) slog.Attr {
					*rec = append(*rec, call{slices.Clone(groups), a})
					if len(groups) > 0 && a.Key == "a" {
						a.Value = slog.StringValue(strings.Join(groups, "/"))
					}
					return a
				}
			}
			opts.ReplaceAttr = path(&got)
			m.Replace = path(&want)
		}
		prog := siblings(c.T, p)
		children := map[int]int{}
		branching := false
		for _, op := range prog {
			if op.Kind != 'R' {
				children[op.Node]++
				branching = branching || children[op.Node] > 1
			}
		}
		c.Case(branching, "%s replace=%v: %s", mk.name, m.Replace != nil, prog)
		classify(c, prog)
		c.Class(branching, "siblings")
		paths := prog.Paths()
		tr := newTree(mk, opts)
		// other handlers at work in between may hide, or cause, what is left behind by one
		late := rapid.Bool().Draw(c.T, "late")
		var compareFresh []func()
		for _, op := range prog {
			if op.Kind != 'R' {
				tr.derive(op)
				continue
			}
			got, want = nil, nil
			w, err := tr.log(op)
			if err != nil {
				c.Fatalf("%s: error %v", mk.name, err)
			}
			if m.Replace != nil {
				m.Expect(kit.OnlyGroups(paths[op.Node]), op)
				checkCalls(c, mk.name, op, want, got)
			}
			compare(c.T, mk.name, one(c.T, mk.name, w), m, paths[op.Node], op, w[0])
			// the same path on a fresh handler gives the same bytes
			check := func() {
				fresh := newTree(mk, opts)
				for i, st := range paths[op.Node] {
					st.Node = i
					fresh.derive(st)
				}
				op2 := op
				op2.Node = len(paths[op.Node])
				w2, err := fresh.log(op2)
				if err != nil || len(w2) != 1 || !bytes.Equal(w[0], w2[0]) {
					c.Fatalf("%s: logger depends on other loggers\n got   %q\n fresh %q err %v\n path %s", mk.name, w, w2, err, kit.Program(paths[op.Node]))
				}
			}
			if late {
				compareFresh = append(compareFresh, check)
			} else {
				check()
			}
		}
		for _, check := range compareFresh {
			check()
		}
	})
}

// siblings draws programs that branch: many derivations from few nodes, then every logger logs.
func siblings(t *rapid.T, p kit.Profile) kit.Program {
	var prog kit.Program
	nodes := 1
	for i, n := 0, rapid.IntRange(2, 9).Draw(t, "derivations"); i < n; i++ {
		l := fmt.Sprint("d", i)
		op := kit.Op{Kind: 'A', Node: nodes - 1}
		if rapid.IntRange(0, 1).Draw(t, l+"/where") == 1 {
			op.Node = rapid.IntRange(0, nodes-1).Draw(t, l+"/node")
		}
		if rapid.IntRange(0, 1).Draw(t, l+"/kind") == 1 {
			op.Kind, op.Name = 'G', p.Key(t, l+"/name")
		} else {
			op.Attrs = p.Attrs(t, l, p.Depth)
		}
		prog = append(prog, op)
		nodes++
		if rapid.IntRange(0, 3).Draw(t, l+"/log") >= 2 {
			prog = append(prog, p.Record(t, l+"/r", rapid.IntRange(0, nodes-1).Draw(t, l+"/at"), nil))
		}
	}
	order := rapid.Permutation(seq(nodes)).Draw(t, "order")
	for _, n := range order {
		r := kit.Op{Kind: 'R', Node: n, Name: fmt.Sprint("node", n), Time: time.Unix(int64(n), 0).UTC()}
		if rapid.Bool().Draw(t, fmt.Sprint("attrs", n)) {
			r.Attrs = []slog.Attr{slog.Int("a", n), slog.Group("g", slog.Int("a", n))}
		}
		prog = append(prog, r)
	}
	return prog
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// ---------------------------------------------------------------- H05

// raceSink notices overlapping Write calls and buffers that change during the call.
type raceSink struct {
	in      atomic.Int32
	overlap atomic.Int32
	changed atomic.Int32
	delay   bool
	mu      sync.Mutex
	lines   []string
}

func (s *raceSink) Write(b []byte) (int, error) {
	if s.in.Add(1) != 1 {
		s.overlap.Add(1)
	}
	before := string(b)
	if s.delay {
		runtime.Gosched()
		time.Sleep(20 * time.Microsecond)
	}
	if string(b) != before {
		s.changed.Add(1)
	}
	s.mu.Lock()
	s.lines = append(s.lines, before)
	s.mu.Unlock()
	s.in.Add(-1)
	return len(b), nil
}

func TestH05_Concurrent(t *testing.T) {
	p := kit.Profile{Any: true, Valuers: true, Empties: 5, Depth: 2, Width: 3, Long: true}
	kit.Check(t, 500, 6000, "2-8 goroutines log and derive at once through a shared tree of loggers; the lines are compared as a multiset with a sequential run; non-trivial with at least two goroutines logging", func(c *kit.C) {
		mk, _ := drawConfigured(c.T)
		opts := &slog.HandlerOptions{Level: everything, AddSource: rapid.Bool().Draw(c.T, "src")}
		if rapid.IntRange(0, 2).Draw(c.T, "rep") == 2 {
			opts.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
				if len(groups) > 0 && a.Key == "a" {
					a.Value = slog.StringValue(strings.Join(groups, "/"))
				}
				return a
			}
		}
		var base kit.Program
		for i, n := 0, rapid.IntRange(0, 4).Draw(c.T, "base"); i < n; i++ {
			l := fmt.Sprint("b", i)
			op := kit.Op{Kind: 'A', Node: rapid.IntRange(0, i).Draw(c.T, l+"/node")}
			if rapid.Bool().Draw(c.T, l+"/g") {
				op.Kind, op.Name = 'G', p.Key(c.T, l+"/name")
			} else {
				op.Attrs = p.Attrs(c.T, l, 1)
			}
			base = append(base, op)
		}
		workers := rapid.IntRange(2, 8).Draw(c.T, "workers")
		type step struct {
			node    int // in the shared tree, -1 for own last derived
			derive  *kit.Op
			rec     kit.Op
			derived bool
		}
		plans := make([][]step, workers)
		text := base.String()
		for w := range plans {
			for i, n := 0, rapid.IntRange(1, 6).Draw(c.T, fmt.Sprint("steps", w)); i < n; i++ {
				l := fmt.Sprintf("w%d/%d", w, i)
				st := step{node: rapid.IntRange(0, len(base)).Draw(c.T, l+"/node")}
				switch rapid.IntRange(0, 3).Draw(c.T, l+"/derive") {
				case 1:
					st.derive = &kit.Op{Kind: 'A', Attrs: p.Attrs(c.T, l+"/d", 1)}
				case 2:
					st.derive = &kit.Op{Kind: 'G', Name: p.Key(c.T, l+"/g")}
				case 3:
					st.derived = true
				}
				st.rec = p.Record(c.T, l, 0, somePCs)
				st.rec.Name = fmt.Sprintf("%s#%d/%d", st.rec.Name, w, i)
				plans[w] = append(plans[w], st)
				text += fmt.Sprintf(" | %d/%d on %d derive=%v own=%v %s", w, i, st.node, st.derive != nil, st.derived, kit.Program{st.rec})
			}
		}
		c.Case(true, "%s replace=%v src=%v: %s", mk.name, opts.ReplaceAttr != nil, opts.AddSource, text)
		run := func(s io.Writer, parallel bool) {
			root := mk.make(s, opts)
			nodes := []slog.Handler{root}
			for _, op := range base {
				nodes = append(nodes, derive(nodes[op.Node], op))
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for w := range plans {
				work := func() {
					var own slog.Handler = root
					for _, st := range plans[w] {
						h := nodes[st.node]
						if st.derived {
							h = own
						}
						if st.derive != nil {
							h = derive(h, *st.derive)
							own = h
						}
						if h.Enabled(ctx, st.rec.Level) {
							_ = h.Handle(ctx, st.rec.Record())
						}
					}
				}
				if !parallel {
					work()
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					work()
				}()
			}
			close(start)
			wg.Wait()
		}
		ref := &raceSink{}
		run(ref, false)
		sort.Strings(ref.lines)
		for round := 0; round < 3; round++ {
			s := &raceSink{delay: round > 0}
			run(s, true)
			if n := s.overlap.Load(); n > 0 {
				c.Fatalf("%s: %d overlapping Write calls", mk.name, n)
			}
			if n := s.changed.Load(); n > 0 {
				c.Fatalf("%s: buffer changed during Write %d times", mk.name, n)
			}
			sort.Strings(s.lines)
			if !slices.Equal(ref.lines, s.lines) {
				c.Fatalf("%s: lines differ from the sequential run\n sequential %q\n concurrent %q", mk.name, ref.lines, s.lines)
			}
			kit.Beat()
		}
	})
}

// derive applies one derivation op to a handler.
func derive(h slog.Handler, op kit.Op) slog.Handler {
	if op.Kind == 'A' {
		return h.WithAttrs(slices.Clone(op.Attrs))
	}
	return h.WithGroup(op.Name)
}

// The replace function sees the groups of its own record, whatever is logged meanwhile.
func TestH05_Groups(t *testing.T) {
	kit.Check(t, 250, 4000, "2-6 goroutines log records with nested groups of their own through one logger with 0-9 open groups, some of them logging again while a value is resolved or replaced; the replace function yields and compares the groups it sees with the place of the attribute; always non-trivial", func(c *kit.C) {
		mk := drawMaker(c.T)
		open := rapid.IntRange(0, 9).Draw(c.T, "open")
		workers := rapid.IntRange(2, 6).Draw(c.T, "workers")
		depth := rapid.IntRange(1, 4).Draw(c.T, "depth")
		records := rapid.IntRange(3, 12).Draw(c.T, "records")
		again := rapid.IntRange(0, 2).Draw(c.T, "again")
		own := rapid.Bool().Draw(c.T, "own")
		c.Case(true, "%s %d open groups, %d workers with %d records of depth %d, again=%d own=%v", mk.name, open, workers, records, depth, again, own)
		var bad atomic.Pointer[string]
		var calls atomic.Int64
		opts := &slog.HandlerOptions{Level: everything, ReplaceAttr: func(groups []string, a slog.Attr) slog.Attr {
			if a.Key != "place" {
				return a
			}
			runtime.Gosched()
			calls.Add(1)
			if got := strings.Join(groups, "/"); got != a.Value.String() {
				text := fmt.Sprintf("attribute of groups %q replaced with groups %q", a.Value.String(), got)
				bad.Store(&text)
			}
			return a
		}}
		s := &raceSink{}
		h := mk.make(s, opts)
		var path []string
		for i := range open {
			path = append(path, fmt.Sprint("g", i))
			h = h.WithGroup(path[i])
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := range workers {
			h, path := h, slices.Clone(path)
			if own {
				path = append(path, fmt.Sprint("own", w))
				h = h.WithGroup(path[len(path)-1])
			}
			place := func(under []string) slog.Attr { return slog.String("place", strings.Join(under, "/")) }
			var nest func(under []string, level int, inner func()) slog.Attr
			nest = func(under []string, level int, inner func()) slog.Attr {
				name := fmt.Sprintf("w%d-%d", w, level)
				under = append(slices.Clone(under), name)
				attrs := []any{place(under)}
				if inner != nil {
					attrs = append(attrs, slog.Any("hook", kit.HookValuer{H: &kit.Hook{Fn: func() string { inner(); return "hooked" }}}))
				}
				if level > 1 {
					attrs = append(attrs, nest(under, level-1, inner))
				}
				return slog.Group(name, append(attrs, place(under))...)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := range records {
					var inner func()
					if again > 0 && i%again == 0 {
						inner = func() {
							r := slog.NewRecord(time.Time{}, 0, "inner", 0)
							at := append(slices.Clone(path), "inner")
							r.AddAttrs(place(path), slog.Group("inner", place(at), slog.Group("most", place(append(at, "most")))))
							_ = h.Handle(ctx, r)
						}
					}
					r := slog.NewRecord(time.Time{}, 0, "outer", 0)
					r.AddAttrs(place(path), nest(path, depth, inner), place(path))
					_ = h.Handle(ctx, r)
				}
			}()
		}
		close(start)
		wg.Wait()
		if text := bad.Load(); text != nil {
			c.Fatalf("%s: %s", mk.name, *text)
		}
		if calls.Load() == 0 {
			c.Fatalf("%s: the replace function was not called", mk.name)
		}
	})
}

// Many goroutines hammering one logger: large volumes for pool and lock mistakes.
func TestH05_Volume(t *testing.T) {
	kit.Check(t, 12, 200, "8-16 goroutines log 60-300 records of varying size each through loggers sharing a writer; always non-trivial", func(c *kit.C) {
		mk := drawMaker(c.T)
		workers := rapid.IntRange(8, 16).Draw(c.T, "workers")
		n := rapid.IntRange(60, 300).Draw(c.T, "records")
		sizes := rapid.SliceOfN(rapid.IntRange(0, 2000), 4, 4).Draw(c.T, "sizes")
		deriveToo := rapid.Bool().Draw(c.T, "derive")
		src := rapid.Bool().Draw(c.T, "src")
		c.Case(true, "%s workers=%d records=%d sizes=%v derive=%v src=%v", mk.name, workers, n, sizes, deriveToo, src)
		s := &raceSink{}
		h := mk.make(s, &slog.HandlerOptions{AddSource: src})
		base := h.WithAttrs([]slog.Attr{slog.String("base", strings.Repeat("B", sizes[0]))}).WithGroup("grp")
		var want []string
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			for i := 0; i < n; i++ {
				want = append(want, fmt.Sprintf("%d/%d", w, i))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					l := base
					if deriveToo {
						l = base.WithAttrs([]slog.Attr{slog.Int("w", w)}).WithGroup("in").WithAttrs([]slog.Attr{slog.Int("i", i)})
					}
					r := slog.NewRecord(time.Time{}, slog.LevelInfo, fmt.Sprintf("%d/%d", w, i), somePCs[1+i%(len(somePCs)-1)])
					r.AddAttrs(slog.String("v", strings.Repeat("x", sizes[(w+i)%4])), slog.Int("w", w), slog.Int("i", i))
					if err := l.Handle(ctx, r); err != nil {
						panic(err)
					}
				}
			}()
		}
		wg.Wait()
		if s.overlap.Load() > 0 || s.changed.Load() > 0 {
			c.Fatalf("%s: overlapping writes %d, changed buffers %d", mk.name, s.overlap.Load(), s.changed.Load())
		}
		var got []string
		for _, line := range s.lines {
			o, err := kit.DecodeLine([]byte(line))
			if err != nil {
				c.Fatalf("%s: %v in %q", mk.name, err, line)
			}
			msg := o.Get("msg")[0].(string)
			got = append(got, msg)
			var w, i int
			if _, err := fmt.Sscanf(msg, "%d/%d", &w, &i); err != nil {
				c.Fatalf("%s: bad message %q", mk.name, msg)
			}
			if src {
				f, _ := runtime.CallersFrames([]uintptr{somePCs[1+i%(len(somePCs)-1)]}).Next()
				s, _ := o.Get("source")[0].(kit.Obj)
				if len(s) != 3 || s.Get("line")[0] != jsonInt(f.Line) || s.Get("function")[0] != f.Function || s.Get("file")[0] != f.File {
					c.Fatalf("%s: record %s has source %s, expected line %d of %s in %s", mk.name, msg, s, f.Line, f.Function, f.File)
				}
			}
			grp, _ := o.Get("grp")[0].(kit.Obj)
			in := grp
			if deriveToo {
				in, _ = grp.Get("in")[0].(kit.Obj)
			}
			if x := in.Get("v"); len(x) != 1 || x[0] != strings.Repeat("x", sizes[(w+i)%4]) {
				c.Fatalf("%s: record %s has wrong content %q", mk.name, msg, line)
			}
			if x := in.Get("w"); len(x) != 1 || x[0] != jsonInt(w) {
				c.Fatalf("%s: record %s has wrong content %q", mk.name, msg, line)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if !slices.Equal(got, want) {
			c.Fatalf("%s: got %d records, want %d", mk.name, len(got), len(want))
		}
	})
}

// ---------------------------------------------------------------- H06

type funcLeveler struct{ f *slog.Level }

func (l funcLeveler) Level() slog.Level { return *l.f }

func TestH06_Levels(t *testing.T) {
	p := kit.Profile{Depth: 1, Width: 2}
	kit.Check(t, 6000, 100000, "history of threshold changes, derivations and records at any level, through slog.Logger and Enabled; non-trivial when the threshold changed after a derivation and both outcomes occurred", func(c *kit.C) {
		mk := drawMaker(c.T)
		kind := rapid.SampledFrom([]string{"nil", "nilopts", "const", "var", "func"}).Draw(c.T, "kind")
		threshold := slog.LevelInfo
		var lv slog.LevelVar
		var opts *slog.HandlerOptions
		switch kind {
		case "nil":
			opts = &slog.HandlerOptions{}
		case "const":
			threshold = kit.Level(c.T, "threshold")
			opts = &slog.HandlerOptions{Level: threshold}
		case "var":
			opts = &slog.HandlerOptions{Level: &lv}
		case "func":
			opts = &slog.HandlerOptions{Level: funcLeveler{&threshold}}
		}
		if rapid.IntRange(0, 5).Draw(c.T, "rep") == 5 && opts != nil {
			opts.ReplaceAttr = func(_ []string, a slog.Attr) slog.Attr { return a }
		}
		sink := &kit.Sink{}
		nodes := []slog.Handler{mk.make(sink, opts)}
		text := ""
		var yes, no, changed bool
		for i, n := 0, rapid.IntRange(2, 14).Draw(c.T, "ops"); i < n; i++ {
			l := fmt.Sprint("op", i)
			node := rapid.IntRange(0, len(nodes)-1).Draw(c.T, l+"/node")
			switch k := rapid.IntRange(0, 7).Draw(c.T, l+"/k"); {
			case k == 0 && (kind == "var" || kind == "func"):
				threshold = kit.Level(c.T, l+"/threshold")
				lv.Set(threshold)
				changed = changed || len(nodes) > 1
				text += fmt.Sprintf("threshold=%d; ", threshold)
			case k == 1:
				nodes = append(nodes, nodes[node].WithAttrs(p.Attrs(c.T, l, 1)))
				text += fmt.Sprintf("n%d.With; ", node)
			case k == 2:
				nodes = append(nodes, nodes[node].WithGroup(p.Key(c.T, l+"/g")))
				text += fmt.Sprintf("n%d.Group; ", node)
			default:
				level := kit.Level(c.T, l+"/level")
				if rapid.IntRange(0, 2).Draw(c.T, l+"/near") > 0 && threshold > -1000 && threshold < 1000 {
					level = threshold + slog.Level(rapid.IntRange(-2, 2).Draw(c.T, l+"/delta"))
				}
				want := level >= threshold
				if got := nodes[node].Enabled(ctx, level); got != want {
					c.Fatalf("%s: Enabled(%d) = %v with threshold %d (%s)", mk.name, level, got, threshold, text)
				}
				log := slog.New(nodes[node])
				switch rapid.IntRange(0, 2).Draw(c.T, l+"/how") {
				case 0:
					log.Log(ctx, level, "msg")
				case 1:
					log.LogAttrs(ctx, level, "msg", slog.Int("a", 1))
				default:
					switch level {
					case slog.LevelDebug:
						log.Debug("msg")
					case slog.LevelInfo:
						log.Info("msg")
					case slog.LevelWarn:
						log.Warn("msg")
					case slog.LevelError:
						log.ErrorContext(ctx, "msg")
					default:
						log.Log(ctx, level, "msg", "k", 1)
					}
				}
				w := sink.Take()
				text += fmt.Sprintf("n%d.Log(%d); ", node, level)
				if !want {
					no = true
					if len(w) != 0 {
						c.Fatalf("%s: level %d logged with threshold %d (%s)", mk.name, level, threshold, text)
					}
					continue
				}
				yes = true
				o := one(c.T, mk.name, w)
				if got := o.Get("level"); len(got) == 0 || got[0] != level.String() {
					c.Fatalf("%s: level %d shown as %q, want %q", mk.name, level, got, level.String())
				}
			}
		}
		c.Case(yes && no && (changed || kind != "var" && kind != "func" && len(nodes) > 1), "%s %s: %s", mk.name, kind, text)
		c.Class(changed, "threshold changed after derivation")
	})
}

// ---------------------------------------------------------------- H09

func cloneExtras(e *flash.Extras) *flash.Extras {
	if e == nil {
		return nil
	}
	x := *e
	if e.LevelNames != nil {
		x.LevelNames = map[slog.Level]string{}
		for k, v := range e.LevelNames {
			x.LevelNames[k] = v
		}
	}
	return &x
}

func drawExtras(t *rapid.T, label string) *flash.Extras {
	opt := func(l string, vs ...string) string {
		if rapid.Bool().Draw(t, label+l+"/set") {
			if rapid.IntRange(0, 4).Draw(t, label+l+"/wild") == 4 {
				return kit.ValidText(t, label+l)
			}
			return rapid.SampledFrom(vs).Draw(t, label+l)
		}
		return ""
	}
	e := &flash.Extras{
		TimeKey:    opt("time", "ts", "when", "a", "msg", "level", "time"),
		LevelKey:   opt("level", "lvl", "severity", "b", "time", "level"),
		MessageKey: opt("msg", "message", "text", "c", "source", "msg"),
		SourceKey:  opt("source", "src", "caller", "d", "time"),
		TimeFormat: opt("fmt", time.RFC3339, time.Kitchen, time.RFC822, time.StampNano, `15:04 "Jan" \2`, "2006/01/02\t15.04", "x"),
	}
	switch rapid.IntRange(0, 3).Draw(t, label+"names") {
	case 1:
		e.LevelNames = map[slog.Level]string{}
	case 2, 3:
		e.LevelNames = map[slog.Level]string{}
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, label+"nn"); i < n; i++ {
			k := slog.Level(rapid.IntRange(-6, 10).Draw(t, fmt.Sprint(label, "lk", i)))
			e.LevelNames[k] = rapid.SampledFrom([]string{"debug", "dbg", "I", "warning", "EVIL\"", "é", "info", "fatal"}).Draw(t, fmt.Sprint(label, "lv", i))
		}
	}
	return e
}

func showExtras(e *flash.Extras) string {
	if e == nil {
		return "nil"
	}
	ks := make([]int, 0)
	for k := range e.LevelNames {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	s := fmt.Sprintf("%q %q %q %q %q", e.TimeKey, e.LevelKey, e.MessageKey, e.SourceKey, e.TimeFormat)
	for _, k := range ks {
		s += fmt.Sprintf(" %d=%q", k, e.LevelNames[slog.Level(k)])
	}
	return s
}

func extrasModel(e *flash.Extras) kit.Model {
	if e == nil {
		e = &flash.Extras{}
	}
	names := cloneExtras(e).LevelNames
	return kit.Model{TimeKey: e.TimeKey, LevelKey: e.LevelKey, MessageKey: e.MessageKey, SourceKey: e.SourceKey, TimeFormat: e.TimeFormat,
		Source: sourceOf,
		LevelName: func(l slog.Level) string {
			if s := names[l]; s != "" {
				return s
			}
			return l.String()
		}}
}

func TestH09_Extras(t *testing.T) {
	p := kit.Profile{Any: true, Valuers: true, Empties: 5, Depth: 2, Width: 3}
	kit.Check(t, 6000, 120000, progRule+"with generated extras (every subset of fields, partial level maps); two handlers may share the caller's structs, which are compared before and after and changed while the handlers are in use; non-trivial when an extra is set", func(c *kit.C) {
		e := drawExtras(c.T, "x")
		if rapid.IntRange(0, 9).Draw(c.T, "none") == 9 {
			e = nil
		}
		opts := &slog.HandlerOptions{AddSource: rapid.Bool().Draw(c.T, "src")}
		if rapid.IntRange(0, 3).Draw(c.T, "lv") > 0 {
			opts.Level = everything
		}
		m := extrasModel(e)
		m.AddSource = opts.AddSource
		if rapid.IntRange(0, 2).Draw(c.T, "rep") == 2 {
			r := drawReplace(c.T, p)
			if rapid.Bool().Draw(c.T, "identity") {
				r.rules = nil
			}
			opts.ReplaceAttr, m.Replace = r.fn, r.fn
		}
		hadLevel := opts.Level
		e0, o0 := cloneExtras(e), *opts
		prog := p.Program(c.T, 6, somePCs)
		c.Case(e != nil && showExtras(e) != showExtras(&flash.Extras{}), "extras %s replace=%v src=%v: %s", showExtras(e), m.Replace != nil, m.AddSource, prog)
		sinks := []*kit.Sink{{}, {}}
		trees := []*tree{}
		for _, s := range sinks {
			trees = append(trees, &tree{sink: s, nodes: []slog.Handler{flash.NewHandler(s, opts, e)}})
		}
		if !reflect.DeepEqual(e, e0) {
			c.Fatalf("the caller's extras were modified: %s -> %s", showExtras(e0), showExtras(e))
		}
		if opts.Level != hadLevel || opts.AddSource != o0.AddSource || (opts.ReplaceAttr == nil) != (o0.ReplaceAttr == nil) {
			c.Fatalf("the caller's handler options were modified: %+v -> %+v", o0, *opts)
		}
		if rapid.Bool().Draw(c.T, "scramble") {
			// the handlers keep what they were given
			if e != nil {
				if e.LevelNames == nil {
					e.LevelNames = map[slog.Level]string{}
				}
				for l := slog.Level(-6); l <= 10; l++ {
					e.LevelNames[l] = "SCRAMBLED"
				}
				e.TimeKey, e.LevelKey, e.MessageKey, e.SourceKey, e.TimeFormat = "S1", "S2", "S3", "S4", "S5"
			}
			opts.AddSource = !opts.AddSource
			opts.Level = slog.Level(1 << 30)
			opts.ReplaceAttr = func(_ []string, _ slog.Attr) slog.Attr { return slog.String("scrambled", "x") }
			e0, o0 = cloneExtras(e), *opts
			c.Class(true, "caller changes its structs")
		}
		for i, tr := range trees {
			paths := prog.Paths()
			for _, op := range prog {
				if op.Kind != 'R' {
					tr.derive(op)
					continue
				}
				if hadLevel == nil {
					if got := tr.nodes[op.Node].Enabled(ctx, op.Level); got != (op.Level >= 0) {
						c.Fatalf("Enabled(%d) = %v with the default threshold", op.Level, got)
					}
					if op.Level < 0 {
						continue
					}
				}
				w, err := tr.log(op)
				if err != nil {
					c.Fatalf("handler %d: %v", i, err)
				}
				compare(c.T, fmt.Sprint("flash", i), one(c.T, "flash", w), m, paths[op.Node], op, w[0])
			}
		}
		if !reflect.DeepEqual(e, e0) || opts.Level != o0.Level || opts.AddSource != o0.AddSource {
			c.Fatalf("the caller's options were modified while logging")
		}
	})
}

// ---------------------------------------------------------------- H10

type siteCall struct {
	name string
	call func(l *slog.Logger) (line int)
}

func lineHere() int {
	_, _, line, _ := runtime.Caller(1)
	return line
}

// callSites log once each and return the line of the logging statement.
var callSites = []siteCall{
	{"Info", func(l *slog.Logger) int { l.Info("m"); return lineHere() }},
	{"Debug", func(l *slog.Logger) int { l.Debug("m", "k", 1); return lineHere() }},
	{"Warn", func(l *slog.Logger) int { l.Warn("m"); return lineHere() }},
	{"Error", func(l *slog.Logger) int { l.Error("m", "e", errors.New("x")); return lineHere() }},
	{"InfoContext", func(l *slog.Logger) int { l.InfoContext(ctx, "m"); return lineHere() }},
	{"Log", func(l *slog.Logger) int { l.Log(ctx, 3, "m"); return lineHere() }},
	{"LogAttrs", func(l *slog.Logger) int { l.LogAttrs(ctx, 9, "m", slog.Int("a", 1)); return lineHere() }},
	{"closure", func(l *slog.Logger) int {
		n := 0
		func() { l.Info("m"); n = lineHere() }()
		return n
	}},
	{"defer", func(l *slog.Logger) (n int) {
		defer func() { l.Info("m"); n = lineHere() }()
		return 0
	}},
	{"goroutine", func(l *slog.Logger) int {
		ch := make(chan int)
		go func() { l.Warn("m"); ch <- lineHere() }()
		return <-ch
	}},
	{"own line", func(l *slog.Logger) int {
		line := lineHere() + 1
		l.Info("m")
		return line
	}},
	{"several lines", func(l *slog.Logger) int {
		line := lineHere() + 1
		l.Info(
			"m",
			"k", line,
			"e", errors.New("x"),
		)
		return line
	}},
	{"loop", func(l *slog.Logger) int {
		line := 0
		for i := 0; i < 2; i++ {
			if i == 1 {
				line = lineHere() + 1
				l.Warn("m", "i", i)
			}
			line += 0
		}
		return line
	}},
	{"method", func(l *slog.Logger) int { return logging{l}.log() }},
	{"generic", func(l *slog.Logger) int { return logAny(l, 1.5) }},
	{"inlined own line", func(l *slog.Logger) int {
		line := tinyLine
		tinyOwn(l)
		return line
	}},
	{"switch", func(l *slog.Logger) (line int) {
		switch {
		case l != nil:
			line = lineHere() + 1
			l.Log(ctx, 2, "m")
		default:
			l.Info("never")
		}
		return
	}},
	{"inlined", func(l *slog.Logger) int { return tiny(l) }},
	{"named closure", closureIn},
	{"named nested closure", nestedIn},
	{"named defer", deferIn},
	{"pointer method", func(l *slog.Logger) int { return (&logging{l}).ptr() }},
	{"pointer method closure", func(l *slog.Logger) int { return (&logging{l}).inner() }},
	{"method value", func(l *slog.Logger) int { f := logging{l}.log; return f() }},
	{"generic method", func(l *slog.Logger) int { return holder[string]{l}.log() }},
	{"With", func(l *slog.Logger) int { l.With("w", 1).WithGroup("g").Info("m", "k", 2); return lineHere() }},
}

func tiny(l *slog.Logger) int { l.Info("m"); return lineHere() }

type logging struct{ l *slog.Logger }

func (x logging) log() int {
	line := lineHere() + 1
	x.l.Error("m")
	return line
}

func logAny[T any](l *slog.Logger, v T) int {
	line := lineHere() + 1
	l.Info("m", "v", v)
	return line
}

func closureIn(l *slog.Logger) int {
	return func() int { l.Info("m"); return lineHere() }()
}

func nestedIn(l *slog.Logger) (n int) {
	for range 2 {
		func() {
			n++
		}()
	}
	func() {
		func() { l.Warn("m"); n = lineHere() }()
	}()
	return n
}

func deferIn(l *slog.Logger) (n int) {
	defer func() { l.Info("m"); n = lineHere() }()
	return 0
}

func (x *logging) ptr() int { x.l.Info("m"); return lineHere() }

func (x *logging) inner() (n int) {
	func() { x.l.Info("m"); n = lineHere() }()
	return n
}

type holder[T any] struct{ l *slog.Logger }

func (h holder[T]) log() int { h.l.Info("m"); return lineHere() }

var tinyLine = lineHere() + 3

func tinyOwn(l *slog.Logger) {
	l.Info("m")
}

// siteFunction is the function the standard handler names for the call site.
func siteFunction(site siteCall) string {
	s := &kit.Sink{}
	site.call(slog.New(slog.NewJSONHandler(s, &slog.HandlerOptions{Level: everything, AddSource: true})))
	o, err := kit.DecodeLine(s.Take()[0])
	if err != nil {
		panic("VERIF-HARNESS-ERROR " + err.Error())
	}
	fn, _ := o.Get("source")[0].(kit.Obj).Get("function")[0].(string)
	return fn
}

func TestH10_Source(t *testing.T) {
	p := kit.Profile{Valuers: true, Empties: 5, Depth: 1, Width: 3}
	_, thisFile, _, _ := runtime.Caller(0)
	kit.Check(t, 4000, 60000, "twenty-six kinds of call sites through random derivation chains, and records with varied or no program counters; non-trivial when the logger is derived and source is on", func(c *kit.C) {
		mk := drawMaker(c.T)
		src := rapid.IntRange(0, 3).Draw(c.T, "src") < 3
		opts := &slog.HandlerOptions{Level: everything, AddSource: src}
		m := kit.Model{AddSource: src, Source: sourceOf}
		mode := rapid.SampledFrom([]string{"none", "identity", "remove", "rename", "change"}).Draw(c.T, "mode")
		var seen []call
		if mode != "none" {
			f := func(groups []string, a slog.Attr) slog.Attr {
				if a.Key == slog.SourceKey && len(groups) == 0 {
					if _, user := a.Value.Any().(string); user {
						return a
					}
					switch mode {
					case "remove":
						return slog.Attr{}
					case "rename":
						a.Key = "caller"
					case "change":
						a.Value = slog.StringValue("here")
					}
				}
				return a
			}
			opts.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
				if a.Key == slog.SourceKey && a.Value.Kind() == slog.KindAny {
					seen = append(seen, call{slices.Clone(groups), a})
				}
				return f(groups, a)
			}
			m.Replace = f
		}
		var prog kit.Program
		for i, n := 0, rapid.IntRange(0, 4).Draw(c.T, "chain"); i < n; i++ {
			op := kit.Op{Kind: 'A', Node: i}
			if rapid.Bool().Draw(c.T, fmt.Sprint("g", i)) {
				op.Kind, op.Name = 'G', p.Key(c.T, fmt.Sprint("name", i))
			} else {
				op.Attrs = p.Attrs(c.T, fmt.Sprint("a", i), 1)
			}
			prog = append(prog, op)
		}
		tr := newTree(mk, opts)
		for _, op := range prog {
			tr.derive(op)
		}
		path := []kit.Op(prog)
		last := tr.nodes[len(tr.nodes)-1]
		if rapid.Bool().Draw(c.T, "synthetic") {
			op := p.Record(c.T, "rec", len(tr.nodes)-1, somePCs)
			c.Case(src && len(prog) > 0 && op.PC != 0, "%s src=%v mode=%s pc=%d: %s %s", mk.name, src, mode, slices.Index(somePCs, op.PC), prog, kit.Program{op})
			w, err := tr.log(op)
			if err != nil {
				c.Fatalf("%v", err)
			}
			compare(c.T, mk.name, one(c.T, mk.name, w), m, path, op, w[0])
			c.Class(op.PC == 0, "no program counter")
			return
		}
		site := rapid.SampledFrom(callSites).Draw(c.T, "site")
		c.Case(src && len(prog) > 0, "%s src=%v mode=%s site=%s: %s", mk.name, src, mode, site.name, prog)
		seen = nil
		line := site.call(slog.New(last))
		o := one(c.T, mk.name, tr.sink.Take())
		var found []kit.Obj
		keys := []string{slog.SourceKey}
		if mode == "rename" {
			keys = []string{"caller"}
		}
		for _, f := range o[:min(4, len(o))] {
			if v, ok := f.Val.(kit.Obj); ok && slices.Contains(keys, f.Key) && len(v.Get("line")) > 0 {
				found = append(found, v)
			}
		}
		wantN := 0
		if src && mode != "remove" && mode != "change" {
			wantN = 1
		}
		if len(found) != wantN {
			c.Fatalf("%s: %d source fields, want %d in %s", mk.name, len(found), wantN, o)
		}
		if src && mode != "none" && (len(seen) != 1 || len(seen[0].groups) != 0) {
			c.Fatalf("%s: replace function calls for source: %v", mk.name, seen)
		}
		if wantN == 0 {
			return
		}
		s := found[0]
		fn, _ := s.Get("function")[0].(string)
		file, _ := s.Get("file")[0].(string)
		if file != thisFile || s.Get("line")[0] != jsonInt(line) || fn != siteFunction(site) {
			c.Fatalf("%s %s: source %s, want line %d of %s and function %s", mk.name, site.name, s, line, thisFile, siteFunction(site))
		}
	})
}

// Statements that log at the same time show themselves.
func TestH10_Concurrent(t *testing.T) {
	kit.Check(t, 60, 1500, "2-8 goroutines log at once, each from a random sequence of call sites through a logger of its own derived from a shared one or through the shared one, and the sources are compared with the sites; always non-trivial", func(c *kit.C) {
		mk := drawMaker(c.T)
		workers := rapid.IntRange(2, 8).Draw(c.T, "workers")
		own := rapid.Bool().Draw(c.T, "own")
		plans := make([][]int, workers)
		for w := range plans {
			plans[w] = rapid.SliceOfN(rapid.IntRange(0, len(callSites)-1), 1, 6).Draw(c.T, "sites")
		}
		rounds := rapid.IntRange(20, 120).Draw(c.T, "rounds")
		c.Case(true, "%s own=%v rounds=%d sites=%v", mk.name, own, rounds, plans)
		s := &raceSink{}
		shared := slog.New(mk.make(s, &slog.HandlerOptions{Level: everything, AddSource: true}))
		want := make([][]string, workers)
		functions := make([]string, len(callSites))
		for i, site := range callSites {
			functions[i] = siteFunction(site)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := shared
				if own {
					l = l.With("worker", w)
				}
				<-start
				for range rounds {
					for _, i := range plans[w] {
						line := callSites[i].call(l)
						want[w] = append(want[w], fmt.Sprintf("%s:%d", functions[i], line))
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		got := make([][]string, workers)
		for _, line := range s.lines {
			o, err := kit.DecodeLine([]byte(line))
			if err != nil {
				c.Fatalf("%s: %v in %q", mk.name, err, line)
			}
			src, ok := o.Get("source")[0].(kit.Obj)
			if !ok || len(src) != 3 {
				c.Fatalf("%s: no source in %q", mk.name, line)
			}
			w := 0
			if own {
				w, _ = strconv.Atoi(fmt.Sprint(o.Get("worker")[0]))
			}
			got[w] = append(got[w], fmt.Sprintf("%v:%v", src.Get("function")[0], src.Get("line")[0]))
		}
		if !own {
			want[0] = slices.Concat(want...)
			sort.Strings(want[0])
			sort.Strings(got[0])
			want, got = want[:1], got[:1]
		}
		for w := range want {
			if !slices.Equal(want[w], got[w]) {
				c.Fatalf("%s: worker %d logged from %q\n but the sources are %q", mk.name, w, want[w], got[w])
			}
		}
	})
}

// ---------------------------------------------------------------- H11

var errWrite = errors.New("injected write error")

// faultSink fails chosen writes.
type faultSink struct {
	kit.Sink
	fail map[int]string // write number -> how
	n    int
}

func (s *faultSink) Write(b []byte) (int, error) {
	n := s.n
	s.n++
	switch s.fail[n] {
	case "error":
		return 0, errWrite
	case "short":
		k := len(b) / 2
		return k, io.ErrShortWrite
	case "late":
		_, _ = s.Sink.Write(b)
		return len(b), errWrite
	case "panic":
		panic("injected writer panic")
	}
	return s.Sink.Write(b)
}

func TestH11_Faults(t *testing.T) {
	p := kit.Profile{Any: true, Valuers: true, Empties: 5, Depth: 2, Width: 3, Long: true}
	kit.Check(t, 5000, 100000, "history of records and derivations with injected write errors, short writes, panicking writer, panicking user code (stringer, error, marshallers, valuer, replace function) and user code that logs through the same loggers; non-trivial when a fault or re-entrant record is followed by a good record", func(c *kit.C) {
		mk, m := drawConfigured(c.T)
		opts := &slog.HandlerOptions{Level: everything}
		boom := 0 // the replace function panics when it reaches zero
		if rapid.IntRange(0, 2).Draw(c.T, "rep") == 2 {
			opts.ReplaceAttr = func(_ []string, a slog.Attr) slog.Attr {
				if boom > 0 {
					boom--
					if boom == 0 {
						panic("injected replace panic")
					}
				}
				return a
			}
		}
		prog := p.Program(c.T, 12, nil)
		paths := prog.Paths()
		s := &faultSink{fail: map[int]string{}}
		nodes := []slog.Handler{mk.make(s, opts)}
		text := ""
		faulty, after := false, false
		for i, op := range prog {
			if op.Kind != 'R' {
				nodes = append(nodes, derive(nodes[op.Node], op))
				text += kit.Program{op}.String() + "; "
				continue
			}
			h := nodes[op.Node]
			l := fmt.Sprint("fault", i)
			kind := rapid.SampledFrom([]string{"none", "none", "write", "panic", "reenter", "replace"}).Draw(c.T, l)
			if kind == "replace" && opts.ReplaceAttr == nil {
				kind = "none"
			}
			text += fmt.Sprintf("[%s] %s; ", kind, kit.Program{op})
			s.Take()
			switch kind {
			case "none":
				after = after || faulty
				if err := h.Handle(ctx, op.Record()); err != nil {
					c.Fatalf("%s: error %v for a good record (%s)", mk.name, err, text)
				}
				w := s.Take()
				compare(c.T, mk.name, one(c.T, mk.name, w), m, paths[op.Node], op, w[0])
			case "write":
				faulty = true
				how := rapid.SampledFrom([]string{"error", "short", "late", "panic"}).Draw(c.T, l+"/how")
				s.fail[s.n] = how
				before := s.n
				err, pan := protect(func() error { return h.Handle(ctx, op.Record()) })
				text += how + "; "
				if how == "panic" {
					if pan == nil {
						c.Logf("writer panic did not reach the caller")
					}
				} else if err == nil {
					c.Fatalf("%s: write fault %q not reported (%s)", mk.name, how, text)
				} else if how != "short" && !errors.Is(err, errWrite) {
					c.Fatalf("%s: write fault reported as %v (%s)", mk.name, err, text)
				}
				if s.n != before+1 {
					c.Fatalf("%s: %d Write calls for one failing record (%s)", mk.name, s.n-before, text)
				}
			case "panic":
				faulty = true
				mode := rapid.SampledFrom(kit.HookModes).Draw(c.T, l+"/mode")
				hook := &kit.Hook{Mode: mode, Fn: func() string { panic("injected value panic") }}
				bad := op
				at := rapid.IntRange(0, len(op.Attrs)).Draw(c.T, l+"/at")
				a := slog.Attr{Key: "boom", Value: hook.Value()}
				if rapid.Bool().Draw(c.T, l+"/nested") {
					a = slog.Group("deep", slog.Int("a", 1), slog.Group("er", a))
				}
				bad.Attrs = slices.Insert(slices.Clone(op.Attrs), at, a)
				_, _ = protect(func() error { return h.Handle(ctx, bad.Record()) })
				if rapid.IntRange(0, 3).Draw(c.T, l+"/with") == 3 {
					_, _ = protect(func() error { h.WithAttrs([]slog.Attr{a}); return nil })
				}
				// the failing record itself may or may not appear, but whatever appears is a whole line
				for _, w := range s.Take() {
					if _, err := kit.DecodeLine(w); err != nil {
						c.Fatalf("%s: partial line %q after panic in %s", mk.name, w, mode)
					}
				}
			case "replace":
				faulty = true
				boom = rapid.IntRange(1, 4).Draw(c.T, l+"/boom")
				_, _ = protect(func() error { return h.Handle(ctx, op.Record()) })
				boom = 0
				s.Take()
			case "reenter":
				faulty = true
				mode := rapid.SampledFrom(kit.HookModes).Draw(c.T, l+"/mode")
				inner := p.Record(c.T, l+"/inner", rapid.IntRange(0, len(nodes)-1).Draw(c.T, l+"/node"), nil)
				inner.Name = "inner " + inner.Name
				var innerErr error
				times := 0
				hook := &kit.Hook{Mode: mode, Fn: func() string {
					times++
					innerErr = nodes[inner.Node].Handle(ctx, inner.Record())
					return "hooked"
				}}
				outer := op
				at := rapid.IntRange(0, len(op.Attrs)).Draw(c.T, l+"/at")
				outer.Attrs = slices.Insert(slices.Clone(op.Attrs), at, slog.Attr{Key: "hook", Value: hook.Value()})
				if err := h.Handle(ctx, outer.Record()); err != nil || innerErr != nil {
					c.Fatalf("%s: errors %v, %v for re-entrant logging (%s)", mk.name, err, innerErr, text)
				}
				w := s.Take()
				if len(w) != times+1 {
					c.Fatalf("%s: %d lines from re-entrant logging, want %d (%s)", mk.name, len(w), times+1, text)
				}
				for k := 0; k < times; k++ {
					compare(c.T, mk.name+" inner", one(c.T, mk.name, w[k:k+1]), m, paths[inner.Node], inner, w[k])
				}
				expect := op
				var val slog.Value = slog.StringValue("hooked")
				if mode == "json" {
					val = slog.AnyValue(kit.JSONT{Raw: `"hooked"`})
				}
				expect.Attrs = slices.Insert(slices.Clone(op.Attrs), at, slog.Attr{Key: "hook", Value: val})
				compare(c.T, mk.name+" outer", one(c.T, mk.name, w[times:]), m, paths[op.Node], expect, w[times])
			}
		}
		c.Case(after, "%s replace=%v: %s", mk.name, opts.ReplaceAttr != nil, text)
		c.Class(faulty, "fault injected")
		// the lock and the pools are intact: every logger still works
		for n, h := range nodes {
			op := kit.Op{Kind: 'R', Node: n, Name: "final", Attrs: []slog.Attr{slog.Int("z", n)}}
			s.Take()
			if err := h.Handle(ctx, op.Record()); err != nil {
				c.Fatalf("%s: error %v at the end", mk.name, err)
			}
			w := s.Take()
			compare(c.T, mk.name, one(c.T, mk.name, w), m, paths[n], op, w[0])
		}
	})
}

func protect(f func() error) (err error, pan any) {
	defer func() { pan = recover() }()
	return f(), nil
}

// Faults in some goroutines leave the records of the others alone.
func TestH11_Concurrent(t *testing.T) {
	kit.Check(t, 250, 4000, "2-6 goroutines log through one handler, some records panic, fail to write or log re-entrantly; the others must all arrive whole; always non-trivial", func(c *kit.C) {
		mk := drawMaker(c.T)
		workers := rapid.IntRange(2, 6).Draw(c.T, "workers")
		plan := make([][]string, workers)
		for w := range plan {
			plan[w] = rapid.SliceOfN(rapid.SampledFrom([]string{"good", "good", "panic", "fail", "reenter"}), 2, 12).Draw(c.T, fmt.Sprint("plan", w))
		}
		c.Case(true, "%s %v", mk.name, plan)
		s := &failMsgSink{}
		h := mk.make(s, &slog.HandlerOptions{Level: everything}).WithAttrs([]slog.Attr{slog.Int("base", 1)}).WithGroup("g")
		var want []string
		var wg sync.WaitGroup
		for w := range plan {
			for i, k := range plan[w] {
				if k == "good" || k == "reenter" {
					want = append(want, fmt.Sprintf("%s %d/%d", k, w, i))
				}
				if k == "reenter" {
					want = append(want, fmt.Sprintf("inner %d/%d", w, i))
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, k := range plan[w] {
					r := slog.NewRecord(time.Time{}, 0, fmt.Sprintf("%s %d/%d", k, w, i), 0)
					r.AddAttrs(slog.String("pad", strings.Repeat("p", 40*i)))
					switch k {
					case "panic":
						r.AddAttrs(slog.Any("boom", kit.HookStringer{H: &kit.Hook{Fn: func() string { panic("boom") }}}))
					case "reenter":
						r.AddAttrs(slog.Any("hook", kit.HookStringer{H: &kit.Hook{Fn: func() string {
							_ = h.Handle(ctx, slog.NewRecord(time.Time{}, 0, fmt.Sprintf("inner %d/%d", w, i), 0))
							return "hooked"
						}}}))
					}
					r.AddAttrs(slog.Int("last", i))
					_, _ = protect(func() error { return h.Handle(ctx, r) })
				}
			}()
		}
		wg.Wait()
		var got []string
		for _, line := range s.lines {
			o, err := kit.DecodeLine(line)
			if err != nil {
				c.Fatalf("%s: %v in %q", mk.name, err, line)
			}
			msg := o.Get("msg")[0].(string)
			if strings.HasPrefix(msg, "panic") {
				continue
			}
			got = append(got, msg)
		}
		sort.Strings(got)
		sort.Strings(want)
		if !slices.Equal(got, want) {
			c.Fatalf("%s: got %q, want %q", mk.name, got, want)
		}
	})
}

type failMsgSink struct {
	mu    sync.Mutex
	lines [][]byte
}

func (s *failMsgSink) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if bytes.Contains(b, []byte(`"fail `)) {
		return 0, errWrite
	}
	s.lines = append(s.lines, bytes.Clone(b))
	return len(b), nil
}

// ---------------------------------------------------------------- H13

func captureStdout(f func()) string {
	old := os.Stdout
	tmp, err := os.Create(filepath.Join(os.TempDir(), "stdout.txt"))
	if err != nil {
		panic("VERIF-HARNESS-ERROR " + err.Error())
	}
	os.Stdout = tmp
	defer func() {
		os.Stdout = old
		_ = tmp.Close()
	}()
	f()
	b, err := os.ReadFile(tmp.Name())
	if err != nil {
		panic("VERIF-HARNESS-ERROR " + err.Error())
	}
	return string(b)
}

func TestH13_Trace(t *testing.T) {
	p := kit.Profile{Depth: 2, Valuers: true, Any: true, Keys: []string{"a", "b", "key", "g"}}
	noBreak := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == '\n' || r == '\r' {
				return '_'
			}
			return r
		}, s)
	}
	kit.Check(t, 2500, 40000, "history of handler calls over a tree of trace handlers, standard output captured; non-trivial when calls go to handlers of different depth", func(c *kit.C) {
		indent := rapid.SampledFrom([]string{"", "> ", "  ", "trace: ", "%s "}).Draw(c.T, "indent")
		type node struct {
			h      slog.Handler
			indent string
		}
		var nodes []node
		var want []string
		depth := map[string]bool{}
		prog := p.Program(c.T, 12, nil)
		var desc strings.Builder
		got := captureStdout(func() {
			nodes = []node{{trace.NewHandler(indent), indent}}
			for i, op := range prog {
				n := nodes[op.Node]
				op.Name = noBreak(op.Name)
				for _, a := range op.Attrs {
					if strings.ContainsAny(a.String(), "\n\r") {
						op.Attrs = nil
						break
					}
				}
				if op.Kind != 'G' {
					for j, many := 0, kit.Size(c.T, fmt.Sprint("many", i), 60, 9, 70, 500, 2000); j < many; j++ {
						op.Attrs = append(op.Attrs[:len(op.Attrs):len(op.Attrs)], slog.Int(fmt.Sprint("number", j), j))
					}
				}
				fmt.Fprintf(&desc, "%s; ", kit.Program{op})
				depth[n.indent] = true
				switch op.Kind {
				case 'A':
					want = append(want, fmt.Sprintf("%sWithAttrs(%v)", n.indent, op.Attrs))
					nodes = append(nodes, node{n.h.WithAttrs(op.Attrs), n.indent + "  "})
				case 'G':
					want = append(want, fmt.Sprintf("%sWithGroup(%s)", n.indent, op.Name))
					nodes = append(nodes, node{n.h.WithGroup(op.Name), n.indent + "  "})
				case 'R':
					if rapid.Bool().Draw(c.T, fmt.Sprint("logger", i)) {
						// through a logger: Enabled, then Handle
						want = append(want, fmt.Sprintf("%sEnabled(%v)", n.indent, op.Level), n.indent+"Handle("+image(op)+")")
						slog.New(n.h).LogAttrs(ctx, op.Level, op.Name, op.Attrs...)
						continue
					}
					want = append(want, fmt.Sprintf("%sEnabled(%v)", n.indent, op.Level))
					if !n.h.Enabled(context.Background(), op.Level) {
						c.Fatalf("level %v not enabled", op.Level)
					}
					want = append(want, n.indent+"Handle("+image(op)+")")
					if err := n.h.Handle(ctx, op.Record()); err != nil {
						c.Fatalf("Handle failed: %v", err)
					}
				}
			}
		})
		c.Case(len(depth) > 1, "indent %q: %s", indent, desc.String())
		exp := strings.Join(want, "\n") + "\n"
		if got != exp {
			c.Fatalf("trace output differs\n got  %q\n want %q", got, exp)
		}
	})
}

// image of a record as the trace handler shows it: level, message, attributes in order.
func image(op kit.Op) string {
	s := op.Level.String() + " \"" + op.Name + "\""
	rec := op.Record()
	if rec.NumAttrs() > 0 {
		var parts []string
		rec.Attrs(func(a slog.Attr) bool { parts = append(parts, a.String()); return true })
		s += " {" + strings.Join(parts, ", ") + "}"
	}
	return s
}

var _ = sloggy.NewHandler
var _ = math.MaxInt
