package creators

import (
	"context"
	"fmt"
	"log/slog"
	"runtime"
	"slices"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/creator/madkinsflash"
	"github.com/madkins23/go-slog/creator/madkinsreplattr"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

var ctx = context.Background()

// user replace functions of C01, each leaving empty attributes alone.
func drawUser(t *rapid.T) (string, infra.AttrFn, *[]string) {
	var calls []string
	kind := rapid.IntRange(0, 6).Draw(t, "user")
	if kind == 0 {
		return "none", nil, &calls
	}
	key := rapid.SampledFrom([]string{slog.LevelKey, slog.MessageKey, slog.TimeKey, slog.SourceKey, "a", "g", "lvl", "message"}).Draw(t, "userkey")
	fn := func(groups []string, a slog.Attr) slog.Attr {
		if isNone(a) {
			return a
		}
		calls = append(calls, fmt.Sprintf("%q %q %s", groups, a.Key, kit.ShowAttrs([]slog.Attr{a})))
		if a.Key != key {
			return a
		}
		switch kind {
		case 1:
			return a
		case 2:
			return slog.Attr{}
		case 3:
			return slog.Attr{Key: "renamed", Value: a.Value}
		case 4:
			return slog.String(a.Key, "<"+a.Value.String()+">")
		case 5:
			return slog.Int(a.Key, len(groups))
		default:
			return slog.Group(a.Key, slog.Attr{Key: "in", Value: a.Value})
		}
	}
	return fmt.Sprintf("%d on %s", kind, key), fn, &calls
}

// topNames tells whether a program has top-level attributes with the names
// that the replattr handler gives to its level and message fields.
func topNames(as []slog.Attr) bool {
	for _, a := range as {
		a.Value = a.Value.Resolve()
		if a.Key == "lvl" || a.Key == "message" {
			return true
		}
		if a.Key == "" && a.Value.Kind() == slog.KindGroup && topNames(a.Value.Group()) {
			return true
		}
	}
	return false
}

func TestC01_SameAsFlash(t *testing.T) {
	p := kit.Profile{Any: true, Valuers: true, Empties: 6, Depth: 3, Wild: true,
		Keys: []string{"a", "b", "level", "Level", "LEVEL", "msg", "Msg", "time", "source", "lvl", "message", "Lvl", "g", "INFO", "Message", "MESSAGE", "LVL", "mEssage", "lVl"}}
	checks(t, 5000, 100000, "a program of derivations and records at the four standard levels through the replattr and the flash creator with the same options (level, source, user replace function: none, observe, remove, rename, change, group), lines compared byte for byte and the calls of the user function too; top-level attributes named lvl or message excluded; non-trivial when a derived logger logs attributes", func(c *kit.C) {
		userText, user, calls := drawUser(c.T)
		src := rapid.IntRange(0, 2).Draw(c.T, "src") == 0
		thr := rapid.SampledFrom([]slog.Level{-8, -4, 0, 1, 4, 8}).Draw(c.T, "thr")
		nilLevel := rapid.IntRange(0, 7).Draw(c.T, "nillevel") == 0
		opts := func() *slog.HandlerOptions {
			o := &slog.HandlerOptions{AddSource: src, ReplaceAttr: user}
			if !nilLevel {
				o.Level = thr
			}
			return o
		}
		prog := p.Program(c.T, 8, []uintptr{0, somePC})
		paths := prog.Paths()
		for i := range prog {
			op := &prog[i]
			op.Level = rapid.SampledFrom([]slog.Level{-4, 0, 4, 8}).Draw(c.T, fmt.Sprint("lvl", i))
			open := false
			for _, d := range paths[op.Node] {
				open = open || (d.Kind == 'G' && d.Name != "")
			}
			if !open && topNames(op.Attrs) {
				var keep []slog.Attr
				for _, a := range op.Attrs {
					if !topNames([]slog.Attr{a}) {
						keep = append(keep, a)
					}
				}
				op.Attrs = keep
			}
		}
		var sinks [2]kit.Sink
		var out [2]string
		var seen [2][]string
		for i, cr := range []infra.Creator{madkinsflash.Creator(), madkinsreplattr.Creator()} {
			*calls = nil
			nodes := []slog.Handler{cr.NewHandler(&sinks[i], opts())}
			for _, op := range prog {
				h := nodes[op.Node]
				switch op.Kind {
				case 'A':
					nodes = append(nodes, h.WithAttrs(append([]slog.Attr{}, op.Attrs...)))
				case 'G':
					nodes = append(nodes, h.WithGroup(op.Name))
				case 'R':
					if h.Enabled(ctx, op.Level) {
						if err := h.Handle(ctx, op.Record()); err != nil {
							out[i] += fmt.Sprintf("error %v\n", err)
						}
					}
				}
			}
			for _, w := range sinks[i].Take() {
				out[i] += string(w)
			}
			seen[i] = *calls
		}
		if out[0] != out[1] {
			c.Fatalf("replace=%s src=%v: flash logs\n%s\nreplattr logs\n%s", userText, src, out[0], out[1])
		}
		if a, b := strings.Join(seen[0], "\n"), strings.Join(seen[1], "\n"); a != b {
			c.Fatalf("user replace function %s was called with flash\n%s\nwith replattr\n%s", userText, a, b)
		}
		nt := false
		for _, op := range prog {
			nt = nt || op.Kind == 'R' && op.Node > 0 && len(op.Attrs) > 0 && op.Level >= thr
		}
		c.Case(nt, "thr=%d src=%v replace=%s %s", thr, src, userText, prog)
		c.Class(user != nil, "user replace")
	})
}

var somePC = func() uintptr {
	var pcs [1]uintptr
	runtime.Callers(1, pcs[:])
	return pcs[0]
}()

func TestC01_Concurrent(t *testing.T) {
	p := kit.Profile{Depth: 2, Wild: true, Keys: []string{"a", "level", "Level", "msg", "time", "lvl", "message", "g", "INFO"}}
	checks(t, 800, 20000, "a tree of replattr handlers (with and without a replace function that renames, and source) logging up to 12 records at the standard levels from 2-8 goroutines, also under the race detector: the lines, in any order, must be those flash logs one after the other; non-trivial when at least two loggers log", func(c *kit.C) {
		var user infra.AttrFn
		if rapid.Bool().Draw(c.T, "user") {
			user = func(groups []string, a slog.Attr) slog.Attr {
				if a.Key == "msg" || a.Key == "a" {
					a.Key += fmt.Sprint(len(groups))
				}
				return a
			}
		}
		src := rapid.Bool().Draw(c.T, "src")
		prog := p.Program(c.T, 24, []uintptr{0, somePC})
		paths := prog.Paths()
		var sinks [2]kit.Sink
		var lines [2][]string
		var nodes [2][]slog.Handler
		for i, cr := range []infra.Creator{madkinsflash.Creator(), madkinsreplattr.Creator()} {
			nodes[i] = []slog.Handler{cr.NewHandler(&sinks[i], &slog.HandlerOptions{AddSource: src, ReplaceAttr: user})}
		}
		type job struct {
			node int
			rec  slog.Record
		}
		var jobs []job
		used := map[int]bool{}
		for i, op := range prog {
			switch op.Kind {
			case 'A', 'G':
				for k := range nodes {
					h := nodes[k][op.Node]
					if op.Kind == 'A' {
						h = h.WithAttrs(append([]slog.Attr{}, op.Attrs...))
					} else {
						h = h.WithGroup(op.Name)
					}
					nodes[k] = append(nodes[k], h)
				}
			case 'R':
				op.Level = rapid.SampledFrom([]slog.Level{0, 4, 8}).Draw(c.T, fmt.Sprint("lvl", i))
				open := false
				for _, d := range paths[op.Node] {
					open = open || (d.Kind == 'G' && d.Name != "")
				}
				if !open {
					op.Attrs = slices.DeleteFunc(slices.Clone(op.Attrs), func(a slog.Attr) bool { return topNames([]slog.Attr{a}) })
				}
				jobs = append(jobs, job{op.Node, op.Record()})
				used[op.Node] = true
			}
		}
		// A derivation at top level may hold the renamed names too: its loggers are left out.
		bad := func(node int) bool {
			for _, d := range paths[node] {
				if d.Kind == 'G' && d.Name != "" {
					return false
				}
				if d.Kind == 'A' && topNames(d.Attrs) {
					return true
				}
			}
			return false
		}
		jobs = slices.DeleteFunc(jobs, func(j job) bool { return bad(j.node) })
		errs := [2][]string{make([]string, len(jobs)), make([]string, len(jobs))}
		for i, j := range jobs {
			errs[0][i] = fmt.Sprint(nodes[0][j.node].Handle(ctx, j.rec.Clone()))
		}
		goroutines := rapid.IntRange(2, 8).Draw(c.T, "goroutines")
		concurrently(len(jobs), goroutines, func(i int) {
			errs[1][i] = fmt.Sprint(nodes[1][jobs[i].node].Handle(ctx, jobs[i].rec.Clone()))
		})
		for i := range sinks {
			for _, w := range sinks[i].Take() {
				lines[i] = append(lines[i], string(w))
			}
			slices.Sort(lines[i])
		}
		if !slices.Equal(errs[0], errs[1]) {
			c.Fatalf("flash errors %q, replattr errors %q", errs[0], errs[1])
		}
		if !slices.Equal(lines[0], lines[1]) {
			c.Fatalf("user=%v src=%v %d goroutines: flash logs\n%s\nreplattr logs\n%s", user != nil, src, goroutines, strings.Join(lines[0], ""), strings.Join(lines[1], ""))
		}
		c.Case(len(used) > 1, "user=%v src=%v %d goroutines %s", user != nil, src, goroutines, prog)
	})
}
