package creators

import (
	"fmt"
	"io"
	"log/slog"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"

	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"github.com/madkins23/go-slog/replace"
	"pgregory.net/rapid"
)

func init() {
	// Some functions under test report on the default logger.
	slog.SetDefault(slog.New(slog.NewJSONHandler(io.Discard, nil)))
}

// names that differ only by case, or look alike.
var names = []string{"", "a", "A", "key", "Key", "KEY", "kEy", "keys", "ke", "é", "É", "ωμ", "ΩΜ", "level", "LEVEL", "x y", "a.b", "k_1", "K_1", "msg", "Msg", "10",
	// letters that fold to one another in unusual ways
	"\u212aey", "\u017fum", "SUM", "sum", "\u03c2", "\u03c3", "\u03a3", "\u01c4", "\u01c5", "\u01c6", "\u1e9e", "\u00df", "ss", "\u0130", "\u0131", "i", "I"}

var long = kit.Filler(300)

// Long names that are the same, differ only by case or at the end.
var longNames = []string{long, strings.ToUpper(long), long[:299], long + "s", long[:70], strings.ToUpper(long[:70]), long[:69] + "K", long[:69] + "\u212a"}

// name draws a name, often one of few.
func name(t *rapid.T, l string) string {
	if rapid.IntRange(0, 19).Draw(t, l+"/long") == 10 {
		return rapid.SampledFrom(longNames).Draw(t, l)
	}
	if rapid.IntRange(0, 2).Draw(t, l+"/few") > 0 {
		return rapid.SampledFrom(names[:7]).Draw(t, l)
	}
	if rapid.IntRange(0, 3).Draw(t, l+"/odd") == 0 {
		return rapid.SampledFrom(names[22:]).Draw(t, l)
	}
	return rapid.SampledFrom(names).Draw(t, l)
}

// folded maps texts that are equal under simple Unicode case folding to the same text.
func folded(s string) string {
	return strings.Map(func(r rune) rune {
		least := r
		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
			least = min(least, f)
		}
		return least
	}, s)
}

// stack draws the open groups.
func stack(t *rapid.T, l string) []string {
	most := 3
	if rapid.IntRange(0, 3).Draw(t, l+"/deep") == 0 {
		most = 9
	}
	groups := rapid.SliceOfN(rapid.SampledFrom(names[:7]), 0, most).Draw(t, l)
	for i := kit.Size(t, l+"/deeper", 60, 5, 10, 20, 70); i > 0; i-- {
		groups = append([]string{names[i%7]}, groups...)
	}
	return groups
}

type check struct {
	text string
	fn   replace.GroupCheckFn
	ok   func(groups []string) bool
}

func drawCheck(t *rapid.T, l string) check {
	switch rapid.IntRange(0, 2).Draw(t, l+"/chk") {
	case 0:
		return check{"any", nil, func([]string) bool { return true }}
	case 1:
		return check{"top", replace.TopCheck, func(g []string) bool { return len(g) == 0 }}
	default:
		n := name(t, l+"/cur")
		return check{fmt.Sprintf("current(%q)", n), replace.Current(n), func(g []string) bool { return len(g) > 0 && g[len(g)-1] == n }}
	}
}

// step is a replace function with what it should do.
type step struct {
	text string
	fn   infra.AttrFn
	want func(groups []string, a slog.Attr) slog.Attr
}

func textOf(v slog.Value) string {
	switch v.Kind() {
	case slog.KindString:
		return v.String()
	default:
		return fmt.Sprint(v.Any())
	}
}

func drawStep(t *rapid.T, l string, depth int) step {
	fold := rapid.Bool().Draw(t, l+"/fold")
	key := name(t, l+"/key")
	chk := drawCheck(t, l)
	match := func(groups []string, a slog.Attr) bool {
		same := a.Key == key
		if fold {
			same = folded(a.Key) == folded(key)
		}
		return same && chk.ok(groups)
	}
	on := fmt.Sprintf("%q fold=%v %s", key, fold, chk.text)
	k := rapid.IntRange(0, 5).Draw(t, l+"/what")
	if k == 5 && depth == 0 {
		k = 4
	}
	switch k {
	case 0:
		to := name(t, l+"/to")
		return step{fmt.Sprintf("key(%s -> %q)", on, to), replace.ChangeKey(key, to, fold, chk.fn),
			func(g []string, a slog.Attr) slog.Attr {
				if match(g, a) {
					return slog.Attr{Key: to, Value: a.Value}
				}
				return a
			}}
	case 1:
		v := drawValue(t, l+"/v")
		return step{fmt.Sprintf("set(%s -> %v)", on, v), replace.ChangeValue(key, replace.SetValueTo(v), fold, chk.fn),
			func(g []string, a slog.Attr) slog.Attr {
				if match(g, a) {
					return slog.Attr{Key: a.Key, Value: v}
				}
				return a
			}}
	case 2:
		twice := func(v slog.Value) slog.Value { return slog.StringValue(v.String() + v.String()) }
		return step{fmt.Sprintf("change(%s)", on), replace.ChangeValue(key, twice, fold, chk.fn),
			func(g []string, a slog.Attr) slog.Attr {
				if match(g, a) {
					return slog.Attr{Key: a.Key, Value: twice(a.Value)}
				}
				return a
			}}
	case 3:
		cs := replace.ChangeCases(rapid.IntRange(0, 4).Draw(t, l+"/case"))
		return step{fmt.Sprintf("case(%s %d)", on, cs), replace.ChangeCase(key, cs, fold, chk.fn),
			func(g []string, a slog.Attr) slog.Attr {
				if !match(g, a) {
					return a
				}
				switch cs {
				case replace.CaseLower:
					return slog.String(a.Key, strings.ToLower(a.Value.String()))
				case replace.CaseUpper:
					return slog.String(a.Key, strings.ToUpper(a.Value.String()))
				}
				return a
			}}
	case 4:
		return step{fmt.Sprintf("remove(%s)", on), replace.RemoveKey(key, fold, chk.fn),
			func(g []string, a slog.Attr) slog.Attr {
				if match(g, a) {
					return slog.Attr{}
				}
				return a
			}}
	default:
		return drawMultiple(t, l, depth-1)
	}
}

func drawMultiple(t *rapid.T, l string, depth int) step {
	n := rapid.IntRange(0, 5).Draw(t, l+"/n")
	if depth > 0 {
		n += kit.Size(t, l+"/many", 60, 6, 12, 35)
	}
	var text []string
	var fns []infra.AttrFn
	var want []func([]string, slog.Attr) slog.Attr
	for i := 0; i < n; i++ {
		s := drawStep(t, fmt.Sprintf("%s.%d", l, i), depth)
		text, fns, want = append(text, s.text), append(fns, s.fn), append(want, s.want)
	}
	return step{"[" + strings.Join(text, "; ") + "]", replace.Multiple(fns...),
		func(g []string, a slog.Attr) slog.Attr {
			for _, w := range want {
				a = w(g, a)
				if isNone(a) {
					return slog.Attr{}
				}
			}
			return a
		}}
}

func isNone(a slog.Attr) bool {
	return a.Key == "" && a.Value.Kind() == slog.KindAny && a.Value.Any() == nil
}

func drawValue(t *rapid.T, l string) slog.Value {
	switch rapid.IntRange(0, 8).Draw(t, l+"/vk") {
	case 0, 1, 2:
		return slog.StringValue(rapid.SampledFrom([]string{"", "abc", "ABC", "Abc Def", "éÉ", "straße", "x1", "DEBUG+2", "ΩΜ", "ΌΣΟΣ", "\u01c6", "\ufb01", "\u0130", "a\x00b", "\xff", long, long[:70]}).Draw(t, l+"/s"))
	case 3:
		return slog.IntValue(rapid.IntRange(-3, 3).Draw(t, l+"/i"))
	case 4:
		return slog.BoolValue(rapid.Bool().Draw(t, l+"/b"))
	case 5:
		return slog.DurationValue(time.Duration(rapid.IntRange(0, 5000).Draw(t, l+"/d")) * time.Millisecond)
	case 6:
		return slog.Float64Value(rapid.SampledFrom([]float64{0, 1.5, 1e21, -2}).Draw(t, l+"/f"))
	case 7:
		return slog.AnyValue(kit.ErrT{S: "Some Error"})
	default:
		return slog.AnyValue(nil)
	}
}

func same(a, b slog.Attr) bool {
	return a.Key == b.Key && a.Value.Kind() == b.Value.Kind() && a.Value.Equal(b.Value)
}

var checks = kit.Check

func TestR01_Functions(t *testing.T) {
	checks(t, 30000, 600000, "a replace function (kind, key, case rule, group check, also sequences of up to 5, nested) on an attribute within 0-9 groups, against a model of each kind; non-trivial when it changes the attribute", func(c *kit.C) {
		s := drawStep(c.T, "fn", 2)
		n := rapid.IntRange(1, 4).Draw(c.T, "attrs")
		changed := false
		var text []string
		for i := 0; i < n; i++ {
			groups := stack(c.T, fmt.Sprint("groups", i))
			a := slog.Attr{Key: name(c.T, fmt.Sprint("key", i)), Value: drawValue(c.T, fmt.Sprint("a", i))}
			before := slices.Clone(groups)
			want := s.want(groups, a)
			got := s.fn(groups, a)
			text = append(text, fmt.Sprintf("%q %v", groups, a))
			if !same(want, got) {
				c.Fatalf("%s in groups %q: %v became %v (%v), want %v (%v)", s.text, before, a, got, got.Value.Kind(), want, want.Value.Kind())
			}
			if !slices.Equal(before, groups) {
				c.Fatalf("%s changed the groups %q to %q", s.text, before, groups)
			}
			changed = changed || !same(a, want)
		}
		c.Case(changed, "%s on %s", s.text, strings.Join(text, ", "))
	})
}

func TestR01_Sequence(t *testing.T) {
	checks(t, 10000, 200000, "a sequence of 0-6 recording functions, any of which may empty the attribute: each must get the previous result and the same groups, none may run after the emptying one; non-trivial when one of at least two functions empties it", func(c *kit.C) {
		n := rapid.IntRange(0, 6).Draw(c.T, "n") + kit.Size(c.T, "many", 60, 5, 10, 30, 70, 270)
		emptyAt := rapid.IntRange(0, max(n, 6)+1).Draw(c.T, "at")
		groups := stack(c.T, "groups")
		var calls []int
		var fns []infra.AttrFn
		cur := slog.Attr{Key: "start", Value: slog.IntValue(-1)}
		start := cur
		for i := 0; i < n; i++ {
			out := slog.Attr{Key: rapid.SampledFrom(names).Draw(c.T, fmt.Sprint("k", i)), Value: slog.IntValue(i)}
			if rapid.IntRange(0, 5).Draw(c.T, fmt.Sprint("almost", i)) == 0 {
				// Not an empty attribute, though it has one empty half.
				if rapid.Bool().Draw(c.T, fmt.Sprint("half", i)) {
					out = slog.Attr{Key: "nil"}
				} else {
					out = slog.Attr{Key: "", Value: slog.StringValue("")}
				}
			}
			if i == emptyAt {
				out = slog.Attr{}
			}
			want := cur
			cur = out
			fns = append(fns, func(g []string, a slog.Attr) slog.Attr {
				calls = append(calls, i)
				if !slices.Equal(g, groups) {
					c.Fatalf("function %d got groups %q instead of %q", i, g, groups)
				}
				if !same(a, want) {
					c.Fatalf("function %d got %v instead of %v", i, a, want)
				}
				return out
			})
		}
		got := replace.Multiple(fns...)(groups, start)
		runs := n
		if emptyAt < n {
			runs = emptyAt + 1
			cur = slog.Attr{}
		}
		if len(calls) != runs || !slices.IsSorted(calls) {
			c.Fatalf("of %d functions, number %d emptying the attribute, these were called: %v", n, emptyAt, calls)
		}
		if !same(got, cur) {
			c.Fatalf("sequence gave %v instead of %v", got, cur)
		}
		c.Case(n >= 2 && emptyAt < n, "n=%d emptyAt=%d groups=%q", n, emptyAt, groups)
	})
}

func TestR01_Logged(t *testing.T) {
	p := kit.Profile{Valuers: true, Depth: 2, Keys: []string{"a", "A", "key", "Key", "msg", "level", "g"}}
	checks(t, 3000, 60000, "the same functions as ReplaceAttr of the standard JSON handler, against the model as ReplaceAttr of the same handler; non-trivial when a field differs from the unreplaced line", func(c *kit.C) {
		s := drawStep(c.T, "fn", 1)
		rec := p.Record(c.T, "rec", 0, nil)
		line := func(fn infra.AttrFn) string {
			var b strings.Builder
			h := slog.NewJSONHandler(&b, &slog.HandlerOptions{Level: slog.Level(-1 << 60), ReplaceAttr: fn})
			if err := h.Handle(ctx, rec.Record()); err != nil {
				c.Fatalf("VERIF-HARNESS-ERROR %v", err)
			}
			return b.String()
		}
		want, got, plain := line(s.want), line(s.fn), line(nil)
		if want != got {
			c.Fatalf("with %s logged\n %swant\n %s", s.text, got, want)
		}
		c.Case(want != plain, "%s on %s", s.text, kit.Program{rec})
	})
}

// concurrently runs f(0) … f(n-1) from several goroutines that start together.
func concurrently(n, goroutines int, f func(i int)) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < goroutines; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := g; i < n; i += goroutines {
				f(i)
			}
		}()
	}
	close(start)
	wg.Wait()
}

func TestR01_Concurrent(t *testing.T) {
	checks(t, 1500, 40000, "1-4 replace functions (sequences too) shared by 2-8 goroutines, on 4-40 attributes within 0-9 groups each, also under the race detector: every result must be that of the model; non-trivial when an attribute changes", func(c *kit.C) {
		var steps []step
		var text []string
		for i := rapid.IntRange(1, 4).Draw(c.T, "fns"); i > 0; i-- {
			s := drawStep(c.T, fmt.Sprint("fn", i), 1)
			steps, text = append(steps, s), append(text, s.text)
		}
		type job struct {
			groups []string
			a      slog.Attr
			got    slog.Attr
		}
		jobs := make([]job, rapid.IntRange(4, 40).Draw(c.T, "attrs"))
		for i := range jobs {
			jobs[i].groups = stack(c.T, fmt.Sprint("groups", i))
			jobs[i].a = slog.Attr{Key: name(c.T, fmt.Sprint("key", i)), Value: drawValue(c.T, fmt.Sprint("a", i))}
		}
		goroutines := rapid.IntRange(2, 8).Draw(c.T, "goroutines")
		concurrently(len(jobs), goroutines, func(i int) {
			jobs[i].got = steps[i%len(steps)].fn(jobs[i].groups, jobs[i].a)
		})
		changed := false
		for i, j := range jobs {
			s := steps[i%len(steps)]
			want := s.want(j.groups, j.a)
			if !same(want, j.got) {
				c.Fatalf("%s in groups %q, used by %d goroutines: %v became %v, want %v", s.text, j.groups, goroutines, j.a, j.got, want)
			}
			changed = changed || !same(j.a, want)
		}
		c.Case(changed, "%d goroutines, %d attributes: %s", goroutines, len(jobs), strings.Join(text, "; "))
	})
}
