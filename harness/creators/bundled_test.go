package creators

import (
	"bytes"
	"fmt"
	"io"
	"log/slog"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/creator/madkinsflash"
	"github.com/madkins23/go-slog/creator/madkinsreplattr"
	"github.com/madkins23/go-slog/creator/madkinssloggy"
	"github.com/madkins23/go-slog/creator/phsymzerolog"
	"github.com/madkins23/go-slog/creator/phusluslog"
	"github.com/madkins23/go-slog/creator/samberlogrus"
	"github.com/madkins23/go-slog/creator/samberzap"
	"github.com/madkins23/go-slog/creator/samberzerolog"
	"github.com/madkins23/go-slog/creator/slogjson"
	"github.com/madkins23/go-slog/creator/utillogrus"
	"github.com/madkins23/go-slog/creator/utilzap"
	"github.com/madkins23/go-slog/creator/veqryndedup"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"github.com/sirupsen/logrus"
	"go.uber.org/zap/zapcore"
	"pgregory.net/rapid"
)

var bundled = []infra.Creator{
	slogjson.Creator(), madkinsflash.Creator(), madkinssloggy.Creator(), madkinsreplattr.Creator(),
	phsymzerolog.Creator(), phusluslog.Creator(), samberlogrus.Creator(), samberzap.Creator(), samberzerolog.Creator(),
	veqryndedup.Creator(veqryndedup.Ignore), veqryndedup.Creator(veqryndedup.Append),
	veqryndedup.Creator(veqryndedup.Increment), veqryndedup.Creator(veqryndedup.Overwrite),
}

var standard = []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError}

type tagHandler struct {
	slog.Handler
	w   io.Writer
	o   *slog.HandlerOptions
	src string
}

func TestC02_Factory(t *testing.T) {
	checks(t, 3000, 60000, "a creator from a generated name, summary, links and handler function, logger function or both, asked several times for handlers and loggers over generated writers and options; every combination counts as non-trivial", func(c *kit.C) {
		name := "n" + kit.WildText(c.T, "name")
		summary := kit.PlainText(c.T, "summary")
		var links infra.Links
		if n := rapid.IntRange(-1, 3).Draw(c.T, "links"); n >= 0 {
			links = infra.Links{}
			for i := 0; i < n; i++ {
				links[kit.PlainText(c.T, fmt.Sprint("lk", i))] = kit.PlainText(c.T, fmt.Sprint("lv", i))
			}
		}
		which := rapid.IntRange(1, 3).Draw(c.T, "fns")
		var made []*tagHandler
		mk := func(src string) func(io.Writer, *slog.HandlerOptions) slog.Handler {
			return func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
				h := &tagHandler{w: w, o: o, src: src}
				made = append(made, h)
				return h
			}
		}
		var hf infra.CreateHandlerFn
		var lf infra.CreateLoggerFn
		if which&1 != 0 {
			hf = mk("handler")
		}
		if which&2 != 0 {
			lf = func(w io.Writer, o *slog.HandlerOptions) *slog.Logger { return slog.New(mk("logger")(w, o)) }
		}
		cr := infra.NewCreator(name, hf, lf, summary, links)
		if cr.Name() != name || cr.Summary() != summary || cr.HasSummary() != (summary != "") || cr.HasLinks() != (len(links) > 0) {
			c.Fatalf("creator(%q, %q, %q) has name %q, summary %q (%v), links %v", name, summary, links, cr.Name(), cr.Summary(), cr.HasSummary(), cr.HasLinks())
		}
		if len(links) != len(cr.Links()) || len(links) > 0 && !reflect.DeepEqual(map[string]string(links), cr.Links()) {
			c.Fatalf("links %q became %q", links, cr.Links())
		}
		if cr.CanMakeHandler() != (hf != nil) {
			c.Fatalf("CanMakeHandler is %v with handler function %v", cr.CanMakeHandler(), hf != nil)
		}
		level := kit.Level(c.T, "level")
		fn := func(_ []string, a slog.Attr) slog.Attr { a.Key += name; return a }
		for i, o := range []*slog.HandlerOptions{infra.SimpleOptions(), infra.LevelOptions(level), infra.SourceOptions(), infra.ReplaceAttrOptions(fn)} {
			want := []slog.Leveler{slog.LevelInfo, level, slog.LevelInfo, slog.LevelInfo}[i]
			if o.Level != want || o.AddSource != (i == 2) || (o.ReplaceAttr != nil) != (i == 3) {
				c.Fatalf("ready-made options %d for level %d are %+v", i, level, *o)
			}
			if i == 3 && o.ReplaceAttr(nil, slog.Int("k", 1)).Key != "k"+name {
				c.Fatalf("the options have another replace function")
			}
			if i == 1 { // a level that changes is followed
				var v slog.LevelVar
				follow := infra.LevelOptions(&v)
				for _, l := range []slog.Level{level, -level, level + 1} {
					if v.Set(l); follow.Level.Level() != l {
						c.Fatalf("options with a variable level that is %d have level %d", l, follow.Level.Level())
					}
				}
			}
			*o = slog.HandlerOptions{Level: slog.LevelError, AddSource: true, ReplaceAttr: fn} // must not be shared
		}
		n := rapid.IntRange(1, 4).Draw(c.T, "calls")
		for i := 0; i < n; i++ {
			made = nil
			w := &bytes.Buffer{}
			var o *slog.HandlerOptions
			if rapid.Bool().Draw(c.T, fmt.Sprint("o", i)) {
				o = &slog.HandlerOptions{Level: kit.Level(c.T, fmt.Sprint("lv", i)), AddSource: true}
			}
			if rapid.Bool().Draw(c.T, fmt.Sprint("kind", i)) {
				h := cr.NewHandler(w, o)
				if hf == nil {
					if h != nil || len(made) != 0 {
						c.Fatalf("handler %v without a handler function", h)
					}
					continue
				}
				if len(made) != 1 || h != slog.Handler(made[0]) || made[0].src != "handler" || made[0].w != w || made[0].o != o {
					c.Fatalf("NewHandler gave %v, made %v", h, made)
				}
			} else {
				l := cr.NewLogger(w, o)
				want := "handler"
				if lf != nil {
					want = "logger"
				}
				if len(made) != 1 || l == nil || l.Handler() != slog.Handler(made[0]) || made[0].src != want || made[0].w != w || made[0].o != o {
					c.Fatalf("NewLogger gave %v from %v", l, made)
				}
			}
		}
		c.Case(true, "%q fns=%d links=%d calls=%d", name, which, len(links), n)
	})
}

// scalars every bundled handler writes plainly.
func scalar(t *rapid.T, l string) (slog.Value, any) {
	switch rapid.IntRange(0, 2).Draw(t, l+"/k") {
	case 0:
		s := rapid.StringMatching(`[a-zA-Z0-9 "\\\n{}:,é字]{0,12}`).Draw(t, l+"/s")
		return slog.StringValue(s), kit.Text(s)
	case 1:
		b := rapid.Bool().Draw(t, l+"/b")
		return slog.BoolValue(b), b
	default:
		n := rapid.Int64Range(-1<<40, 1<<40).Draw(t, l+"/i")
		return slog.Int64Value(n), kit.Float(float64(n))
	}
}

// place of a nested object while the expected line is built.
type place struct {
	keys []string
	vals map[string]any
}

func newPlace() *place { return &place{vals: map[string]any{}} }

func (p *place) put(path []string, key string, v any) {
	for _, g := range path {
		sub, ok := p.vals[g].(*place)
		if !ok {
			sub = newPlace()
			p.vals[g] = sub
			p.keys = append(p.keys, g)
		}
		p = sub
	}
	p.keys = append(p.keys, key)
	p.vals[key] = v
}

func (p *place) clone() *place {
	q := newPlace()
	for _, k := range p.keys {
		if s, ok := p.vals[k].(*place); ok {
			q.vals[k] = s.clone()
		} else {
			q.vals[k] = p.vals[k]
		}
		q.keys = append(q.keys, k)
	}
	return q
}

func (p *place) want() kit.Unordered {
	var o kit.Unordered
	for _, k := range p.keys {
		if s, ok := p.vals[k].(*place); ok {
			o = append(o, kit.Field{Key: k, Val: s.want()})
		} else {
			o = append(o, kit.Field{Key: k, Val: p.vals[k]})
		}
	}
	return o
}

type logger struct {
	name  string
	log   *slog.Logger
	out   *kit.Sink
	thr   slog.Level
	path  []string
	state *place
	src   bool
	any   bool // any record level is supported
	// derived tells that another logger has been derived from this one.
	derived bool
}

// Creators whose logging library has another default level.
var noDefault = map[string]bool{"samber/slog-zerolog": true}

func TestC02_Bundled(t *testing.T) {
	checks(t, 4000, 80000, "2-4 loggers of bundled creators (13; the foreign ones only one group deep and in a single chain) with generated thresholds, derived (With, WithGroup) and logged to in turn at the standard levels; uniquely named scalar and group attributes; each line must go to the right writer as one JSON object with message, level and exactly the attributes; non-trivial when records were both written and gated", func(c *kit.C) {
		var ls []*logger
		n := rapid.IntRange(2, 4).Draw(c.T, "loggers")
		var text []string
		for i := 0; i < n; i++ {
			l := fmt.Sprint("l", i)
			cr := rapid.SampledFrom(bundled).Draw(c.T, l)
			if i > 0 && rapid.IntRange(0, 2).Draw(c.T, l+"/same") == 0 {
				cr = bundled[slices.IndexFunc(bundled, func(b infra.Creator) bool { return b.Name() == ls[0].name })]
			}
			thr := slog.Level(rapid.IntRange(-8, 12).Draw(c.T, l+"/thr"))
			if rapid.Bool().Draw(c.T, l+"/std") {
				thr = rapid.SampledFrom(standard).Draw(c.T, l+"/thr2")
			}
			src := rapid.IntRange(0, 2).Draw(c.T, l+"/src") == 0
			out := &kit.Sink{}
			var log *slog.Logger
			var level slog.Leveler = thr
			if rapid.Bool().Draw(c.T, l+"/var") {
				v := &slog.LevelVar{}
				v.Set(thr)
				level = v
			}
			if rapid.IntRange(0, 5).Draw(c.T, l+"/nil") == 0 && !noDefault[cr.Name()] {
				level, thr = nil, slog.LevelInfo
			}
			o := &slog.HandlerOptions{Level: level, AddSource: src}
			if rapid.Bool().Draw(c.T, l+"/h") {
				log = slog.New(cr.NewHandler(out, o))
			} else {
				log = cr.NewLogger(out, o)
			}
			if o.Level != level || o.AddSource != src || o.ReplaceAttr != nil {
				c.Fatalf("%s changes the options it is given to %+v", cr.Name(), *o)
			}
			ls = append(ls, &logger{name: cr.Name(), log: log, out: out, thr: thr, state: newPlace(), src: src,
				any: strings.HasPrefix(cr.Name(), "madkins/") || strings.HasPrefix(cr.Name(), "slog/")})
			text = append(text, fmt.Sprintf("%s thr=%d", cr.Name(), thr))
		}
		ops := rapid.IntRange(1, 10).Draw(c.T, "ops")
		written, gated, serial := 0, 0, 0
		attrs := func(lab string, lg *logger, st *place) []any {
			var as []any
			k := rapid.IntRange(0, 3).Draw(c.T, lab+"/n")
			for j := 0; j < k; j++ {
				serial++
				v, w := scalar(c.T, fmt.Sprint(lab, "/", j))
				key := "k" + strconv.Itoa(serial)
				if rapid.IntRange(0, 3).Draw(c.T, fmt.Sprint(lab, "/grp", j)) == 0 {
					g := "g" + strconv.Itoa(serial)
					as = append(as, slog.Group(g, slog.Attr{Key: key, Value: v}))
					st.put(append(slices.Clone(lg.path), g), key, w)
				} else {
					as = append(as, slog.Attr{Key: key, Value: v})
					st.put(lg.path, key, w)
				}
			}
			return as
		}
		for i := 0; i < ops; i++ {
			lab := fmt.Sprint("op", i)
			at := rapid.IntRange(0, len(ls)-1).Draw(c.T, lab+"/at")
			lg := ls[at]
			switch rapid.IntRange(0, 5).Draw(c.T, lab) {
			case 0:
				if !lg.any && (lg.derived || len(lg.path) > 0) {
					continue // some backends lose these by themselves
				}
				lg.derived = true
				child := *lg
				child.derived = false
				child.state = lg.state.clone()
				as := attrs(lab, &child, child.state)
				child.log = lg.log.With(as...)
				ls = append(ls, &child)
				text = append(text, fmt.Sprintf("l%d.With%v", at, as))
			case 1:
				if !lg.any && (lg.derived || len(lg.path) > 0) {
					continue
				}
				lg.derived = true
				child := *lg
				child.derived = false
				child.state = lg.state.clone()
				serial++
				g := "w" + strconv.Itoa(serial)
				// Something goes into each group at once, open empty groups differ between handlers.
				child.path = append(slices.Clone(lg.path), g)
				serial++
				key := "k" + strconv.Itoa(serial)
				child.state.put(child.path, key, kit.Float(float64(serial)))
				child.log = lg.log.WithGroup(g).With(key, serial)
				ls = append(ls, &child)
				text = append(text, fmt.Sprintf("l%d.Group(%s)", at, g))
			default:
				st := lg.state.clone()
				as := attrs(lab, lg, st)
				serial++
				msg := "message " + strconv.Itoa(serial)
				level := rapid.SampledFrom(standard).Draw(c.T, lab+"/lvl")
				if lg.any && rapid.Bool().Draw(c.T, lab+"/odd") {
					level = slog.Level(rapid.IntRange(-12, 16).Draw(c.T, lab+"/anylvl"))
				}
				lg.log.Log(ctx, level, msg, as...)
				text = append(text, fmt.Sprintf("l%d.Log(%d%v)", at, level, as))
				for j, other := range ls {
					if other.out == lg.out {
						continue
					}
					if w := other.out.Take(); len(w) > 0 {
						c.Fatalf("a record for l%d (%s) was written to l%d (%s): %q", at, lg.name, j, other.name, w)
					}
				}
				w := bytes.Join(lg.out.Take(), nil)
				if level < lg.thr {
					gated++
					if len(w) > 0 {
						c.Fatalf("%s with threshold %d wrote a record at level %d: %s", lg.name, lg.thr, level, w)
					}
					continue
				}
				written++
				checkLine(c, lg, level, msg, st, w)
			}
		}
		c.Case(written > 0 && gated > 0, "%s", strings.Join(text, "; "))
	})
}

func checkLine(c *kit.C, lg *logger, level slog.Level, msg string, st *place, w []byte) {
	if len(w) == 0 {
		c.Fatalf("%s with threshold %d wrote nothing for a record at level %d", lg.name, lg.thr, level)
	}
	o, err := kit.DecodeLine(w)
	if err != nil {
		c.Fatalf("%s: %v in %q", lg.name, err, w)
	}
	var rest kit.Obj
	var levels, msgs, sources int
	for _, f := range o {
		switch f.Key {
		case "time":
		case "level":
			levels++
			s, _ := f.Val.(string)
			want := strings.ToLower(level.String())
			if !lg.any {
				want = map[slog.Level]string{-4: "debug", 0: "info", 4: "warn", 8: "error"}[level]
			}
			got := strings.ToLower(s)
			if got == "warning" {
				got = "warn"
			}
			if got != want && !(lg.name == madkinsreplattr.Name && level != 0 && level%4 != 0) {
				c.Fatalf("%s: level %q for %q in %s", lg.name, s, want, w)
			}
		case "msg", "message":
			msgs++
			if f.Val != msg {
				c.Fatalf("%s: message %v instead of %q in %s", lg.name, f.Val, msg, w)
			}
		case "source", "caller":
			sources++
		default:
			rest = append(rest, f)
		}
	}
	if levels != 1 || msgs != 1 {
		c.Fatalf("%s: %d level and %d message fields in %s", lg.name, levels, msgs, w)
	}
	want := 0
	if lg.src {
		want = 1
	}
	if sources != want {
		c.Fatalf("%s: %d source fields with AddSource %v in %s", lg.name, sources, lg.src, w)
	}
	if d := kit.Diff("line", st.want(), rest); d != "" {
		c.Fatalf("%s: %s\n in %s", lg.name, d, w)
	}
}

func TestC02_Dedup(t *testing.T) {
	modes := []veqryndedup.Mode{veqryndedup.Ignore, veqryndedup.Overwrite, veqryndedup.Append, veqryndedup.Increment}
	checks(t, 1500, 30000, "a record with 1-6 integer attributes under repeated keys (some differing in case only), perhaps the later ones in a group, through each dedup mode's creator: first value, last value, all values, or numbered names; non-trivial when a key repeats", func(c *kit.C) {
		mode := rapid.SampledFrom(modes).Draw(c.T, "mode")
		keys := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", "A", "bb"}), 1, 6).Draw(c.T, "keys")
		split := rapid.IntRange(0, len(keys)).Draw(c.T, "split")
		cr := veqryndedup.Creator(mode)
		if want := "veqryn/dedup/" + mode.String(); cr.Name() != want || veqryndedup.Name(mode) != want {
			c.Fatalf("mode %v is named %q and %q", mode, cr.Name(), veqryndedup.Name(mode))
		}
		grouped := split < len(keys) && rapid.IntRange(0, 2).Draw(c.T, "grouped") == 2
		var as []any
		for i, k := range keys {
			as = append(as, slog.Int(k, i))
		}
		repeated := false
		dedup := func(keys []string, from int) (want kit.Unordered) {
			vals := map[string][]any{}
			for i, k := range keys {
				vals[k] = append(vals[k], kit.Float(float64(from+i)))
			}
			repeated = repeated || len(vals) < len(keys)
			for _, k := range kit.SortedKeys(vals) {
				vs := vals[k]
				switch mode {
				case veqryndedup.Ignore:
					want = append(want, kit.Field{Key: k, Val: vs[0]})
				case veqryndedup.Overwrite:
					want = append(want, kit.Field{Key: k, Val: vs[len(vs)-1]})
				case veqryndedup.Append:
					if len(vs) == 1 {
						want = append(want, kit.Field{Key: k, Val: vs[0]})
					} else {
						want = append(want, kit.Field{Key: k, Val: vs})
					}
				default:
					for i, v := range vs {
						n := k
						if i > 0 {
							n = fmt.Sprintf("%s#%02d", k, i)
						}
						want = append(want, kit.Field{Key: n, Val: v})
					}
				}
			}
			return want
		}
		var out kit.Sink
		log := cr.NewLogger(&out, &slog.HandlerOptions{Level: slog.LevelInfo})
		var want kit.Unordered
		if grouped {
			want = append(dedup(keys[:split], 0), kit.Field{Key: "g", Val: dedup(keys[split:], split)})
			log.With(as[:split]...).WithGroup("g").Info("m", as[split:]...)
		} else {
			want = dedup(keys, 0)
			log.With(as[:split]...).Info("m", as[split:]...)
		}
		w := bytes.Join(out.Take(), nil)
		o, err := kit.DecodeLine(w)
		if err != nil {
			c.Fatalf("%v in %q", err, w)
		}
		var rest kit.Obj
		for _, f := range o {
			if f.Key != "time" && f.Key != "level" && f.Key != "msg" {
				rest = append(rest, f)
			}
		}
		if d := kit.Diff("line", want, rest); d != "" {
			c.Fatalf("mode %v keys %v: %s in %s", mode, keys, d, w)
		}
		c.Case(repeated, "%v %v split %d group %v", mode, keys, split, grouped)
		c.Class(grouped, "later attributes in a group")
	})
}

func TestC02_Levels(t *testing.T) {
	var all []slog.Level
	for l := -40; l <= 40; l++ {
		all = append(all, slog.Level(l))
	}
	all = append(all, -1<<31, 1<<31-1, -1<<62, 1<<62)
	kit.Enum(t, "every level from -40 to 40 and extremes converted for zap and logrus gives the highest standard level not above it, Debug at least; all cases count", all, func(f kit.Failer, l slog.Level) (bool, string) {
		i := 0
		for i+1 < len(standard) && standard[i+1] <= l {
			i++
		}
		wantZ := []zapcore.Level{zapcore.DebugLevel, zapcore.InfoLevel, zapcore.WarnLevel, zapcore.ErrorLevel}[i]
		wantL := []logrus.Level{logrus.DebugLevel, logrus.InfoLevel, logrus.WarnLevel, logrus.ErrorLevel}[i]
		if got := utilzap.ConvertLevelToZap(l); got != wantZ {
			f.Fatalf("slog level %d became zap level %v instead of %v", l, got, wantZ)
		}
		if got := utillogrus.ConvertSlogLevel2Logrus(l); got != wantL {
			f.Fatalf("slog level %d became logrus level %v instead of %v", l, got, wantL)
		}
		return true, fmt.Sprint(int64(l))
	})
}
