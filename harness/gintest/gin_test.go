package gintest

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log/slog"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gin-gonic/gin"
	ginslog "github.com/madkins23/go-slog/gin"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// capture is the handler behind the default logger.
type capture struct {
	mu   sync.Mutex
	recs []slog.Record
}

func (h *capture) Enabled(context.Context, slog.Level) bool { return true }
func (h *capture) Handle(_ context.Context, r slog.Record) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.recs = append(h.recs, r.Clone())
	return nil
}
func (h *capture) WithAttrs([]slog.Attr) slog.Handler { panic("VERIF-HARNESS-ERROR WithAttrs") }
func (h *capture) WithGroup(string) slog.Handler      { panic("VERIF-HARNESS-ERROR WithGroup") }
func (h *capture) take() []slog.Record {
	h.mu.Lock()
	defer h.mu.Unlock()
	r := h.recs
	h.recs = nil
	return r
}

var logged = &capture{}

func init() {
	gin.SetMode(gin.ReleaseMode)
	slog.SetDefault(slog.New(logged))
}

func show(rs []slog.Record) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "(%v %q %s)", r.Level, r.Message, kit.ShowAttrs(attrsOf(r)))
	}
	return b.String()
}

func attrsOf(r slog.Record) []slog.Attr {
	var as []slog.Attr
	r.Attrs(func(a slog.Attr) bool { as = append(as, a); return true })
	return as
}

// anyLevel draws a leveler: named, custom, variable or none.
func anyLevel(t *rapid.T, l string) (slog.Leveler, func() slog.Level, string) {
	switch rapid.IntRange(0, 4).Draw(t, l+"/lk") {
	case 0:
		return nil, func() slog.Level { return slog.LevelInfo }, "default"
	case 1:
		v := &slog.LevelVar{}
		v.Set(slog.Level(rapid.IntRange(-6, 10).Draw(t, l+"/lv")))
		return v, v.Level, "var" + v.Level().String()
	case 2:
		lv := slog.Level(rapid.IntRange(-12, 16).Draw(t, l+"/lc"))
		return lv, func() slog.Level { return lv }, lv.String()
	default:
		lv := rapid.SampledFrom([]slog.Level{-4, 0, 4, 8}).Draw(t, l+"/ls")
		return lv, func() slog.Level { return lv }, lv.String()
	}
}

var levelTags = map[string]slog.Level{"[DEBUG]": -4, "[INFO]": 0, "[WARNING]": 4, "[ERROR]": 8, "[GIN-debug]": -4}
var tags = []string{"[GIN]", "[GIN]", "[GIN-debug]", "[DEBUG]", "[INFO]", "[WARNING]", "[ERROR]"}
var badTags = []string{"BAD", "WARN", "info", "Debug", "FATAL", "GIN-Debug", "gin", "", " INFO", "INFO ", "x y", "1", "BAD [x"}
var spaces = []string{"", "", " ", " ", "  ", "\t", " \t "}

var textPieces = []string{"word", "a", "Listening", " ", " ", "[x]", "[INFO]", "[GIN]", "]", "[", ":", "|", "\"", "-", "\n", "\t", "/", "é", "字", "200", "%d", "\\", "2024/01/26 - 13:21:32 | ", "\r", "\x00"}

// text draws message text. clear tells that nothing precedes it that would end a tag or prefix,
// so that it must not start with anything that looks like one or with space.
func text(t *rapid.T, l string, first, afterTag bool) string {
	s := strings.Join(rapid.SliceOfN(rapid.SampledFrom(textPieces), 0, 10).Draw(t, l), "")
	s = strings.TrimRight(s, "\n")
	if n := kit.Size(t, l, 40, 150, 700, 1500, 6000, 80_000); n > 0 {
		s += kit.Filler(n)
	}
	if first {
		for {
			trim := strings.TrimLeft(s, " \t\n\r\v\f")
			if afterTag {
				s = trim
			}
			if strings.HasPrefix(trim, "[") {
				s = "t" + trim
			} else if strings.HasPrefix(trim, "2024") {
				s = "t" + trim
			} else if strings.HasPrefix(trim, "200") && strings.Contains(trim, "-") {
				s = "t" + trim
			} else {
				break
			}
		}
		return s
	}
	return s
}

const timeLayout = "2006/01/02 - 15:04:05"

type line struct {
	text  string
	level slog.Level // meaning of the last level tag
	has   bool       // a level tag is there
	tags  int
	timed bool
	bad   bool
	badly string
	msg   string
}

// drawLine draws a line of tags, time prefix and message.
func drawLine(t *rapid.T, l string, body string, bodyGiven bool) line {
	var ln line
	var b strings.Builder
	n := rapid.IntRange(0, 4).Draw(t, l+"/tags")
	if rapid.IntRange(0, 19).Draw(t, l+"/many") == 0 {
		n = rapid.IntRange(5, 9).Draw(t, l+"/tags2")
	}
	b.WriteString("")
	for i := 0; i < n; i++ {
		b.WriteString(rapid.SampledFrom(spaces).Draw(t, fmt.Sprint(l, "/sp", i)))
		tag := rapid.SampledFrom(tags).Draw(t, fmt.Sprint(l, "/tag", i))
		b.WriteString(tag)
		if lv, ok := levelTags[tag]; ok {
			ln.level, ln.has = lv, true
		}
	}
	ln.tags = n
	sp := ""
	if n > 0 {
		sp = rapid.SampledFrom(spaces).Draw(t, l+"/sp")
		b.WriteString(sp)
	}
	if !bodyGiven && rapid.IntRange(0, 7).Draw(t, l+"/bad") == 0 {
		ln.bad = true
		tag := rapid.SampledFrom(badTags).Draw(t, l+"/badtag")
		ln.badly = strings.SplitN(tag, "]", 2)[0]
		b.WriteString("[" + tag + "]" + text(t, l+"/rest", false, false))
		ln.text = b.String()
		return ln
	}
	if rapid.IntRange(0, 2).Draw(t, l+"/timed") == 0 {
		ln.timed = true
		when := kit.Time(t, l+"/when")
		p := when.Format(timeLayout) + " |" + rapid.SampledFrom([]string{" ", "", "  "}).Draw(t, l+"/tsp")
		b.WriteString(p)
		if !bodyGiven {
			body = strings.TrimLeft(text(t, l+"/msg", false, true), " \t\n\r\v\f")
			if body == "" {
				body = "x"
			}
		}
	} else if !bodyGiven {
		body = text(t, l+"/msg", true, n > 0)
	}
	b.WriteString(body)
	b.WriteString(strings.Repeat("\n", rapid.IntRange(0, 3).Draw(t, l+"/nl")))
	ln.msg = body
	ln.text = b.String()
	return ln
}

func TestG01_Lines(t *testing.T) {
	kit.Check(t, 15000, 400000, "1-4 lines of 0-9 tags (Gin, Gin-debug, levels) with random space, time prefix, message text with brackets and newlines inside, trailing newlines, or an unknown tag, written to 1-2 writers with default, constant or changing levels; non-trivial with at least two tags, or a tag and brackets in the text", func(c *kit.C) {
		type wr struct {
			w   io.Writer
			lv  func() slog.Level
			lvr slog.Leveler
			txt string
		}
		var ws []wr
		writers := rapid.IntRange(1, 2).Draw(c.T, "writers")
		for i := 0; i < writers; i++ {
			lvr, lv, txt := anyLevel(c.T, fmt.Sprint("w", i))
			o := &ginslog.Options{Level: lvr}
			keep := *o
			ws = append(ws, wr{ginslog.NewWriter(o), lv, lvr, txt})
			if *o != keep {
				c.Fatalf("the caller's options were changed from %v to %v", keep, *o)
			}
			// Changes made to the options afterwards are of no concern to the writer.
			o.Level = slog.Level(77)
		}
		logged.take()
		var desc []string
		nt := false
		lines := rapid.IntRange(1, 4).Draw(c.T, "lines")
		for i := 0; i < lines; i++ {
			l := fmt.Sprint("line", i)
			w := ws[rapid.IntRange(0, len(ws)-1).Draw(c.T, l+"/w")]
			if v, ok := w.lvr.(*slog.LevelVar); ok && rapid.Bool().Draw(c.T, l+"/chg") {
				v.Set(slog.Level(rapid.IntRange(-6, 10).Draw(c.T, l+"/newlv")))
			}
			ln := drawLine(c.T, l, "", false)
			p := []byte(ln.text)
			n, err := w.w.Write(p)
			if string(p) != ln.text {
				c.Fatalf("Write changed its argument from %q to %q", ln.text, p)
			}
			recs := logged.take()
			desc = append(desc, fmt.Sprintf("%s: %q", w.txt, ln.text))
			nt = nt || ln.tags >= 2 || ln.tags > 0 && strings.Contains(ln.msg, "[")
			if ln.bad {
				if err == nil || n != 0 || len(recs) != 0 {
					c.Fatalf("%q: unknown tag gave n=%d err=%v records %s", ln.text, n, err, show(recs))
				}
				if !strings.Contains(err.Error(), ln.badly) {
					c.Fatalf("%q: error %q does not name %q", ln.text, err, ln.badly)
				}
				continue
			}
			if err != nil || n != len(ln.text) {
				c.Fatalf("%q: n=%d of %d, err=%v", ln.text, n, len(ln.text), err)
			}
			want := w.lv()
			if ln.has {
				want = ln.level
			}
			if len(recs) != 1 {
				c.Fatalf("%q: %d records instead of one: %s", ln.text, len(recs), show(recs))
			}
			r := recs[0]
			if r.Level != want || r.Message != ln.msg || r.NumAttrs() != 0 {
				c.Fatalf("%q: logged %s, want level %v message %q", ln.text, show(recs), want, ln.msg)
			}
			if d := time.Since(r.Time); d < -time.Minute || d > time.Hour {
				c.Fatalf("%q: logged with time %v", ln.text, r.Time)
			}
		}
		c.Case(nt, "%s", strings.Join(desc, " "))
	})
}

// traffic fields.
type traffic struct {
	code                         int
	elapsed, client, method, url string
}

func drawTraffic(t *rapid.T, l string) traffic {
	var tr traffic
	tr.code = rapid.SampledFrom([]int{200, 201, 204, 301, 400, 404, 418, 500, 503, 100, 999, 0, 7, 42, 1000}).Draw(t, l+"/code")
	d := time.Duration(rapid.SampledFrom([]int64{0, 1, 999, 12_345, 999_999, 2_512_908, 5_529_751_605, 59_999_999_999, 61e9, 3600e9, 86400e9 * 3}).Draw(t, l+"/el"))
	if rapid.Bool().Draw(t, l+"/elr") {
		d = time.Duration(rapid.Int64Range(0, 200e9).Draw(t, l+"/eln"))
	}
	if d > time.Minute {
		d = d.Truncate(time.Second)
	}
	tr.elapsed = d.String()
	if rapid.IntRange(0, 9).Draw(t, l+"/odd") == 0 {
		tr.elapsed = rapid.SampledFrom([]string{"", "1m 5s", "0.5 ms", "-", "12.5"}).Draw(t, l+"/elo")
	}
	tr.client = rapid.SampledFrom([]string{"::1", "127.0.0.1", "192.168.100.200", "2001:db8:85a3:8d3:1319:8a2e:370:7348", "fe80::1%eth0", ""}).Draw(t, l+"/client")
	tr.method = rapid.SampledFrom([]string{"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "CONNECT", "M-SEARCH", "PROPFIND", "X"}).Draw(t, l+"/method")
	tr.url = "/" + strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "path", "/", "?", "&", "=", "tag", "%20", " ", "|", "\"", "\\", "é", "字", "[x]", "\n", "\t", "\x00", "\xff", "'", "`", "  ", "%", "#", "😀", "\u00a0", "\u2028"}), 0, 9).Draw(t, l+"/url"), "")
	if n := kit.Size(t, l+"/url", 40, 80, 400, 1500, 6000, 80_000); n > 0 {
		tr.url += kit.Filler(n)
	}
	return tr
}

func (tr traffic) line() string {
	return fmt.Sprintf("%3d | %13v | %15s | %-7s  %#v", tr.code, tr.elapsed, tr.client, tr.method, tr.url)
}

func (tr traffic) want() map[string]string {
	return map[string]string{"code": fmt.Sprint("Int64 ", tr.code), "elapsed": "String " + tr.elapsed, "client": "String " + tr.client,
		"method": "String " + tr.method, "url": "String " + tr.url}
}

func flat(as []slog.Attr) map[string]string {
	m := map[string]string{}
	for _, a := range as {
		k := a.Key
		for m[k] != "" {
			k += "'"
		}
		m[k] = a.Value.Kind().String() + " " + a.Value.String()
	}
	return m
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

type ginOpts struct {
	o        ginslog.Options
	lv, tlv  func() slog.Level
	txt      string
	msg, grp string
}

func drawOpts(t *rapid.T) ginOpts {
	var g ginOpts
	var a, b string
	g.o.Traffic.Parse = rapid.IntRange(0, 9).Draw(t, "parse") > 0
	g.o.Traffic.Embed = rapid.IntRange(0, 2).Draw(t, "embed") == 0
	g.o.Level, g.lv, a = anyLevel(t, "level")
	g.o.Traffic.Level, g.tlv, b = anyLevel(t, "tlevel")
	g.o.Traffic.Message = rapid.SampledFrom([]string{"", "", "traffic", "Gin Traffic", "a|b"}).Draw(t, "message")
	g.o.Traffic.Group = rapid.SampledFrom([]string{"", "", "web", "gin", "x.y"}).Draw(t, "group")
	g.msg, g.grp = g.o.Traffic.Message, g.o.Traffic.Group
	if g.msg == "" {
		g.msg = "Gin Traffic"
	}
	if g.grp == "" {
		g.grp = "gin"
	}
	g.txt = fmt.Sprintf("parse=%v embed=%v level=%s tlevel=%s message=%q group=%q", g.o.Traffic.Parse, g.o.Traffic.Embed, a, b, g.o.Traffic.Message, g.o.Traffic.Group)
	return g
}

// sansNotes leaves out the debug notes about lines that are not traffic.
func sansNotes(rs []slog.Record, msg string) []slog.Record {
	var out []slog.Record
	for _, r := range rs {
		if r.Level == slog.LevelDebug && r.Message != msg && r.NumAttrs() > 0 {
			continue
		}
		out = append(out, r)
	}
	return out
}

func (g ginOpts) check(c *kit.C, who string, recs []slog.Record, tr traffic) {
	c.Helper()
	if len(recs) != 1 {
		c.Fatalf("%s %s: %d records: %s", g.txt, who, len(recs), show(recs))
	}
	r := recs[0]
	if r.Message != g.msg || r.Level != g.tlv() {
		c.Fatalf("%s %s: logged %s, want level %v message %q", g.txt, who, show(recs), g.tlv(), g.msg)
	}
	as := attrsOf(r)
	if !g.o.Traffic.Embed {
		if len(as) != 1 || as[0].Key != g.grp || as[0].Value.Kind() != slog.KindGroup {
			c.Fatalf("%s %s: logged %s, want the single group %q", g.txt, who, show(recs), g.grp)
		}
		as = as[0].Value.Group()
	}
	if got, want := flat(as), tr.want(); !sameMap(got, want) {
		c.Fatalf("%s %s: logged fields %q, want %q", g.txt, who, got, want)
	}
}

func TestG02_Traffic(t *testing.T) {
	kit.Check(t, 12000, 300000, "a traffic line as Gin prints it (code, elapsed, client, method, quoted URL with any characters) behind tags and time prefix, or a line that is not traffic (traffic with trailing text, missing or extra parts, code not a number, plain text), with generated traffic options; non-trivial for parsed traffic, or near-traffic", func(c *kit.C) {
		g := drawOpts(c.T)
		w := ginslog.NewWriter(&g.o)
		for i, l := range []slog.Leveler{g.o.Level, g.o.Traffic.Level} {
			if v, ok := l.(*slog.LevelVar); ok && rapid.Bool().Draw(c.T, fmt.Sprint("change", i)) {
				v.Set(slog.Level(rapid.IntRange(-6, 10).Draw(c.T, fmt.Sprint("changed", i))))
			}
		}
		logged.take()
		tr := drawTraffic(c.T, "tr")
		body, not := tr.line(), false
		switch rapid.IntRange(0, 11).Draw(c.T, "damage") {
		case 0:
			body, not = body+"\nError #01: it broke", true
		case 1:
			body, not = strings.Replace(body, "|", " ", 1), true
			not = strings.Count(body[:strings.Index(body, "\"")], "|") < 3
		case 2:
			body, not = "2XX"+strings.TrimLeft(body, " 0123456789"), true
		case 3:
			body, not = body[:strings.Index(body, "\"")], true
		case 4:
			body, not = "text "+body, true
		case 5:
			body, not = body+" System=gin", true
		case 6:
			body, not = "t"+text(c.T, "plain", true, true), true
		}
		body = strings.TrimRight(body, "\n")
		ln := drawLine(c.T, "line", body, true)
		if ln.tags > 0 || ln.timed {
			body = strings.TrimLeft(body, " ")
		}
		want := g.lv()
		if ln.has {
			want = ln.level
		}
		n, err := w.Write([]byte(ln.text))
		if err != nil || n != len(ln.text) {
			c.Fatalf("%s %q: n=%d of %d, err=%v", g.txt, ln.text, n, len(ln.text), err)
		}
		recs := logged.take()
		c.Class(not, "not traffic")
		c.Case(g.o.Traffic.Parse, "%s %q", g.txt, ln.text)
		if not || !g.o.Traffic.Parse {
			if !g.o.Traffic.Parse && len(recs) != 1 {
				c.Fatalf("%s %q: %d records %s", g.txt, ln.text, len(recs), show(recs))
			}
			recs = sansNotes(recs, body)
			if len(recs) != 1 || recs[0].Message != body || recs[0].Level != want || recs[0].NumAttrs() != 0 {
				c.Fatalf("%s %q: logged %s, want level %v message %q and no fields", g.txt, ln.text, show(recs), want, body)
			}
			return
		}
		g.check(c, ln.text, recs, tr)
	})
}

func TestG02_Server(t *testing.T) {
	kit.Check(t, 3000, 60000, "a request with generated method, path, query, status, client and private errors served by a real Gin engine whose logger writes to the writer; the record must carry what was requested and answered; non-trivial when the path or query needs quoting or there are several parts", func(c *kit.C) {
		g := drawOpts(c.T)
		g.o.Traffic.Parse = true
		var raw bytes.Buffer
		e := gin.New()
		e.Use(gin.LoggerWithConfig(gin.LoggerConfig{Output: io.MultiWriter(&raw, ginslog.NewWriter(&g.o))}))
		code := rapid.SampledFrom([]int{200, 201, 302, 404, 418, 500, 503}).Draw(c.T, "code")
		errText := rapid.SampledFrom([]string{"", "", "", "boom", "a | b", "two\nlines"}).Draw(c.T, "err")
		e.NoRoute(func(x *gin.Context) {
			if errText != "" {
				_ = x.Error(fmt.Errorf("%s", errText))
			}
			x.Status(code)
		})
		tr := traffic{code: code}
		tr.method = rapid.SampledFrom([]string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "PROPFIND", "QUERY"}).Draw(c.T, "method")
		path := "/" + strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b c", "/x", "|", "\"", "\\", "é", "\x00", "\xff", "%", "..", "[x]"}), 0, 6).Draw(c.T, "path"), "")
		query := strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a=1", "&", "tag=x|y", "%20", "é", "\"", "b"}), 0, 4).Draw(c.T, "query"), "")
		if n := kit.Size(c.T, "query", 40, 80, 400, 1500, 6000, 80_000); n > 0 {
			query += kit.Filler(n)
		}
		client := rapid.SampledFrom([]string{"10.1.2.3", "127.0.0.1", "192.168.100.200"}).Draw(c.T, "client")
		req := &http.Request{Method: tr.method, URL: &url.URL{Path: path, RawQuery: query}, Header: http.Header{}, RemoteAddr: client + ":1234", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Body: http.NoBody}
		tr.client, tr.url = client, path
		if query != "" {
			tr.url += "?" + query
		}
		logged.take()
		e.ServeHTTP(httptest.NewRecorder(), req)
		recs := logged.take()
		line := strings.TrimRight(raw.String(), "\n")
		parts := strings.SplitN(line, "|", 5)
		if len(parts) != 5 {
			c.Fatalf("VERIF-HARNESS-ERROR gin wrote %q", line)
		}
		tr.elapsed = strings.TrimSpace(parts[2])
		c.Case(path != "/" || query != "", "%s %s %q?%q -> %d %q", g.txt, tr.method, path, query, code, errText)
		if errText != "" {
			body := strings.TrimLeft(strings.SplitN(line, "|", 2)[1], " ")
			recs = sansNotes(recs, body)
			if len(recs) != 1 || recs[0].Message != body || recs[0].Level != g.lv() || recs[0].NumAttrs() != 0 {
				c.Fatalf("%s %q: logged %s, want the line unchanged", g.txt, line, show(recs))
			}
			return
		}
		g.check(c, line, recs, tr)
	})
}

// concurrently writes the lines one after the other and then from several goroutines.
func concurrently(c *kit.C, w []io.Writer, lines []string, from []int) {
	type done struct {
		n   int
		err string
	}
	write := func(i int) done {
		n, err := w[i%len(w)].Write([]byte(lines[i]))
		return done{n, fmt.Sprint(err)}
	}
	sorted := func(rs []slog.Record) []string {
		var out []string
		for _, r := range rs {
			out = append(out, show([]slog.Record{r}))
		}
		sort.Strings(out)
		return out
	}
	logged.take()
	want := make([]done, len(lines))
	for i := range lines {
		want[i] = write(i)
	}
	wantRecs := sorted(logged.take())
	got := make([]done, len(lines))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		var mine []int
		for i := range lines {
			if from[i] == g {
				mine = append(mine, i)
			}
		}
		if len(mine) == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, i := range mine {
				got[i] = write(i)
			}
		}()
	}
	close(start)
	wg.Wait()
	gotRecs := sorted(logged.take())
	for i := range lines {
		if got[i] != want[i] {
			c.Fatalf("%q gives %v alone and %v among others", lines[i], want[i], got[i])
		}
	}
	if strings.Join(gotRecs, "\n") != strings.Join(wantRecs, "\n") {
		c.Fatalf("%q: written one after the other they are logged as\n%s\nand from several goroutines as\n%s", lines, strings.Join(wantRecs, "\n"), strings.Join(gotRecs, "\n"))
	}
}

func drawFrom(c *kit.C, lines int) (from []int, several bool) {
	for i := 0; i < lines; i++ {
		from = append(from, rapid.IntRange(0, 7).Draw(c.T, "goroutine"))
		several = several || from[i] != from[0]
	}
	return
}

func TestG01_Concurrent(t *testing.T) {
	kit.Check(t, 600, 20000, "2-24 lines of tags, time prefix and text (some with an unknown tag) written to 1-2 writers first one after the other and then from up to 8 goroutines, also under the race detector: results and records must be the same; non-trivial when there are several goroutines", func(c *kit.C) {
		var ws []io.Writer
		for i := rapid.IntRange(1, 2).Draw(c.T, "writers"); i > 0; i-- {
			lvr, _, _ := anyLevel(c.T, fmt.Sprint("w", i))
			ws = append(ws, ginslog.NewWriter(&ginslog.Options{Level: lvr}))
		}
		var lines []string
		for i := rapid.IntRange(2, 24).Draw(c.T, "lines"); i > 0; i-- {
			lines = append(lines, drawLine(c.T, fmt.Sprint("line", i), "", false).text)
		}
		from, several := drawFrom(c, len(lines))
		concurrently(c, ws, lines, from)
		c.Case(several, "%q %v", lines, from)
	})
}

func TestG02_Concurrent(t *testing.T) {
	kit.Check(t, 600, 20000, "2-24 traffic lines (some followed by other text) written to 1-2 writers with generated traffic options first one after the other and then from up to 8 goroutines, also under the race detector: results and records must be the same; non-trivial when there are several goroutines", func(c *kit.C) {
		var ws []io.Writer
		var txt string
		for i := rapid.IntRange(1, 2).Draw(c.T, "writers"); i > 0; i-- {
			g := drawOpts(c.T)
			ws = append(ws, ginslog.NewWriter(&g.o))
			txt += g.txt + "; "
		}
		var lines []string
		for i := rapid.IntRange(2, 24).Draw(c.T, "lines"); i > 0; i-- {
			body := drawTraffic(c.T, fmt.Sprint("tr", i)).line()
			if rapid.IntRange(0, 4).Draw(c.T, "damage") == 0 {
				body += " x"
			}
			lines = append(lines, drawLine(c.T, fmt.Sprint("line", i), body, true).text)
		}
		from, several := drawFrom(c, len(lines))
		concurrently(c, ws, lines, from)
		c.Case(several, "%s %q %v", txt, lines, from)
	})
}

var _ = math.MaxInt
