package server

import (
	"net/url"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// TestD02_Server: the whole server on damaged files.
func TestD02_Server(t *testing.T) {
	kit.Check(t, 60, 4000, siteRule+"the files then get one to four damages each (lost, doubled, moved, halved or repeated lines, cut, inserted or changed bytes, truncation) or are replaced by fragments and random bytes; "+
		"the server ends with a setup error or serves every page and chart of the undamaged site, and all that its own pages link to, without failing; non-trivial: it serves at least one handler's page", func(c *kit.C) {
		s := genSite(c)
		damage := func(label, text string) string {
			switch rapid.IntRange(0, 5).Draw(c.T, label) {
			case 0:
				return text
			case 1:
				return string(kit.Rubble(c))
			default:
				return string(kit.Spoil(c, []byte(text)))
			}
		}
		paths := s.paths()
		s.bench, s.verify = damage("bench", s.bench), damage("verify", s.verify)
		c.Logf("%s", s)
		p, out := s.start()
		if p == nil {
			if !strings.Contains(out, "Setup error") || strings.Contains(out, "goroutine ") {
				c.Fatalf("the server ends without reporting a setup error:\n%s", out)
			}
			c.Class(true, "setup error")
			c.Case(false, "%s", s)
			return
		}
		defer p.stop()
		seen, handlers := map[string]bool{}, 0
		for len(paths) > 0 && len(seen) < 400 {
			at := paths[0]
			paths = paths[1:]
			if seen[at] {
				continue
			}
			seen[at] = true
			r, err := get(at)
			kit.Beat()
			if err != nil || r.status >= 500 {
				c.Fatalf("asking for %s gives %v, status %d\n%s", at, err, r.status, p.tail())
			}
			if !strings.HasPrefix(r.kind, "text/html") {
				continue
			}
			doc := parse(c, at, r.body)
			if n := find(doc, "title"); (n == nil || text(n) == "Error") && at != "/go-slog/error.html" {
				c.Fatalf("%s is an error page:\n%s", at, p.tail())
			}
			if !strings.HasSuffix(strings.TrimSpace(r.body), "</html>") {
				c.Fatalf("%s is cut short:\n%s", at, r.body)
			}
			if strings.HasPrefix(at, "/go-slog/handler/") {
				handlers++
			}
			walk(doc, func(n *html.Node) bool {
				for _, key := range []string{"href", "src", "data"} {
					to := attr(n, key)
					if u, err := url.Parse(to); err == nil && u.Host == "" && strings.HasPrefix(to, "/go-slog/") && !strings.HasPrefix(to, "/go-slog/exit") && u.RawQuery == "" && u.Fragment == "" {
						paths = append(paths, u.EscapedPath())
					}
				}
				return true
			})
		}
		c.Case(handlers > 1, "%s", s)
		if !p.running() {
			c.Fatalf("the server ends:\n%s", p.tail())
		}
	})
}
