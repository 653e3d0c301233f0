package server

import (
	"fmt"
	"sort"
	"strings"

	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"golang.org/x/net/html"
)

func parse(c kit.Failer, path, body string) *html.Node {
	n, err := html.Parse(strings.NewReader(body))
	if err != nil {
		c.Fatalf("%s isn't HTML: %v", path, err)
	}
	return n
}

func attr(n *html.Node, name string) string {
	for _, a := range n.Attr {
		if a.Key == name {
			return a.Val
		}
	}
	return ""
}

func hasAttr(n *html.Node, name string) bool {
	for _, a := range n.Attr {
		if a.Key == name {
			return true
		}
	}
	return false
}

func hasClass(n *html.Node, class string) bool {
	for _, f := range strings.Fields(attr(n, "class")) {
		if f == class {
			return true
		}
	}
	return false
}

func walk(n *html.Node, visit func(*html.Node) bool) {
	if n == nil || !visit(n) {
		return
	}
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		walk(k, visit)
	}
}

// sel is "tag", "tag.class" or "tag#id".
func matches(n *html.Node, sel string) bool {
	if n.Type != html.ElementNode {
		return false
	}
	tag, class, ok := strings.Cut(sel, ".")
	if ok {
		return n.Data == tag && hasClass(n, class)
	}
	tag, id, ok := strings.Cut(sel, "#")
	return n.Data == tag && (!ok || attr(n, "id") == id)
}

func findAll(n *html.Node, sel string) (out []*html.Node) {
	walk(n, func(n *html.Node) bool {
		if matches(n, sel) {
			out = append(out, n)
		}
		return true
	})
	return out
}

func find(n *html.Node, sel string) *html.Node {
	if all := findAll(n, sel); len(all) > 0 {
		return all[0]
	}
	return nil
}

// raw is the text inside, as it is.
func raw(n *html.Node) string {
	var b strings.Builder
	walk(n, func(n *html.Node) bool {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
		return true
	})
	return b.String()
}

// text is the text inside with spaces put in order. Elements part words.
func text(n *html.Node) string {
	var b strings.Builder
	walk(n, func(n *html.Node) bool {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		} else if n.Type == html.ElementNode {
			b.WriteByte(' ')
		}
		return true
	})
	return tidy(b.String())
}

func tidy(s string) string { return strings.Join(strings.Fields(s), " ") }

func squash(s string) string { return strings.Join(strings.Fields(s), "") }

// rows of a table, without those of tables inside.
func rows(table *html.Node) (out [][]*html.Node) {
	walk(table, func(n *html.Node) bool {
		if n != table && n.Type == html.ElementNode && n.Data == "table" {
			return false
		}
		if n.Type == html.ElementNode && n.Data == "tr" {
			var row []*html.Node
			for k := n.FirstChild; k != nil; k = k.NextSibling {
				if k.Type == html.ElementNode && (k.Data == "td" || k.Data == "th") {
					row = append(row, k)
				}
			}
			out = append(out, row)
		}
		return true
	})
	return out
}

// cells are the texts of the rows.
func cells(table *html.Node) (out [][]string) {
	for _, r := range rows(table) {
		var row []string
		for _, n := range r {
			row = append(row, text(n))
		}
		out = append(out, row)
	}
	return out
}

// lines shows rows in any order.
func lines(rows [][]string) string {
	var out []string
	for _, r := range rows {
		out = append(out, fmt.Sprintf("%q", r))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}
