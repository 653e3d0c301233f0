package server

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os/exec"
	"strings"
	"sync"
	"testing"

	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// browser is a program for node that loads the elements and scripts of pages and clicks there.
// It knows as much of the document's interface as scripts may need that show and hide things.
const browser = `
const vm = require('vm')
class Elements extends Array {
  item(i) { return this[i] === undefined ? null : this[i] }
  namedItem(n) { return this.find(e => e.id === n) || null }
}
const camel = s => s.trim().replace(/-([a-z])/g, (_, c) => c.toUpperCase())
function style(text) {
  const s = {}
  const hide = (n, f) => Object.defineProperty(s, n, { value: f, enumerable: false })
  hide('setProperty', (n, v) => { s[camel(n)] = String(v) })
  hide('removeProperty', n => { delete s[camel(n)] })
  hide('getPropertyValue', n => s[camel(n)] || '')
  for (const part of (text || '').split(';')) {
    const i = part.indexOf(':')
    if (i > 0) s[camel(part.slice(0, i))] = part.slice(i + 1).trim()
  }
  return new Proxy(s, { get: (o, k) => k in o ? o[k] : '' })
}
function load(page) {
  const all = []
  const listeners = new Map()
  class Element {
    constructor(d, i) {
      this.tagName = this.nodeName = d.tag.toUpperCase()
      this.attrs = d.attrs
      this.parentElement = this.parentNode = d.parent < 0 ? null : all[d.parent]
      this.style = style(d.attrs.style)
      this.children = new Elements()
      if (this.parentElement) this.parentElement.children.push(this)
      for (const b of ['hidden', 'disabled', 'checked']) this[b] = b in d.attrs
      this.value = d.attrs.value || ''
      this.type = d.attrs.type || ''
      this.id = d.attrs.id || ''
      this.className = d.attrs.class || ''
      this.name = d.attrs.name || ''
      const me = this
      this.classList = {
        contains: c => me.className.split(/\s+/).includes(c),
        add: (...cs) => { for (const c of cs) if (!me.classList.contains(c)) me.className += ' ' + c },
        remove: (...cs) => { me.className = me.className.split(/\s+/).filter(x => !cs.includes(x)).join(' ') },
        toggle: (c, on) => { if (on === undefined) on = !me.classList.contains(c); if (on) me.classList.add(c); else me.classList.remove(c); return on },
      }
    }
    get form() { return this.closest('form') }
    get elements() { const f = {}; for (const e of all) if (e.name && e.form === this) f[e.name] = e; return f }
    getAttribute(n) { return ['hidden', 'disabled', 'checked'].includes(n) ? (this[n] ? '' : null) : n in this.attrs ? this.attrs[n] : null }
    hasAttribute(n) { return this.getAttribute(n) !== null }
    setAttribute(n, v) { if (n === 'style') this.style = style(v); else if (['hidden', 'disabled', 'checked'].includes(n)) this[n] = true; else { this.attrs[n] = String(v); if (n === 'id') this.id = v; if (n === 'class') this.className = v } }
    removeAttribute(n) { if (n === 'style') this.style = style(''); else if (['hidden', 'disabled', 'checked'].includes(n)) this[n] = false; else delete this.attrs[n] }
    toggleAttribute(n, on) { if (on === undefined) on = !this.hasAttribute(n); if (on) this.setAttribute(n, ''); else this.removeAttribute(n); return on }
    matches(sel) {
      return sel.split(',').some(s => {
        const m = s.trim().match(/^([a-zA-Z0-9]*)((?:[.#][^.#\[\]\s>]+)*)((?:\[[^\]]+\])*)$/)
        if (!m) throw new Error('selector ' + s)
        if (m[1] && m[1].toUpperCase() !== this.tagName) return false
        for (const p of m[2].match(/[.#][^.#]+/g) || []) if (p[0] === '.' ? !this.classList.contains(p.slice(1)) : this.id !== p.slice(1)) return false
        for (const p of m[3].match(/\[[^\]]+\]/g) || []) {
          const q = p.match(/^\[([\w-]+)(?:([\^$*]?)=["']?(.*?)["']?)?\]$/)
          const v = q && this.getAttribute(q[1])
          if (!q || v === null || q[3] !== undefined && !(q[2] === '^' ? v.startsWith(q[3]) : q[2] === '$' ? v.endsWith(q[3]) : q[2] === '*' ? v.includes(q[3]) : v === q[3])) return false
        }
        return true
      })
    }
    closest(sel) { for (let e = this; e; e = e.parentElement) if (e.matches(sel)) return e; return null }
    inside(top) { for (let e = this.parentElement; e; e = e.parentElement) if (e === top) return true; return false }
    querySelectorAll(sel) { return Elements.from(all.filter(e => e.inside(this) && e.matches(sel))) }
    querySelector(sel) { return this.querySelectorAll(sel)[0] || null }
    getElementsByClassName(c) { return this.querySelectorAll('.' + c) }
    getElementsByTagName(t) { return this.querySelectorAll(t) }
    addEventListener(k, f) { if (!listeners.has(this)) listeners.set(this, []); listeners.get(this).push([k, f]) }
    removeEventListener() {}
  }
  page.elements.forEach((d, i) => all.push(new Element(d, i)))
  for (const e of all) if (e.tagName === 'FORM') for (const x of all) if (x.name && x.form === e) e[x.name] = x
  let went = ''
  const location = { get href() { return went }, set href(v) { went = String(v) }, assign(v) { went = String(v) }, replace(v) { went = String(v) } }
  const ready = []
  const document = {
    getElementById: id => all.find(e => e.id === String(id)) || null,
    getElementsByClassName: c => Elements.from(all.filter(e => e.classList.contains(c))),
    getElementsByTagName: t => Elements.from(all.filter(e => t === '*' || e.tagName === t.toUpperCase())),
    getElementsByName: n => Elements.from(all.filter(e => e.name === n)),
    querySelectorAll: s => Elements.from(all.filter(e => e.matches(s))),
    querySelector: s => all.find(e => e.matches(s)) || null,
    addEventListener: (k, f) => ready.push(f),
    get body() { return all.find(e => e.tagName === 'BODY') },
    location,
  }
  const world = { document, location, console: { log() {}, error() {}, warn() {}, debug() {}, info() {} }, setTimeout: f => { f() } }
  world.window = world.self = world.globalThis = world
  world.addEventListener = document.addEventListener
  Object.defineProperty(world, 'location', { get: () => location, set: v => { went = String(v) } })
  vm.createContext(world)
  const errors = []
  const attempt = f => { try { return f() } catch (e) { errors.push(String(e)) } }
  for (const s of page.scripts) attempt(() => vm.runInContext(s, world, { timeout: 5000 }))
  for (const f of ready) attempt(() => f({}))
  if (typeof world.onload === 'function') attempt(() => world.onload({}))
  const fire = (e, kind) => {
    const ev = { target: e, currentTarget: e, type: kind, preventDefault() {}, stopPropagation() {} }
    if (typeof e['on' + kind] === 'function') attempt(() => e['on' + kind](ev))
    else if ('on' + kind in e.attrs) attempt(() => vm.runInContext('(function(event){' + e.attrs['on' + kind] + '\n})', world).call(e, ev))
    for (const [k, f] of listeners.get(e) || []) if (k === kind) attempt(() => f.call(e, ev))
  }
  const state = () => ({ went, states: all.map(e => [e.style.display, e.hidden ? 1 : 0, e.disabled ? 1 : 0, e.checked ? 1 : 0].join(' ')) })
  const out = [state()]
  for (const a of page.actions) {
    const e = all[a.element]
    if (!e.disabled) {
      if (a.choose !== undefined) { e.value = a.choose; fire(e, 'change') } else {
        if (e.type === 'checkbox') e.checked = !e.checked
        fire(e, 'click')
        if (e.type === 'checkbox') fire(e, 'change')
      }
    }
    out.push(state())
  }
  return { steps: out, errors }
}
require('readline').createInterface({ input: process.stdin }).on('line', line => {
  let reply
  try { reply = load(JSON.parse(line)) } catch (e) { reply = { failed: String(e.stack) } }
  process.stdout.write(JSON.stringify(reply) + '\n')
})
`

type (
	element struct {
		Tag    string            `json:"tag"`
		Attrs  map[string]string `json:"attrs"`
		Parent int               `json:"parent"`

		blank bool // nothing to see in it
	}
	action struct {
		Element int     `json:"element"`
		Choose  *string `json:"choose,omitempty"`
	}
	visit struct {
		Elements []element `json:"elements"`
		Scripts  []string  `json:"scripts"`
		Actions  []action  `json:"actions"`
	}
	visited struct {
		Steps []struct {
			Went   string   `json:"went"`
			States []string `json:"states"`
		} `json:"steps"`
		Errors []string `json:"errors"`
		Failed string   `json:"failed"`
	}
)

var node struct {
	sync.Once
	in  io.Writer
	out *bufio.Reader
}

func browse(what visit) (got visited) {
	node.Do(func() {
		cmd := exec.Command("node", "-e", browser)
		in, err := cmd.StdinPipe()
		harness(err)
		out, err := cmd.StdoutPipe()
		harness(err)
		harness(cmd.Start())
		node.in, node.out = in, bufio.NewReader(out)
	})
	text, err := json.Marshal(what)
	harness(err)
	_, err = node.in.Write(append(text, '\n'))
	harness(err)
	line, err := node.out.ReadBytes('\n')
	harness(err)
	harness(json.Unmarshal(line, &got))
	if got.Failed != "" {
		harness(fmt.Errorf("browser: %s", got.Failed))
	}
	return got
}

// look is what there is to see of an element.
type look struct{ gone, disabled, checked bool }

func lookOf(c kit.Failer, at string, e element, state string) look {
	f := strings.Split(state, " ")
	if len(f) != 4 {
		harness(fmt.Errorf("state %q", state))
	}
	l := look{gone: f[0] == "none" || f[1] == "1", disabled: f[2] == "1", checked: f[3] == "1"}
	if mode, ok := map[string]string{"tr": "table-row", "td": "table-cell", "th": "table-cell", "table": "table"}[e.Tag]; ok && !l.gone && f[0] != "" && f[0] != mode {
		c.Fatalf("%s: a %s %q is displayed as %s", at, e.Tag, e.Attrs["id"], f[0])
	}
	return l
}

// screen is a page with what its controls are expected to do.
type screen struct {
	v        *viewer
	at       string
	what     visit
	byID     map[string]int
	controls []int
	menus    []int
	want     []look
}

func (s *screen) id(i int) string { return s.what.Elements[i].Attrs["id"] }

// tables are the choices of a group of tables, images too.
func (s *screen) group(button, table string) (buttons, tables []int) {
	for i, e := range s.what.Elements {
		if rest, ok := strings.CutPrefix(e.Attrs["id"], button); ok && e.Tag == "button" && !strings.Contains(rest, "-") {
			if t, ok := s.byID[table+rest]; ok {
				buttons, tables = append(buttons, i), append(tables, t)
			}
		}
	}
	return
}

func (s *screen) choose(button, table, chosen string) {
	buttons, tables := s.group(button, table)
	for i, b := range buttons {
		mine := s.id(b) == button+chosen
		s.want[b].disabled, s.want[tables[i]].gone = mine, !mine
	}
}

func (s *screen) box(i int) {
	rest := strings.TrimPrefix(s.id(i), "score-checkbox-")
	class := "axis-data-" + rest
	if strings.Contains(rest, "-") {
		class = "score-column-" + rest
	}
	for j, e := range s.what.Elements {
		for _, c := range strings.Fields(e.Attrs["class"]) {
			if c == class {
				if mine, its := s.table(i), s.table(j); strings.Contains(rest, "-") && mine != its {
					s.v.c.Fatalf("%s: box %s shows a cell of class %q in the table %q, the box is in %q", s.at, s.id(i), class, s.id(its), s.id(mine))
				}
				s.want[j].gone = !s.want[i].checked
			}
		}
	}
}

// table finds the table around an element.
func (s *screen) table(i int) int {
	for i >= 0 && s.what.Elements[i].Tag != "table" {
		i = s.what.Elements[i].Parent
	}
	return i
}

// hidden tells about an element that nothing shows. Of some tables and pictures there is always one to see.
func (s *screen) hidden(i int) bool {
	id := s.id(i)
	if e := s.what.Elements[i]; e.Tag == "tr" && e.blank {
		return false // as of instances without a log
	}
	return s.want[i].gone && s.what.Elements[i].Tag != "option" && !strings.HasPrefix(id, "score-table-") && !strings.HasPrefix(id, "warn-table-") && !strings.HasPrefix(id, "score-chart-image-")
}

// shows tells whether clicking an element now shows something.
func (s *screen) shows(i int) bool {
	if s.what.Elements[i].Attrs["type"] == "checkbox" {
		return !s.want[i].checked
	}
	if s.id(i) != "" {
		return false
	}
	_, args, ok := call(s.what.Elements[i].Attrs["onclick"])
	return ok && len(args) > 0 && s.want[s.byID[args[0]]].gone
}

// splitID takes the last part off an identifier.
func splitID(id string) (string, string) {
	i := strings.LastIndex(id, "-") + 1
	return id[:i], id[i:]
}

// clicked changes what is expected.
func (s *screen) clicked(i int) {
	id := s.id(i)
	if s.want[i].disabled {
		return
	}
	if s.what.Elements[i].Attrs["type"] == "checkbox" {
		s.want[i].checked = !s.want[i].checked
	}
	front, last := splitID(id)
	switch {
	case strings.HasPrefix(id, "score-chart-button-"):
		s.choose(front, "score-chart-image-", last)
	case strings.HasPrefix(id, "score-button-"):
		s.choose(front, "score-table-"+strings.TrimPrefix(front, "score-button-"), last)
	case strings.HasPrefix(id, "warn-button-"):
		s.choose(front, "warn-table-"+strings.TrimPrefix(front, "warn-button-"), last)
	case strings.HasPrefix(id, "score-checkbox-"):
		s.box(i)
	case id == "chart-checkbox":
		s.want[s.byID["chart"]].gone = !s.want[i].checked
	default:
		_, args, ok := call(s.what.Elements[i].Attrs["onclick"])
		if !ok || len(args) == 0 {
			return
		}
		if t, ok := s.byID[args[0]]; ok {
			s.want[t].gone = !s.want[t].gone
		}
	}
}

func (v *viewer) screen(at string) *screen {
	s := &screen{v: v, at: at, byID: map[string]int{}, what: visit{Scripts: []string{}, Actions: []action{}}}
	body := v.p.fetch(v.c, at)
	var add func(n *html.Node, parent int)
	add = func(n *html.Node, parent int) {
		if n.Type == html.ElementNode {
			e := element{Tag: n.Data, Attrs: map[string]string{}, Parent: parent, blank: strings.TrimSpace(text(n)) == ""}
			for _, a := range n.Attr {
				e.Attrs[a.Key] = a.Val
			}
			parent = len(s.what.Elements)
			if id := e.Attrs["id"]; id != "" {
				if _, found := s.byID[id]; !found {
					s.byID[id] = parent
				}
			}
			if n.Data == "select" {
				s.menus = append(s.menus, parent)
			} else if e.Attrs["onclick"] != "" {
				s.controls = append(s.controls, parent)
			}
			s.what.Elements = append(s.what.Elements, e)
			display := ""
			for _, d := range strings.Split(e.Attrs["style"], ";") {
				if k, val, ok := strings.Cut(d, ":"); ok && strings.TrimSpace(k) == "display" {
					display = strings.TrimSpace(val)
				}
			}
			s.want = append(s.want, look{display == "none" || hasAttr(n, "hidden"), hasAttr(n, "disabled"), hasAttr(n, "checked")})
			if n.Data == "script" {
				if src := e.Attrs["src"]; src != "" {
					s.what.Scripts = append(s.what.Scripts, v.p.fetch(v.c, src))
				} else {
					s.what.Scripts = append(s.what.Scripts, raw(n))
				}
			}
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			add(k, parent)
		}
	}
	add(parse(v.c, at, body), -1)
	// What the page starts with.
	for _, i := range s.controls {
		id := s.id(i)
		front, last := splitID(id)
		switch {
		case id == "chart-checkbox":
			s.want[s.byID["chart"]].gone = !s.want[i].checked
		case strings.HasPrefix(id, "score-checkbox-"):
			s.box(i)
		case strings.HasPrefix(id, "score-button-") && last == "details":
			s.choose(front, "score-table-"+strings.TrimPrefix(front, "score-button-"), last)
		case strings.HasPrefix(id, "warn-button-") && last == "details":
			s.choose(front, "warn-table-"+strings.TrimPrefix(front, "warn-button-"), last)
		}
	}
	return s
}

// use does things at random and compares what is seen afterwards.
func (s *screen) use(c *kit.C, size int) {
	if _, found := s.byID["score-chart-button-0"]; found {
		s.choose("score-chart-button-", "score-chart-image-", fmt.Sprint(size))
	}
	all := rapid.IntRange(0, 2).Draw(c.T, "show all") == 0
	if all {
		s.what.Actions = append(s.what.Actions, s.everything()...)
	}
	for n := rapid.IntRange(1, 10).Draw(c.T, "actions"); n > 0 && !all; n-- {
		if len(s.controls) > 0 && rapid.IntRange(0, 4).Draw(c.T, "what") > 0 {
			s.what.Actions = append(s.what.Actions, action{Element: rapid.SampledFrom(s.controls).Draw(c.T, "control")})
			continue
		}
		m := rapid.SampledFrom(s.menus).Draw(c.T, "menu")
		var values []string
		for _, e := range s.what.Elements {
			if _, disabled := e.Attrs["disabled"]; e.Tag == "option" && e.Parent == m && !disabled {
				values = append(values, e.Attrs["value"])
			}
		}
		if len(values) > 0 {
			s.what.Actions = append(s.what.Actions, action{m, &values[rapid.IntRange(0, len(values)-1).Draw(c.T, "choice")]})
		}
	}
	got := browse(s.what)
	if len(got.Steps) != len(s.what.Actions)+1 {
		harness(fmt.Errorf("%d steps", len(got.Steps)))
	}
	history := "loading"
	for n, step := range got.Steps {
		if n > 0 {
			a := s.what.Actions[n-1]
			if a.Choose != nil {
				history += fmt.Sprintf(", choosing %q", *a.Choose)
				s.went(history, a, step.Went)
				continue
			}
			history += fmt.Sprintf(", clicking %s (%s)", s.id(a.Element), s.what.Elements[a.Element].Attrs["onclick"])
			s.clicked(a.Element)
		}
		for i, e := range s.what.Elements {
			if l := lookOf(c, s.at, e, step.States[i]); l != s.want[i] {
				c.Fatalf("%s: after %s: %s %q of class %q is %+v, expected %+v (script errors: %q)", s.at, history, e.Tag, e.Attrs["id"], e.Attrs["class"], l, s.want[i], got.Errors)
			}
		}
	}
}

// everything are the actions that show all there is, which is checked here.
func (s *screen) everything() (actions []action) {
	start := append([]look(nil), s.want...)
	for _, i := range s.controls {
		if s.shows(i) {
			actions = append(actions, action{Element: i})
			s.clicked(i)
		}
	}
	for i, e := range s.what.Elements {
		if s.hidden(i) {
			s.v.c.Fatalf("%s: nothing shows %s %q of class %q", s.at, e.Tag, e.Attrs["id"], e.Attrs["class"])
		}
	}
	s.want = start
	return actions
}

// went checks where a menu leads.
func (s *screen) went(history string, a action, went string) {
	to := map[int]string{0: "/go-slog/handler/%s.html", 1: "/go-slog/test/%s.html", 2: "/go-slog/test/%s.html", 3: "/go-slog/scores/%s/summary.html", 4: "/go-slog/%s"}
	for i, m := range s.menus {
		if m == a.Element {
			want := fmt.Sprintf(to[i], *a.Choose)
			if plain, err := url.PathUnescape(went); went != want && (err != nil || plain != want) {
				s.v.c.Fatalf("%s: after %s: menu %d leads to %q, expected %q", s.at, history, i, went, want)
			}
		}
	}
}

func TestP01_Scripts(t *testing.T) {
	kit.Check(t, 100, 2000, siteRule+"the scripts of several pages run in a model of a browser while buttons, boxes and menus are used at random, and after each action everything on the page is shown or hidden as "+
		"expected, the first chart is the expected one and menus lead to their pages; non-trivial: two handlers with results and a warning", func(c *kit.C) {
		view(c, genSite(c), func(v *viewer) {
			type place struct {
				at   string
				size int
			}
			places := []place{{"/go-slog/index.html", 0}, {"/go-slog/warnings.html", 0}, {"/go-slog/guts.html", 0}}
			for _, h := range v.s.handlers {
				if !h.stray && (len(h.results) > 0 || len(h.reported) > 0) {
					places = append(places, place{"/go-slog/handler/" + escape(h.tag) + ".html", 0})
				}
			}
			for _, tag := range append(v.s.benchTests(), v.s.warned("Verify")...) {
				places = append(places, place{"/go-slog/test/" + escape(tag) + ".html", 0})
			}
			for _, k := range score.Keepers() {
				places = append(places, place{"/go-slog/scores/" + escape(string(k)) + "/summary.html", smallest(score.GetKeeper(k))})
			}
			for n := rapid.IntRange(1, 6).Draw(c.T, "pages"); n > 0; n-- {
				p := rapid.SampledFrom(places).Draw(c.T, "page")
				v.screen(p.at).use(c, p.size)
			}
		})
	})
}
