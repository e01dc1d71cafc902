package xpdf

// A recording engine and helpers for the demonstrations (copied next to every demo).

import (
	"fmt"
	"io"
	"math"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

type mark struct {
	k          string // text, fill, line, image
	pg         int
	x, y, w, h float64
	s          string
	fnt        style.Font
	col        [3]int
	lw         float64
}

// characters are size/6 wide (bold ones a quarter wider), fonts size/3 high
type rec struct {
	pg                           int
	x, y, px, py                 float64
	pw, ph, ml, mt, mr, mb       float64
	fnt                          style.Font
	tc, dc, fc                   [3]int
	lw                           float64
	hdr, ftr                     func()
	marks                        []mark
	path                         []mark
	err, werr                    error
	inH                          bool
}

var _ engine.Engine = &rec{}

func (e *rec) Error() error { return e.err }
func (e *rec) WritePDF(w io.Writer) error {
	if e.ftr != nil && e.pg > 0 {
		e.ftr()
	}
	if e.werr != nil {
		return e.werr
	}
	_, err := w.Write([]byte("pdf"))
	return err
}
func (e *rec) SetPageCountAlias(string) {}
func (e *rec) CurrentPage() int         { return e.pg }
func (e *rec) OnHeader(f func())        { e.hdr = f }
func (e *rec) OnFooter(f func())        { e.ftr = f }
func (e *rec) AddPage() {
	if e.inH {
		panic("page started in header or footer")
	}
	e.inH = true
	fnt, tc, lw, dc, fc := e.fnt, e.tc, e.lw, e.dc, e.fc
	if e.pg > 0 && e.ftr != nil {
		e.ftr()
	}
	e.pg++
	if e.pg > 500 {
		panic("too many pages")
	}
	e.fnt, e.tc, e.lw, e.dc, e.fc = fnt, tc, lw, dc, fc
	e.x, e.y = e.ml, e.mt
	if e.hdr != nil {
		e.hdr()
	}
	e.fnt, e.tc, e.lw, e.dc, e.fc = fnt, tc, lw, dc, fc
	e.inH = false
}
func (e *rec) SetX(x float64) {
	if x < 0 {
		x += e.pw
	}
	e.x = x
}
func (e *rec) SetY(y float64) {
	if y < 0 {
		y += e.ph
	}
	e.y = y
}
func (e *rec) GetXY() (float64, float64) { return e.x, e.y }
func (e *rec) LineFeed(n float64)        { e.x = e.ml; e.y += n * e.FontHeight() }
func (e *rec) ChangeFont(f style.Font)   { e.fnt = f }
func (e *rec) PrintableArea() (float64, float64, float64, float64) {
	return e.ml, e.mt, e.pw - e.mr - 2, e.ph - e.mb
}
func (e *rec) PageWidth() float64  { return e.pw }
func (e *rec) PageHeight() float64 { return e.ph }
func (e *rec) PutImage(src string, x, y, w, h float64) {
	e.marks = append(e.marks, mark{k: "image", pg: e.pg, x: x, y: y, w: w, h: h, s: src})
}
func (e *rec) SetTextColor(r, g, b int) { e.tc = [3]int{r, g, b} }
func (e *rec) FontHeight() float64      { return e.fnt.PointSize / 3 }
func (e *rec) MonoFont() string         { return "Courier" }
func (e *rec) TextWidth(s string) float64 {
	w := e.fnt.PointSize / 6
	if e.fnt.Weight == style.FontWeightBold {
		w *= 1.25
	}
	return w * float64(utf8.RuneCountInString(s))
}
func (e *rec) WriteText(s string) {
	if !e.inH && e.y+e.FontHeight() > e.ph-e.mb {
		x := e.x
		e.AddPage()
		e.x = x
	}
	e.marks = append(e.marks, mark{k: "text", pg: e.pg, x: e.x, y: e.y, w: e.TextWidth(s), h: e.FontHeight(), s: s, fnt: e.fnt, col: e.tc})
	e.x += e.TextWidth(s)
}
func (e *rec) Margins() (float64, float64, float64, float64) { return e.ml, e.mt, e.mr, e.mb }
func (e *rec) SetLineWidth(w float64)                        { e.lw = w }
func (e *rec) SetDrawColor(r, g, b int)                      { e.dc = [3]int{r, g, b} }
func (e *rec) SetFillColor(r, g, b int)                      { e.fc = [3]int{r, g, b} }
func (e *rec) FillRect(x, y, w, h float64) {
	e.marks = append(e.marks, mark{k: "fill", pg: e.pg, x: x, y: y, w: w, h: h, col: e.fc, lw: e.lw})
}
func (e *rec) MoveTo(x, y float64) { e.px, e.py = x, y }
func (e *rec) LineTo(x, y float64) {
	e.path = append(e.path, mark{k: "line", pg: e.pg, x: e.px, y: e.py, w: x, h: y, col: e.dc, lw: e.lw})
	e.px, e.py = x, y
}
func (e *rec) DrawPath() { e.marks = append(e.marks, e.path...); e.path = nil }

func newRec(d *xdoc.Document) *rec {
	m := d.Page.Margins
	return &rec{pw: 210, ph: 297, ml: m.Left, mt: m.Top, mr: m.Right, mb: m.Bottom, lw: 0.2}
}

// xmldoc makes a document with margins of 10 (a text column of 188)
func xmldoc(classes, header, footer, body string) string {
	return `<document><page><orientation>portrait</orientation><format>a4</format><margins><left>10</left><top>10</top><right>10</right><bottom>10</bottom></margins></page>` +
		`<style>` + classes + `</style><header>` + header + `</header><footer>` + footer + `</footer><body>` + body + `</body></document>`
}

func load(t *testing.T, s string) *xdoc.Document {
	t.Helper()
	d, err := xdoc.Load(strings.NewReader(s))
	if err != nil {
		t.Fatalf("load: %v", err)
	}
	return d
}

func runDoc(t *testing.T, d *xdoc.Document, wd string) *rec {
	t.Helper()
	e := newRec(d)
	if err := NewProcessor(e, hyphenation.NewEnUs(), d, wd).Process(io.Discard); err != nil {
		t.Fatalf("process: %v", err)
	}
	return e
}

func render(t *testing.T, classes, header, footer, body string) *rec {
	t.Helper()
	return runDoc(t, load(t, xmldoc(classes, header, footer, body)), "")
}

func (e *rec) of(kind string) []mark {
	out := []mark{}
	for _, m := range e.marks {
		if m.k == kind {
			out = append(out, m)
		}
	}
	return out
}

// find returns the text mark with that (trimmed) text
func (e *rec) find(t *testing.T, s string) mark {
	t.Helper()
	for _, m := range e.of("text") {
		if strings.TrimSpace(m.s) == s {
			return m
		}
	}
	t.Fatalf("no text %q in %s", s, e.dump())
	return mark{}
}

func (e *rec) dump() string {
	b := &strings.Builder{}
	for _, m := range e.marks {
		fmt.Fprintf(b, "\n  %s p%d (%.2f,%.2f) %.2f x %.2f %q", m.k, m.pg, m.x, m.y, m.w, m.h, m.s)
	}
	return b.String()
}

// words of the marks, pieces ending in a hyphen joined
func (e *rec) words() []string {
	out := []string{}
	for _, m := range e.of("text") {
		out = append(out, strings.Fields(m.s)...)
	}
	return out
}

func near(t *testing.T, what string, got, want float64) {
	t.Helper()
	if math.Abs(got-want) > 1e-6 {
		t.Errorf("%s is %v, not %v", what, got, want)
	}
}
