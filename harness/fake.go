package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/style"
)

// runaway is the panic value used to stop processing that does not end
type runaway string

type geometry struct {
	W, H                     float64 // page
	Left, Top, Right, Bottom float64 // margins
}

// one word of text, one rectangle, one segment, one image - all lengths in 1/1000 mm
type tmark struct {
	Pg  int    `json:"pg"`
	X   int    `json:"x"`
	Y   int    `json:"y"`
	S   string `json:"s"`
	F   string `json:"f"`
	C   string `json:"c"`
	Sec string `json:"sec"`
	N   int    `json:"n"` // number of rectangles painted before
}
type rmark struct {
	Pg  int    `json:"pg"`
	X   int    `json:"x"`
	Y   int    `json:"y"`
	W   int    `json:"w"`
	H   int    `json:"h"`
	C   string `json:"c"`
	Sec string `json:"sec"`
}
type lmark struct {
	Pg  int    `json:"pg"`
	X0  int    `json:"x0"`
	Y0  int    `json:"y0"`
	X1  int    `json:"x1"`
	Y1  int    `json:"y1"`
	LW  int    `json:"lw"`
	C   string `json:"c"`
	Sec string `json:"sec"`
	N   int    `json:"n"` // number of rectangles painted before
}
type imark struct {
	Pg  int    `json:"pg"`
	X   int    `json:"x"`
	Y   int    `json:"y"`
	W   int    `json:"w"`
	H   int    `json:"h"`
	Src string `json:"src"`
	Sec string `json:"sec"`
}

type marks struct {
	T     []tmark `json:"T"`
	R     []rmark `json:"R"`
	L     []lmark `json:"L"`
	I     []imark `json:"I"`
	Pages int     `json:"pages"`
}

func newMarks() marks {
	return marks{T: []tmark{}, R: []rmark{}, L: []lmark{}, I: []imark{}}
}

func um(v float64) int {
	if math.IsNaN(v) {
		return 1999999999
	}
	v = math.Round(v * 1000)
	if v > 1e9 {
		return 1000000000
	}
	if v < -1e9 {
		return -1000000000
	}
	return int(v)
}

func rgb(r, g, b int) string { return fmt.Sprintf("%02x%02x%02x", r, g, b) }

func fontKey(f style.Font) string {
	return fmt.Sprintf("%s/%g/%s/%s/%s", f.Family, f.PointSize, f.Style, f.Weight, f.Decoration)
}

// fakeEngine is an engine.Engine with exact metrics (every length is a multiple of 1/8 mm as
// long as point sizes are even) and the page semantics of the fpdf engine: a page starts at the
// left/top margin, footer and header callbacks run when a page ends/starts and font and colours
// are restored around them, text that crosses the bottom margin outside of header and footer
// starts a page and keeps its x, negative coordinates count from the right/bottom.
type fakeEngine struct {
	engine.Engine  // methods an engine may get in future: not used
	g              geometry
	pg             int
	x, y           float64
	fnt            style.Font
	tc, dc, fc     string
	lw             float64
	header, footer func()
	sec            string
	depth          int
	alias          string
	m              marks
	penX, penY     float64
	path           []lmark
	calls          int
	maxPages       int
	err            error
	errAt          int // the engine call from which on Error() is non-nil (0: never)
	writeErr       error
	log            func(string)
}

func newFake(g geometry) *fakeEngine {
	return &fakeEngine{g: g, m: newMarks(), sec: "B", maxPages: 3000, tc: "000000", dc: "000000", fc: "000000"}
}

func (e *fakeEngine) call() {
	e.calls++
	if e.calls > 5000000 {
		panic(runaway("engine calls"))
	}
	if e.errAt > 0 && e.calls >= e.errAt {
		e.err = errors.New("injected engine error")
	}
}

func (e *fakeEngine) Error() error { return e.err }

func (e *fakeEngine) WritePDF(w io.Writer) error {
	e.call()
	if e.err != nil {
		return e.err
	}
	if e.pg > 0 {
		e.callback(e.footer, "F")
	}
	e.m.Pages = e.pg
	if e.err != nil {
		return e.err
	}
	if e.writeErr != nil {
		return e.writeErr
	}
	bs := []byte(strings.Repeat("0123456789abcdef", 64))
	for len(bs) > 0 {
		n := 100
		if n > len(bs) {
			n = len(bs)
		}
		if _, err := w.Write(bs[:n]); err != nil {
			return err
		}
		bs = bs[n:]
	}
	return nil
}
func (e *fakeEngine) SetPageCountAlias(alias string) { e.call(); e.alias = alias }
func (e *fakeEngine) CurrentPage() int               { e.call(); return e.pg }
func (e *fakeEngine) OnHeader(f func())              { e.call(); e.header = f }
func (e *fakeEngine) OnFooter(f func())              { e.call(); e.footer = f }

func (e *fakeEngine) callback(f func(), sec string) {
	if f == nil {
		return
	}
	e.depth++
	if e.depth > 60 {
		panic(runaway("header/footer recursion"))
	}
	old := e.sec
	e.sec = sec
	f()
	e.sec = old
	e.depth--
}

func (e *fakeEngine) AddPage() {
	e.call()
	if e.pg >= e.maxPages {
		panic(runaway("pages"))
	}
	fnt, tc, dc, fc, lw := e.fnt, e.tc, e.dc, e.fc, e.lw
	restore := func() { e.fnt, e.tc, e.dc, e.fc, e.lw = fnt, tc, dc, fc, lw }
	if e.pg > 0 {
		e.callback(e.footer, "F")
	}
	e.pg++
	e.x, e.y = e.g.Left, e.g.Top
	restore()
	e.callback(e.header, "H")
	restore()
}
func (e *fakeEngine) setX(x float64) {
	if x < 0 {
		x += e.g.W
	}
	e.x = x
}
func (e *fakeEngine) SetX(x float64) { e.call(); e.setX(x) }
func (e *fakeEngine) SetY(y float64) {
	e.call()
	if y < 0 {
		y += e.g.H
	}
	e.y = y
	e.setX(e.x)
}
func (e *fakeEngine) GetXY() (float64, float64) { e.call(); return e.x, e.y }
func (e *fakeEngine) LineFeed(lines float64) {
	e.call()
	e.x = e.g.Left
	e.y += e.height() * lines
}
func (e *fakeEngine) ChangeFont(fnt style.Font) { e.call(); e.fnt = fnt }
func (e *fakeEngine) PrintableArea() (x0, y0, x1, y1 float64) {
	e.call()
	return e.g.Left, e.g.Top, e.g.W - e.g.Right - 2, e.g.H - e.g.Bottom
}
func (e *fakeEngine) PageWidth() float64  { e.call(); return e.g.W }
func (e *fakeEngine) PageHeight() float64 { e.call(); return e.g.H }
func (e *fakeEngine) PutImage(src string, x, y, width, height float64) {
	e.call()
	e.m.I = append(e.m.I, imark{Pg: e.pg, X: um(x), Y: um(y), W: um(width), H: um(height), Src: src, Sec: e.sec})
}
func (e *fakeEngine) SetTextColor(r, g, b int) { e.call(); e.tc = rgb(r, g, b) }
func (e *fakeEngine) height() float64          { return e.fnt.PointSize * 0.375 }
func (e *fakeEngine) FontHeight() float64      { e.call(); return e.height() }
func (e *fakeEngine) MonoFont() string         { return "Courier" }

func (e *fakeEngine) charWidth() float64 {
	k := 0.25
	if e.fnt.Family == "Courier" {
		k = 0.375
	}
	if e.fnt.Weight == style.FontWeightBold {
		k += 0.125
	}
	return e.fnt.PointSize * k
}
func (e *fakeEngine) width(s string) float64 {
	return e.charWidth() * float64(len([]rune(s)))
}
func (e *fakeEngine) TextWidth(s string) float64 { e.call(); return e.width(s) }
func (e *fakeEngine) WriteText(s string) {
	e.call()
	if s == "" {
		return
	}
	if e.y+e.height() > e.g.H-e.g.Bottom && e.sec == "B" {
		x := e.x
		e.AddPage()
		e.x = x
	}
	splitWords(s, func(i int, word string) {
		e.m.T = append(e.m.T, tmark{Pg: e.pg, X: um(e.x + e.charWidth()*float64(i)), Y: um(e.y), S: word, F: fontKey(e.fnt), C: e.tc, Sec: e.sec, N: len(e.m.R)})
	})
	e.x += e.width(s)
}

// splitWords calls f with the rune index and text of every word
func splitWords(s string, f func(i int, word string)) {
	rs := []rune(s)
	for i := 0; i < len(rs); {
		if rs[i] == ' ' {
			i++
			continue
		}
		j := i
		for j < len(rs) && rs[j] != ' ' {
			j++
		}
		f(i, string(rs[i:j]))
		i = j
	}
}

func (e *fakeEngine) Margins() (left, top, right, bottom float64) {
	e.call()
	return e.g.Left, e.g.Top, e.g.Right, e.g.Bottom
}
func (e *fakeEngine) SetLineWidth(w float64)   { e.call(); e.lw = w }
func (e *fakeEngine) SetDrawColor(r, g, b int) { e.call(); e.dc = rgb(r, g, b) }
func (e *fakeEngine) SetFillColor(r, g, b int) { e.call(); e.fc = rgb(r, g, b) }
func (e *fakeEngine) FillRect(x, y, width, height float64) {
	e.call()
	e.m.R = append(e.m.R, rmark{Pg: e.pg, X: um(x), Y: um(y), W: um(width), H: um(height), C: e.fc, Sec: e.sec})
}

// as in fpdf, drawing moves the current position, too
func (e *fakeEngine) MoveTo(x, y float64) { e.call(); e.penX, e.penY = x, y; e.x, e.y = x, y }
func (e *fakeEngine) LineTo(x, y float64) {
	e.call()
	e.path = append(e.path, mkSeg(e.pg, e.penX, e.penY, x, y))
	e.penX, e.penY = x, y
	e.x, e.y = x, y
}
func (e *fakeEngine) DrawPath() {
	e.call()
	for _, l := range e.path {
		l.LW, l.C, l.Sec, l.N = um(e.lw), e.dc, e.sec, len(e.m.R)
		e.m.L = append(e.m.L, l)
	}
	e.path = nil
}

// mkSeg normalises the direction of a segment
func mkSeg(pg int, x0, y0, x1, y1 float64) lmark {
	if y1 < y0 || (y1 == y0 && x1 < x0) {
		x0, y0, x1, y1 = x1, y1, x0, y0
	}
	return lmark{Pg: pg, X0: um(x0), Y0: um(y0), X1: um(x1), Y1: um(y1)}
}
