package main

import (
	"io"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/style"
)

// gateEngine calls gate before every call of the engine behind it
type gateEngine struct {
	engine.Engine
	gate func()
}

func (g *gateEngine) Error() error                   { g.gate(); return g.Engine.Error() }
func (g *gateEngine) SetPageCountAlias(alias string) { g.gate(); g.Engine.SetPageCountAlias(alias) }
func (g *gateEngine) CurrentPage() int               { g.gate(); return g.Engine.CurrentPage() }
func (g *gateEngine) OnHeader(f func())              { g.gate(); g.Engine.OnHeader(f) }
func (g *gateEngine) OnFooter(f func())              { g.gate(); g.Engine.OnFooter(f) }
func (g *gateEngine) AddPage()                       { g.gate(); g.Engine.AddPage() }
func (g *gateEngine) SetX(x float64)                 { g.gate(); g.Engine.SetX(x) }
func (g *gateEngine) SetY(y float64)                 { g.gate(); g.Engine.SetY(y) }
func (g *gateEngine) GetXY() (float64, float64)      { g.gate(); return g.Engine.GetXY() }
func (g *gateEngine) LineFeed(lines float64)         { g.gate(); g.Engine.LineFeed(lines) }
func (g *gateEngine) ChangeFont(fnt style.Font)      { g.gate(); g.Engine.ChangeFont(fnt) }
func (g *gateEngine) PrintableArea() (float64, float64, float64, float64) {
	g.gate()
	return g.Engine.PrintableArea()
}
func (g *gateEngine) PageWidth() float64  { g.gate(); return g.Engine.PageWidth() }
func (g *gateEngine) PageHeight() float64 { g.gate(); return g.Engine.PageHeight() }
func (g *gateEngine) PutImage(src string, x, y, width, height float64) {
	g.gate()
	g.Engine.PutImage(src, x, y, width, height)
}
func (e *gateEngine) SetTextColor(r, g, b int)   { e.gate(); e.Engine.SetTextColor(r, g, b) }
func (g *gateEngine) FontHeight() float64        { g.gate(); return g.Engine.FontHeight() }
func (g *gateEngine) MonoFont() string           { g.gate(); return g.Engine.MonoFont() }
func (g *gateEngine) TextWidth(s string) float64 { g.gate(); return g.Engine.TextWidth(s) }
func (g *gateEngine) WriteText(s string)         { g.gate(); g.Engine.WriteText(s) }
func (g *gateEngine) Margins() (float64, float64, float64, float64) {
	g.gate()
	return g.Engine.Margins()
}
func (g *gateEngine) SetLineWidth(w float64) { g.gate(); g.Engine.SetLineWidth(w) }
func (gg *gateEngine) SetDrawColor(red, green, blue int) {
	gg.gate()
	gg.Engine.SetDrawColor(red, green, blue)
}
func (gg *gateEngine) SetFillColor(red, green, blue int) {
	gg.gate()
	gg.Engine.SetFillColor(red, green, blue)
}
func (g *gateEngine) FillRect(x, y, width, height float64) {
	g.gate()
	g.Engine.FillRect(x, y, width, height)
}
func (g *gateEngine) MoveTo(x, y float64)        { g.gate(); g.Engine.MoveTo(x, y) }
func (g *gateEngine) LineTo(x, y float64)        { g.gate(); g.Engine.LineTo(x, y) }
func (g *gateEngine) DrawPath()                  { g.gate(); g.Engine.DrawPath() }
func (g *gateEngine) WritePDF(w io.Writer) error { g.gate(); return g.Engine.WritePDF(w) }
