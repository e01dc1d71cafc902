package main

import (
	"bytes"
	"compress/zlib"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf16"
)

// A small PDF reader: enough to turn the pages written by the fpdf engine back into marks.

const ptPerMm = 72.0 / 25.4
const cellMargin = 28.35 / ptPerMm / 10

type pdfDoc struct {
	objs  map[int][]byte // raw object bodies
	fonts map[string]string
	utf8  map[string]bool
	glyph map[string][]byte // embedded fonts: character to glyph
	imgs  map[string]string
	pages []pdfPage
}

type pdfPage struct {
	W, H float64
	ops  []byte
}

var reDictNum = regexp.MustCompile(`/(\w+) (\d+)`)

func dictInt(b []byte, key string) (int, bool) {
	m := regexp.MustCompile(`/` + key + `\s+(\d+)`).FindSubmatch(b)
	if m == nil {
		return 0, false
	}
	n, err := strconv.Atoi(string(m[1]))
	return n, err == nil
}

func mediaBox(b []byte) (w, h float64, ok bool) {
	m := regexp.MustCompile(`/MediaBox\s*\[\s*0 0 ([\d.]+) ([\d.]+)\s*\]`).FindSubmatch(b)
	if m == nil {
		return 0, 0, false
	}
	w, _ = strconv.ParseFloat(string(m[1]), 64)
	h, _ = strconv.ParseFloat(string(m[2]), 64)
	return w, h, true
}

// parsePDF checks the file structure (header, cross reference, every object, trailer) and reads the pages.
func parsePDF(b []byte) (*pdfDoc, error) {
	if !bytes.HasPrefix(b, []byte("%PDF-")) {
		return nil, fmt.Errorf("no pdf header")
	}
	if !bytes.HasSuffix(bytes.TrimRight(b, "\r\n"), []byte("%%EOF")) {
		return nil, fmt.Errorf("no pdf end")
	}
	i := bytes.LastIndex(b, []byte("startxref"))
	if i < 0 {
		return nil, fmt.Errorf("no startxref")
	}
	var xoff int
	if _, err := fmt.Sscanf(string(b[i:]), "startxref\n%d", &xoff); err != nil {
		return nil, fmt.Errorf("startxref: %v", err)
	}
	if xoff <= 0 || xoff >= len(b) || !bytes.HasPrefix(b[xoff:], []byte("xref\n0 ")) {
		return nil, fmt.Errorf("xref not found")
	}
	lines := strings.Split(string(b[xoff:i]), "\n")
	var n int
	if _, err := fmt.Sscanf(lines[1], "0 %d", &n); err != nil || n < 2 || len(lines) < n+2 {
		return nil, fmt.Errorf("bad xref")
	}
	d := &pdfDoc{objs: map[int][]byte{}, fonts: map[string]string{}, utf8: map[string]bool{}, glyph: map[string][]byte{}, imgs: map[string]string{}}
	for k := 1; k < n; k++ {
		var off int
		if _, err := fmt.Sscanf(lines[k+2], "%d 00000 n", &off); err != nil {
			return nil, fmt.Errorf("bad xref entry %d", k)
		}
		head := fmt.Sprintf("%d 0 obj", k)
		if off >= len(b) || !bytes.HasPrefix(b[off:], []byte(head)) {
			return nil, fmt.Errorf("object %d not at its offset", k)
		}
		body := b[off+len(head):]
		// streams are skipped by their length
		endDict := bytes.Index(body, []byte("endobj"))
		if s := bytes.Index(body, []byte("stream\n")); s >= 0 && s < endDict {
			l, ok := dictInt(body[:s], "Length")
			if !ok || s+7+l > len(body) {
				return nil, fmt.Errorf("object %d: bad stream", k)
			}
			if !bytes.HasPrefix(bytes.TrimLeft(body[s+7+l:], "\r\n"), []byte("endstream")) {
				return nil, fmt.Errorf("object %d: stream length", k)
			}
			d.objs[k] = body[:s+7+l]
		} else if endDict >= 0 {
			d.objs[k] = body[:endDict]
		} else {
			return nil, fmt.Errorf("object %d: no end", k)
		}
	}
	// fonts and images by resource name
	for _, o := range d.objs {
		if j := bytes.Index(o, []byte("/ProcSet")); j >= 0 {
			for _, m := range regexp.MustCompile(`/(F[0-9a-zA-Z]+) (\d+) 0 R`).FindAllSubmatch(o, -1) {
				k, _ := strconv.Atoi(string(m[2]))
				fo := d.objs[k]
				if bf := regexp.MustCompile(`/BaseFont\s*/(\S+)`).FindSubmatch(fo); bf != nil {
					d.fonts[string(m[1])] = string(bf[1])
				}
				if bytes.Contains(fo, []byte("/Type0")) {
					d.utf8[string(m[1])] = true
					d.fonts[string(m[1])] += "=" + d.face(fo)
					g, err := d.stream(d.follow(d.follow(fo, "DescendantFonts"), "CIDToGIDMap"))
					if err != nil || len(g) < 1<<17 {
						return nil, fmt.Errorf("font without glyphs: %v", err)
					}
					d.glyph[string(m[1])] = g
				}
			}
			for _, m := range regexp.MustCompile(`/(I[0-9a-zA-Z]+) (\d+) 0 R`).FindAllSubmatch(o, -1) {
				k, _ := strconv.Atoi(string(m[2]))
				w, _ := dictInt(d.objs[k], "Width")
				h, _ := dictInt(d.objs[k], "Height")
				d.imgs[string(m[1])] = fmt.Sprintf("%dx%d", w, h)
			}
		}
	}
	root := d.objs[1]
	dw, dh, _ := mediaBox(root)
	kids := regexp.MustCompile(`/Kids\s*\[([^\]]*)\]`).FindSubmatch(root)
	if kids == nil {
		return nil, fmt.Errorf("no kids")
	}
	for _, m := range regexp.MustCompile(`(\d+) 0 R`).FindAllSubmatch(kids[1], -1) {
		k, _ := strconv.Atoi(string(m[1]))
		po := d.objs[k]
		pg := pdfPage{W: dw, H: dh}
		if w, h, ok := mediaBox(po); ok {
			pg.W, pg.H = w, h
		}
		cm := regexp.MustCompile(`/Contents (\d+) 0 R`).FindSubmatch(po)
		if cm == nil {
			return nil, fmt.Errorf("page without contents")
		}
		ck, _ := strconv.Atoi(string(cm[1]))
		co := d.objs[ck]
		data, err := d.stream(co)
		if err != nil {
			return nil, err
		}
		pg.ops = data
		d.pages = append(d.pages, pg)
	}
	if c, ok := dictInt(root, "Count"); !ok || c != len(d.pages) {
		return nil, fmt.Errorf("page count")
	}
	return d, nil
}

func (d *pdfDoc) stream(o []byte) ([]byte, error) {
	s := bytes.Index(o, []byte("stream\n"))
	if s < 0 {
		return nil, fmt.Errorf("no stream")
	}
	if !bytes.Contains(o[:s], []byte("FlateDecode")) {
		return o[s+7:], nil
	}
	zr, err := zlib.NewReader(bytes.NewReader(o[s+7:]))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(zr)
}

// blank tells if the glyph of a character is not in the embedded font
func (d *pdfDoc) blank(font, s string) bool {
	g := d.glyph[font]
	for _, r := range s {
		if r > 32 && r < 0x10000 && g != nil && g[2*r] == 0 && g[2*r+1] == 0 {
			return true
		}
	}
	return false
}

type gstate struct {
	fill, stroke string
	lw           float64
	font         string
	size         float64
	cm           [6]float64
}

func gray(v float64) string { return comps(v, v, v) }
func comps(r, g, b float64) string {
	c := func(v float64) int { return int(math.Round(v * 255)) }
	return rgb(c(r), c(g), c(b))
}

// contentMarks interprets the content streams. Text is reported with the position the engine
// was asked to write it at (the fpdf cell margin and baseline shift taken off again).
func (d *pdfDoc) contentMarks() (marks, error) {
	m := newMarks()
	m.Pages = len(d.pages)
	for pi, pg := range d.pages {
		toks, err := lex(pg.ops)
		if err != nil {
			return m, fmt.Errorf("page %d: %v", pi+1, err)
		}
		gs := gstate{fill: "000000", stroke: "000000", cm: [6]float64{1, 0, 0, 1, 0, 0}}
		var stack []gstate
		var args []token
		num := func(i int) float64 {
			if i < len(args) {
				return args[i].num
			}
			return math.NaN()
		}
		var tx, ty float64
		var pen [2]float64
		var path []lmark
		var rect *rmark
		afterText := -1 // index of the text an underline directly following belongs to
		mm := func(v float64) float64 { return v / ptPerMm }
		for ti, t := range toks {
			if t.kind != 'o' {
				args = append(args, t)
				continue
			}
			switch t.str {
			case "q":
				stack = append(stack, gs)
			case "Q":
				if len(stack) == 0 {
					return m, fmt.Errorf("page %d: Q without q", pi+1)
				}
				gs = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			case "g":
				gs.fill = gray(num(0))
			case "G":
				gs.stroke = gray(num(0))
			case "rg":
				gs.fill = comps(num(0), num(1), num(2))
			case "RG":
				gs.stroke = comps(num(0), num(1), num(2))
			case "w":
				gs.lw = num(0)
			case "J", "j", "d", "Tw", "BT", "ET":
			case "cm":
				for k := 0; k < 6; k++ {
					gs.cm[k] = num(k)
				}
			case "Tf":
				gs.font, gs.size = strings.TrimPrefix(args[0].str, "/"), num(1)
			case "Td":
				tx, ty = num(0), num(1)
			case "Tj":
				s := args[0].str
				name := d.fonts[gs.font]
				if d.utf8[gs.font] {
					s = utf16String(s)
				}
				fs := mm(gs.size)
				y := mm(pg.H-ty) - 0.8*fs
				x := mm(tx) - cellMargin
				fk := fmt.Sprintf("%s/%g", name, gs.size)
				if d.blank(gs.font, s) {
					fk += "/blank"
				}
				afterText = len(m.T)
				// words of one string: their positions need the metrics of the standard fonts
				rs := []rune(s)
				splitWords(s, func(i int, w string) {
					wx := x + stdWidth(name, string(rs[:i]))*fs
					m.T = append(m.T, tmark{Pg: pi + 1, X: um(wx), Y: um(y), S: w, F: fk, C: gs.fill, N: len(m.R)})
				})
			case "re":
				x, y, w, h := num(0), num(1), num(2), num(3)
				rect = &rmark{Pg: pi + 1, X: um(mm(x)), Y: um(mm(pg.H - y)), W: um(mm(w)), H: um(mm(-h)), C: gs.fill}
			case "f":
				if rect != nil {
					// "... Tj ET x y w h re f" is the underline of that text
					if ti >= 6 && toks[ti-6].kind == 'o' && toks[ti-6].str == "ET" && afterText >= 0 && len(m.T) > afterText && ti >= 7 && toks[ti-7].str == "Tj" {
						for k := afterText; k < len(m.T); k++ {
							m.T[k].F += "/U"
						}
					} else {
						m.R = append(m.R, *rect)
					}
					rect = nil
				}
			case "m":
				pen = [2]float64{num(0), num(1)}
			case "l":
				l := mkSeg(pi+1, mm(pen[0]), mm(pg.H-pen[1]), mm(num(0)), mm(pg.H-num(1)))
				path = append(path, l)
				pen = [2]float64{num(0), num(1)}
			case "S":
				for _, l := range path {
					l.LW, l.C, l.N = um(mm(gs.lw)), gs.stroke, len(m.R)
					m.L = append(m.L, l)
				}
				path = nil
			case "Do":
				c := gs.cm
				m.I = append(m.I, imark{Pg: pi + 1, X: um(mm(c[4])), Y: um(mm(pg.H - c[5] - c[3])), W: um(mm(c[0])), H: um(mm(c[3])), Src: d.imgs[strings.TrimPrefix(args[0].str, "/")]})
			default:
				return m, fmt.Errorf("page %d: operator %q", pi+1, t.str)
			}
			args = nil
		}
	}
	return m, nil
}

//go:embed metrics.json
var metricsJSON []byte

var metrics map[string][]float64

func (d *pdfDoc) follow(o []byte, key string) []byte {
	m := regexp.MustCompile("/" + key + ` ?\[?(\d+) 0 R`).FindSubmatch(o)
	if m == nil {
		return nil
	}
	k, _ := strconv.Atoi(string(m[1]))
	return d.objs[k]
}

// face tells which variant the embedded font of a composite font is by its descriptor
func (d *pdfDoc) face(fo []byte) string {
	desc := d.follow(d.follow(fo, "DescendantFonts"), "FontDescriptor")
	fl, ok := dictInt(desc, "Flags")
	if !ok {
		return "?"
	}
	s := ""
	if fl&(1<<18) != 0 {
		s += "B"
	}
	if m := regexp.MustCompile(`/ItalicAngle (-?\d+)`).FindSubmatch(desc); m == nil {
		return "?"
	} else if string(m[1]) != "0" {
		s += "I"
	}
	return s
}

// stdWidth is the width in em of a string in a standard font or a font of the checks
func stdWidth(name, s string) (w float64) {
	for _, r := range s {
		if ws := metrics[name]; r >= 32 && r < 127 && ws != nil {
			w += ws[r-32] / 1000
		} else if ws == nil { // the embedded fonts of the checks are fixed pitch
			w += 0.602
		}
	}
	return w
}

func init() {
	if err := json.Unmarshal(metricsJSON, &metrics); err != nil {
		panic(err)
	}
}

func utf16String(s string) string {
	u := []uint16{}
	for i := 0; i+1 < len(s); i += 2 {
		u = append(u, uint16(s[i])<<8|uint16(s[i+1]))
	}
	return string(utf16.Decode(u))
}

type token struct {
	kind byte // n(umber) s(tring) N(ame) a(rray delimiter) o(perator)
	str  string
	num  float64
}

func lex(b []byte) ([]token, error) {
	var ts []token
	for i := 0; i < len(b); {
		c := b[i]
		switch {
		case c == ' ' || c == '\n' || c == '\r' || c == '\t':
			i++
		case c == '(':
			var s []byte
			i++
			depth := 1
			for ; i < len(b); i++ {
				if b[i] == '\\' {
					i++
					if i >= len(b) {
						break
					}
					switch b[i] {
					case 'n':
						s = append(s, '\n')
					case 'r':
						s = append(s, '\r')
					case 't':
						s = append(s, '\t')
					default:
						s = append(s, b[i])
					}
					continue
				}
				if b[i] == '(' {
					depth++
				}
				if b[i] == ')' {
					depth--
					if depth == 0 {
						break
					}
				}
				s = append(s, b[i])
			}
			if depth != 0 {
				return nil, fmt.Errorf("unterminated string")
			}
			i++
			ts = append(ts, token{kind: 's', str: string(s)})
		case c == '[' || c == ']':
			ts = append(ts, token{kind: 'a', str: string(c)})
			i++
		case c == '/':
			j := i + 1
			for j < len(b) && !bytes.ContainsRune([]byte(" \n\r\t()[]/"), rune(b[j])) {
				j++
			}
			ts = append(ts, token{kind: 'N', str: string(b[i:j])})
			i = j
		default:
			j := i
			for j < len(b) && !bytes.ContainsRune([]byte(" \n\r\t()[]/"), rune(b[j])) {
				j++
			}
			w := string(b[i:j])
			if f, err := strconv.ParseFloat(w, 64); err == nil {
				ts = append(ts, token{kind: 'n', num: f})
			} else {
				ts = append(ts, token{kind: 'o', str: w})
			}
			i = j
		}
	}
	return ts, nil
}
