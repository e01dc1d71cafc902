package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"
)

func init() { modes["run"] = runMode }

type runCase struct {
	ID     json.RawMessage `json:"id"`
	XML    string          `json:"xml"`
	Engine string          `json:"engine"` // fake | pdf
	Geo    *geometry       `json:"geo"`
	WD     string          `json:"wd"`
	Hyph   string          `json:"hyph"` // "", "en", "latin" or patterns
	Fonts  string          `json:"fonts"`
	ErrAt  int             `json:"errAt"`
	WFail  int             `json:"wfail"` // the writer fails after that many bytes (0: never)
	PFail  bool            `json:"pfail"` // the engine fails to write the pdf

	wrap func(engine.Engine) engine.Engine // around the engine
}

func (c runCase) wrapped(e engine.Engine) engine.Engine {
	if c.wrap == nil {
		return e
	}
	return c.wrap(e)
}

type runObs struct {
	ID    json.RawMessage `json:"id"`
	Fault string          `json:"fault"`
	Load  string          `json:"load"` // load error
	Err   string          `json:"err"`  // error of engine creation or processing
	Stage string          `json:"stage"`
	Bytes int             `json:"bytes"`
	Calls int             `json:"calls"`
	Hash  string          `json:"hash"`
	Sizes [][2]int        `json:"sizes"`
	marks
}

func hyphenator(spec string) (*hyphenation.Hyphenator, error) {
	switch spec {
	case "", "en":
		return hyphenation.NewEnUs(), nil
	case "latin":
		return hyphenation.NewLatin(), nil
	default:
		return hyphenation.Load(strings.NewReader(spec))
	}
}

var hyphMu sync.Mutex
var hyphCache = map[string]*hyphenation.Hyphenator{}

func cachedHyphenator(spec string) (*hyphenation.Hyphenator, error) {
	hyphMu.Lock()
	defer hyphMu.Unlock()
	if h, ok := hyphCache[spec]; ok {
		return h, nil
	}
	h, err := hyphenator(spec)
	if err == nil {
		hyphCache[spec] = h
	}
	return h, err
}

type failWriter struct {
	buf   bytes.Buffer
	limit int
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.limit > 0 && w.buf.Len()+len(p) >= w.limit {
		n := w.limit - w.buf.Len()
		w.buf.Write(p[:n])
		return n, fmt.Errorf("injected write error")
	}
	return w.buf.Write(p)
}

// limFPDF stops the fpdf engine if it starts too many pages or recurses into its callbacks
type limFPDF struct {
	*engine.FPDF
	pages, depth int
}

func (l *limFPDF) OnHeader(f func()) {
	l.FPDF.OnHeader(func() {
		l.pages++
		l.depth++
		if l.pages > 3000 {
			panic(runaway("pages"))
		}
		if l.depth > 60 {
			panic(runaway("header recursion"))
		}
		f()
		l.depth--
	})
}

func (l *limFPDF) OnFooter(f func()) {
	l.FPDF.OnFooter(func() {
		l.depth++
		if l.depth > 60 {
			panic(runaway("footer recursion"))
		}
		f()
		l.depth--
	})
}

func runMode(raw json.RawMessage) (interface{}, error) {
	var c runCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	return runOne(c)
}

func emptyObs(c runCase) runObs {
	return runObs{ID: c.ID, marks: newMarks(), Sizes: [][2]int{}}
}

func runOne(c runCase) (runObs, error) {
	obs := emptyObs(c)
	doc, err := xdoc.Load(strings.NewReader(c.XML))
	if err != nil {
		obs.Load = err.Error()
		obs.Stage = "load"
		return obs, nil
	}
	return processDoc(c, doc)
}

func processDoc(c runCase, doc *xdoc.Document) (runObs, error) {
	obs := emptyObs(c)
	hyp, err := cachedHyphenator(c.Hyph)
	if err != nil {
		return obs, err
	}
	w := &failWriter{limit: c.WFail}
	switch c.Engine {
	case "fake":
		if c.Geo == nil {
			return obs, fmt.Errorf("no geometry")
		}
		e := newFake(*c.Geo)
		e.errAt = c.ErrAt
		if c.PFail {
			e.writeErr = fmt.Errorf("injected pdf error")
		}
		p := xpdf.NewProcessor(c.wrapped(e), hyp, doc, c.WD)
		err = p.Process(w)
		obs.Stage = "process"
		if err != nil {
			obs.Err = err.Error()
		}
		obs.marks = e.m
		obs.Calls = e.calls
		obs.Pages = e.pg
	case "pdf":
		fonts := font.NewRegistry()
		if c.Fonts != "" {
			fonts, err = font.LoadRegistryFromFile(c.Fonts)
			if err != nil {
				obs.Stage, obs.Err = "fonts", err.Error()
				return obs, nil
			}
		}
		e, err := engine.NewFPDF(fonts, doc)
		if err != nil {
			obs.Stage, obs.Err = "engine", err.Error()
			return obs, nil
		}
		p := xpdf.NewProcessor(c.wrapped(&limFPDF{FPDF: e}), hyp, doc, c.WD)
		err = p.Process(w)
		obs.Stage = "process"
		if err != nil {
			obs.Err = err.Error()
			obs.Bytes = w.buf.Len()
			return obs, nil
		}
		d, err := parsePDF(w.buf.Bytes())
		if err != nil {
			obs.Fault = "bad pdf: " + err.Error()
			return obs, nil
		}
		m, err := d.contentMarks()
		if err != nil {
			obs.Fault = "bad pdf: " + err.Error()
			return obs, nil
		}
		obs.marks = m
		for _, pg := range d.pages {
			obs.Sizes = append(obs.Sizes, [2]int{um(pg.W / ptPerMm), um(pg.H / ptPerMm)})
		}
	default:
		return obs, fmt.Errorf("unknown engine %q", c.Engine)
	}
	obs.Bytes = w.buf.Len()
	for i := range obs.I {
		obs.I[i].Src = relSrc(c.WD, obs.I[i].Src)
	}
	bs, _ := json.Marshal(obs.marks)
	h := sha256.Sum256(bs)
	obs.Hash = hex.EncodeToString(h[:8])
	return obs, nil
}

func relSrc(wd, src string) string {
	if wd == "" {
		return src
	}
	if r, err := filepath.Rel(wd, src); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return src
}

var _ = io.Discard
var _ = os.Stdout
