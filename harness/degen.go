package main

import (
	"encoding/json"
	"io"
	"strings"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/xdoc"
)

func init() { modes["degen"] = degenMode }

// degenMode processes a document of which only the end and the number of pages matter
func degenMode(raw json.RawMessage) (interface{}, error) {
	var c runCase
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	type obsT struct {
		ID    json.RawMessage `json:"id"`
		Fault string          `json:"fault"`
		Load  string          `json:"load"`
		Err   string          `json:"err"`
		Pages int             `json:"pages"`
	}
	obs := obsT{ID: c.ID}
	doc, err := xdoc.Load(strings.NewReader(c.XML))
	if err != nil {
		obs.Load = err.Error()
		return obs, nil
	}
	hyp, err := cachedHyphenator(c.Hyph)
	if err != nil {
		return nil, err
	}
	var eng engine.Engine
	var pages func() int
	if c.Engine == "fake" {
		e := newFake(*c.Geo)
		eng, pages = e, func() int { return e.pg }
	} else {
		e, err := engine.NewFPDF(font.NewRegistry(), doc)
		if err != nil {
			obs.Err = err.Error()
			return obs, nil
		}
		l := &limFPDF{FPDF: e}
		eng, pages = l, func() int { return l.pages }
	}
	err = xpdf.NewProcessor(eng, hyp, doc, c.WD).Process(io.Discard)
	if err != nil {
		obs.Err = err.Error()
	}
	obs.Pages = pages()
	return obs, nil
}
