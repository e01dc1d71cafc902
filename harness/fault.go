package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"
)

func init() {
	modes["fault"] = faultMode
	modes["pdffile"] = pdfFileMode
}

// faultMode runs one document with one injected fault, or one loader with one failing input
func faultMode(raw json.RawMessage) (interface{}, error) {
	var c struct {
		runCase
		Kind string `json:"kind"`
		What string `json:"what"`
		Flt  string `json:"flt"`
		At   int    `json:"at"`
		Path string `json:"path"`
		Text string `json:"text"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	type obsT struct {
		ID      json.RawMessage `json:"id"`
		Fault   string          `json:"fault"`
		Err     string          `json:"err"`
		Is      string          `json:"is"` // the injected error it is
		Bytes   int             `json:"bytes"`
		Calls   int             `json:"calls"`
		Partial bool            `json:"partial"`
	}
	obs := obsT{ID: c.ID}
	setErr := func(err error, partial bool) {
		if err != nil {
			obs.Err, obs.Partial = err.Error(), partial
		}
	}
	if c.Kind == "loader" {
		switch c.What {
		case "doc":
			if c.Path != "" {
				d, err := xdoc.LoadFromFile(c.Path)
				setErr(err, d != nil)
			} else {
				d, err := xdoc.Load(c.reader(c.Flt, c.Text, c.At))
				setErr(err, d != nil)
			}
		case "def":
			r, err := font.LoadRegistryFromFile(c.Path)
			setErr(err, r != nil)
		case "hyph":
			if c.Path != "" {
				h, err := hyphenation.LoadFromFile(c.Path)
				setErr(err, h != nil)
			} else {
				h, err := hyphenation.Load(c.reader(c.Flt, c.Text, c.At))
				setErr(err, h != nil)
			}
		default:
			return nil, fmt.Errorf("unknown loader %q", c.What)
		}
		return obs, nil
	}
	rc := c.runCase
	switch c.Flt {
	case "engine":
		rc.ErrAt = c.At
	case "pdf":
		rc.PFail = true
	case "writer":
		rc.WFail = c.At
	}
	o, err := runOne(rc)
	if err != nil {
		return nil, err
	}
	obs.Fault, obs.Err, obs.Bytes, obs.Calls = o.Fault, o.Err, o.Bytes, o.Calls
	if o.Load != "" {
		obs.Fault = "load: " + o.Load
	}
	for _, s := range []string{"injected engine error", "injected pdf error", "injected write error"} {
		if strings.Contains(obs.Err, s) {
			obs.Is = s
		}
	}
	return obs, nil
}

func (runCase) reader(flt, text string, at int) io.Reader {
	if flt == "read" {
		return errReader{strings.NewReader(text[:at])}
	}
	return strings.NewReader(text)
}

// pdfFileMode reads a pdf written by the command
func pdfFileMode(raw json.RawMessage) (interface{}, error) {
	var c struct {
		ID   json.RawMessage `json:"id"`
		Path string          `json:"path"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	type obsT struct {
		ID    json.RawMessage `json:"id"`
		Fault string          `json:"fault"`
		Size  int             `json:"size"` // -1: no file
		marks
	}
	obs := obsT{ID: c.ID, marks: newMarks()}
	bs, err := os.ReadFile(c.Path)
	if err != nil {
		obs.Size = -1
		return obs, nil
	}
	obs.Size = len(bs)
	if len(bs) == 0 {
		return obs, nil
	}
	d, err := parsePDF(bs)
	if err == nil {
		obs.marks, err = d.contentMarks()
	}
	if err != nil {
		obs.Fault = "bad pdf: " + err.Error()
	}
	return obs, nil
}
