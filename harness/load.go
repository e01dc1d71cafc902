package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/mazzegi/xpdf/style"
	"github.com/mazzegi/xpdf/xdoc"
)

func init() { modes["load"] = loadMode }

type node struct {
	N  string              `json:"n"`
	V  string              `json:"v"`
	Cl []string            `json:"cl"`
	St map[string][]string `json:"st"`
	Is []node              `json:"is"`
}

func classList(c []string) []string {
	if c == nil {
		return []string{}
	}
	return c
}

func mkNode(n, v string, i xdoc.Instruction, cl []string, is []node) node {
	if is == nil {
		is = []node{}
	}
	return node{N: n, V: v, Cl: classList(cl), St: styleMap(i.MutatedStyles(style.Classes{}, filledStyle())), Is: is}
}

// instructions; adjacent character data is joined
func dumpISS(iss []xdoc.Instruction) []node {
	out := []node{}
	for _, i := range iss {
		if t, ok := i.(*xdoc.TextBlock); ok {
			if len(out) > 0 && out[len(out)-1].N == "#" {
				out[len(out)-1].V += t.Text
				continue
			}
		}
		out = append(out, dumpIns(i))
	}
	return out
}

func dumpIns(i xdoc.Instruction) node {
	switch i := i.(type) {
	case *xdoc.TextBlock:
		return mkNode("#", i.Text, i, nil, nil)
	case *xdoc.Font:
		return mkNode("font", "", i, i.Classes, nil)
	case *xdoc.LineFeed:
		return mkNode("lf", fnum(i.Lines), i, nil, nil)
	case *xdoc.SetX:
		return mkNode("setx", fnum(i.X), i, nil, nil)
	case *xdoc.SetY:
		return mkNode("sety", fnum(i.Y), i, nil, nil)
	case *xdoc.Box:
		return mkNode("box", "", i, i.Classes, dumpISS(i.ISS))
	case *xdoc.Text:
		return mkNode("text", "", i, i.Classes, dumpISS(i.ISS))
	case *xdoc.Image:
		return mkNode("image", i.Source, i, i.Classes, nil)
	case *xdoc.Paragraph:
		return mkNode("p", i.Text, i, i.Classes, nil)
	case *xdoc.LineBreak:
		return mkNode("br", "", i, nil, nil)
	case *xdoc.PageBreak:
		return mkNode("newpage", "", i, nil, nil)
	case *xdoc.Table:
		rows := []node{}
		for _, r := range i.Rows {
			rows = append(rows, dumpIns(r))
		}
		return mkNode("table", fmt.Sprint(i.RepeatHeader), i, i.Classes, rows)
	case *xdoc.TableRow:
		cells := []node{}
		for _, c := range i.Cells {
			cells = append(cells, dumpIns(c))
		}
		return mkNode("tr", "", i, i.Classes, cells)
	case *xdoc.TableCell:
		return mkNode("td", fmt.Sprintf("%d,%d", i.ColSpan, i.RowSpan), i, i.Classes, dumpISS(i.ISS))
	case *xdoc.Grid:
		is := []node{}
		for _, r := range i.Rows {
			is = append(is, dumpIns(r))
		}
		for _, p := range i.Parts {
			is = append(is, dumpIns(p))
		}
		return mkNode("grid", "", i, i.Classes, is)
	case *xdoc.GridRow:
		return mkNode("gr", strings.Join(i.Areas, "|"), i, i.Classes, nil)
	case *xdoc.GridPart:
		return mkNode("part", i.Area, i, i.Classes, dumpISS(i.ISS))
	}
	return node{N: fmt.Sprintf("?%T", i), Cl: []string{}, St: map[string][]string{}, Is: []node{}}
}

type docDump struct {
	Meta  []string `json:"meta"`
	Page  []string `json:"page"`
	Style string   `json:"style"`
	Hdr   []node   `json:"hdr"`
	Ftr   []node   `json:"ftr"`
	Body  []node   `json:"body"`
}

func dumpDoc(d *xdoc.Document) docDump {
	m := d.Page.Margins
	return docDump{
		Meta:  []string{d.Meta.Author, d.Meta.Creator, d.Meta.Subject},
		Page:  []string{string(d.Page.Orientation), string(d.Page.Format), fnum(m.Left), fnum(m.Top), fnum(m.Right), fnum(m.Bottom)},
		Style: d.Style,
		Hdr:   dumpISS(d.Header.ISS), Ftr: dumpISS(d.Footer.ISS), Body: dumpISS(d.Body.ISS),
	}
}

// errReader fails after its content instead of ending
type errReader struct{ r io.Reader }

func (e errReader) Read(p []byte) (int, error) {
	n, err := e.r.Read(p)
	if err == io.EOF {
		err = errors.New("injected read error")
	}
	return n, err
}

func loadMode(raw json.RawMessage) (interface{}, error) {
	var c struct {
		ID    json.RawMessage `json:"id"`
		XML   string          `json:"xml"`
		RFail bool            `json:"rfail"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	type obsT struct {
		ID    json.RawMessage `json:"id"`
		Fault string          `json:"fault"`
		Err   string          `json:"err"`
		Doc   []docDump       `json:"doc"` // at most one
	}
	obs := obsT{ID: c.ID, Doc: []docDump{}}
	var r io.Reader = strings.NewReader(c.XML)
	if c.RFail {
		r = errReader{r}
	}
	d, err := xdoc.Load(r)
	if err != nil {
		obs.Err = err.Error()
		if d != nil {
			obs.Fault = "a document together with an error"
		}
		return obs, nil
	}
	obs.Doc = append(obs.Doc, dumpDoc(d))
	return obs, nil
}
