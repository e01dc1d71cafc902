package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/mazzegi/xpdf/style"
)

func init() { modes["style"] = styleMode }

func fnum(f float64) string {
	if f == 0 {
		f = 0 // no negative zero
	}
	return strings.TrimPrefix(strconv.FormatFloat(f, 'f', -1, 64), "-0x")
}

func hexRGB(c style.RGB) string { return fmt.Sprintf("%02x%02x%02x", c.R, c.G, c.B) }

// styleMap names every attribute by the model's key
func styleMap(s style.Styles) map[string][]string {
	n := func(fs ...float64) []string {
		r := []string{}
		for _, f := range fs {
			r = append(r, fnum(f))
		}
		return r
	}
	f := func(i int) float64 { return float64(i) }
	return map[string][]string{
		"fam": {s.Font.Family}, "pt": n(s.Font.PointSize), "fst": {string(s.Font.Style)}, "fwt": {string(s.Font.Weight)}, "fdc": {string(s.Font.Decoration)},
		"bor": n(f(s.Border.Left), f(s.Border.Top), f(s.Border.Right), f(s.Border.Bottom)),
		"pad": n(s.Padding.Left, s.Padding.Top, s.Padding.Right, s.Padding.Bottom),
		"mar": n(s.Margin.Left, s.Margin.Top, s.Margin.Right, s.Margin.Bottom),
		"w":   n(s.Width), "h": n(s.Height), "ls": n(s.LineSpacing), "ox": n(s.OffsetX), "oy": n(s.OffsetY),
		"cw": n(s.ColumnWidth), "ha": {string(s.HAlign)}, "va": {string(s.VAlign)},
		"fg": {hexRGB(s.Foreground)}, "tx": {hexRGB(s.Text)}, "bg": {hexRGB(s.Background)}, "lw": n(s.LineWidth),
	}
}

// a style in which every attribute has a value of its own
func filledStyle() style.Styles {
	return style.Styles{
		Font:      style.Font{Family: "~fam", PointSize: -91, Style: "~fst", Weight: "~fwt", Decoration: "~fdc"},
		Box:       style.Box{Border: style.Border{Left: -1, Top: -2, Right: -3, Bottom: -4}, Padding: style.Padding{Left: -5, Top: -6, Right: -7, Bottom: -8}, Margin: style.Margin{Left: -9, Top: -10, Right: -11, Bottom: -12}},
		Dimension: style.Dimension{Width: -13, Height: -14, LineSpacing: -15, OffsetX: -16, OffsetY: -17},
		Table:     style.Table{ColumnWidth: -18},
		Align:     style.Align{HAlign: "~ha", VAlign: "~va"},
		Color:     style.Color{Foreground: style.RGB{R: 1, G: 2, B: 3}, Text: style.RGB{R: 4, G: 5, B: 6}, Background: style.RGB{R: 7, G: 8, B: 9}},
		Draw:      style.Draw{LineWidth: -19},
	}
}

type classObs struct {
	N  string              `json:"n"`
	St map[string][]string `json:"st"`
	S  []selObs            `json:"s"`
}
type selObs struct {
	N  string              `json:"n"`
	St map[string][]string `json:"st"`
}

func styleMode(raw json.RawMessage) (interface{}, error) {
	var c struct {
		ID json.RawMessage `json:"id"`
		Op string          `json:"op"` // mut | cls
		T  string          `json:"t"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	type obsT struct {
		ID    json.RawMessage     `json:"id"`
		Fault string              `json:"fault"`
		Err   string              `json:"err"`
		St    map[string][]string `json:"st"`
		Cs    []classObs          `json:"cs"`
	}
	obs := obsT{ID: c.ID, St: map[string][]string{}, Cs: []classObs{}}
	if c.Op == "mut" {
		m, err := style.DecodeMutator(strings.NewReader(c.T))
		if err != nil {
			obs.Err = err.Error()
			return obs, nil
		}
		s := filledStyle()
		m.Mutate(&s)
		obs.St = styleMap(s)
		return obs, nil
	}
	cs, err := style.DecodeClasses(strings.NewReader(c.T))
	if err != nil {
		obs.Err = err.Error()
		return obs, nil
	}
	for n, cl := range cs {
		s := filledStyle()
		cs.Mutate(&s, n)
		co := classObs{N: n, St: styleMap(s), S: []selObs{}}
		if cl.Name != n {
			co.N = n + " named " + cl.Name
		}
		for sn := range cl.Selectors {
			s := filledStyle()
			cs.MutateWithSelector(sn, &s, n)
			co.S = append(co.S, selObs{N: sn, St: styleMap(s)})
		}
		obs.Cs = append(obs.Cs, co)
	}
	return obs, nil
}
