package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/mazzegi/xpdf/xdoc"
)

func init() { modes["describe"] = describeMode }

type diffObs struct {
	P string `json:"p"`
	O string `json:"o"`
	M string `json:"m"`
}
type itemObs struct {
	D  int       `json:"d"`
	N  string    `json:"n"`
	V  string    `json:"v"`
	Df []diffObs `json:"df"`
}

// anyStr renders a value of a description; numbers as plain decimals
func anyStr(v interface{}) string {
	if v == nil {
		return ""
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Float64, reflect.Float32:
		return fnum(rv.Float())
	case reflect.Int, reflect.Int64:
		return strconv.FormatInt(rv.Int(), 10)
	}
	return fmt.Sprint(v)
}

func flatten(d int, its []xdoc.DescribeItem, out []itemObs) []itemObs {
	for _, it := range its {
		o := itemObs{D: d, N: it.Name, V: anyStr(it.Value), Df: []diffObs{}}
		for _, f := range it.StyleDiffs {
			o.Df = append(o.Df, diffObs{P: f.Path, O: anyStr(f.Org), M: anyStr(f.Mod)})
		}
		out = flatten(d+1, it.Items, append(out, o))
	}
	return out
}

// a dumped description, read back. Values are kept as text.
type xmlItem struct {
	Name       string    `xml:"Name"`
	Value      string    `xml:"Value"`
	StyleDiffs []xmlDiff `xml:"StyleDiffs"`
	Items      []xmlItem `xml:"Items"`
}
type xmlDiff struct {
	Path string `xml:"Path"`
	Org  string `xml:"Org"`
	Mod  string `xml:"Mod"`
}

// sameText: the dumped text of a value is that value (numbers may be written differently)
func sameText(dumped, want string) bool {
	if dumped == want {
		return true
	}
	a, err1 := strconv.ParseFloat(dumped, 64)
	b, err2 := strconv.ParseFloat(want, 64)
	return err1 == nil && err2 == nil && a == b
}

func matchXML(d int, its []xmlItem, want []itemObs) ([]itemObs, bool) {
	for _, it := range its {
		if len(want) == 0 {
			return nil, false
		}
		w := want[0]
		if w.D != d || it.Name != w.N || !sameText(it.Value, w.V) || len(it.StyleDiffs) != len(w.Df) {
			return nil, false
		}
		for i, f := range it.StyleDiffs {
			if f.Path != w.Df[i].P || !sameText(f.Org, w.Df[i].O) || !sameText(f.Mod, w.Df[i].M) {
				return nil, false
			}
		}
		var ok bool
		if want, ok = matchXML(d+1, it.Items, want[1:]); !ok {
			return nil, false
		}
	}
	return want, true
}

func describeMode(raw json.RawMessage) (interface{}, error) {
	var c struct {
		ID   json.RawMessage `json:"id"`
		XML  string          `json:"xml"`
		Dump bool            `json:"dump"` // with the dumped text
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	type obsT struct {
		ID     json.RawMessage `json:"id"`
		Fault  string          `json:"fault"`
		Load   string          `json:"load"`
		Items  []itemObs       `json:"items"`
		Stable bool            `json:"stable"`
		XML    bool            `json:"xml"`
		JSON   bool            `json:"json"`
		Same   bool            `json:"same"`
		Dumped string          `json:"dumped,omitempty"`
	}
	obs := obsT{ID: c.ID, Items: []itemObs{}, Stable: true, Same: true}
	d, err := xdoc.Load(strings.NewReader(c.XML))
	if err != nil {
		obs.Load = err.Error()
		return obs, nil
	}
	before, _ := json.Marshal(dumpDoc(d))
	desc := xdoc.Describe(d)
	obs.Items = flatten(0, desc.Items, obs.Items)
	dx, dj := desc.Dump(xdoc.DescribeXML), desc.Dump(xdoc.DescribeJSON)
	if c.Dump {
		obs.Dumped = dx
	}
	// again: the same description object, the same document, the same source
	for i := 0; i < 4; i++ {
		if desc.Dump(xdoc.DescribeXML) != dx || desc.Dump(xdoc.DescribeJSON) != dj {
			obs.Stable = false
		}
		again := xdoc.Describe(d)
		if again.Dump(xdoc.DescribeXML) != dx || again.Dump(xdoc.DescribeJSON) != dj {
			obs.Stable = false
		}
	}
	d2, err := xdoc.Load(strings.NewReader(c.XML))
	if err != nil {
		obs.Stable = false
	} else if s := xdoc.Describe(d2); s.Dump(xdoc.DescribeXML) != dx || s.Dump(xdoc.DescribeJSON) != dj {
		obs.Stable = false
	}
	after, _ := json.Marshal(dumpDoc(d))
	obs.Same = string(before) == string(after)

	var xd struct {
		Items []xmlItem `xml:"Items"`
	}
	if err := xml.Unmarshal([]byte(dx), &xd); err == nil {
		rest, ok := matchXML(0, xd.Items, obs.Items)
		obs.XML = ok && len(rest) == 0
	}
	var jd struct{ Items []xdoc.DescribeItem }
	if err := json.Unmarshal([]byte(dj), &jd); err == nil {
		have, _ := json.Marshal(flatten(0, jd.Items, []itemObs{}))
		want, _ := json.Marshal(obs.Items)
		obs.JSON = string(have) == string(want)
	}
	return obs, nil
}
