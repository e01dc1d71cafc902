package main

import (
	"encoding/json"
	"strings"

	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/text"
)

func init() {
	modes["text"] = textMode
	modes["hyph"] = hyphMode
}

// texts travel as code points; bytes that are no UTF-8 as 0x110000 + byte
func fromPoints(ps []int) string {
	var b strings.Builder
	for _, p := range ps {
		if p >= 0x110000 {
			b.WriteByte(byte(p - 0x110000))
		} else {
			b.WriteRune(rune(p))
		}
	}
	return b.String()
}

func toPoints(s string) []int {
	ps := []int{}
	for i, r := range s {
		if r == 0xFFFD && !strings.HasPrefix(s[i:], "\uFFFD") {
			ps = append(ps, 0x110000+int(s[i]))
		} else {
			ps = append(ps, int(r))
		}
	}
	return ps
}

type textObs struct {
	ID    json.RawMessage `json:"id"`
	Fault string          `json:"fault"`
	X     []int           `json:"x"` // the result
	Y     []int           `json:"y"` // applied to the result again
}

func textMode(raw json.RawMessage) (interface{}, error) {
	var c struct {
		ID json.RawMessage `json:"id"`
		Op string          `json:"op"`
		S  []int           `json:"s"`
		T  []int           `json:"t"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	s, t := fromPoints(c.S), fromPoints(c.T)
	o := textObs{ID: c.ID}
	if c.Op == "ws" {
		x := text.WhitespaceRectified(s)
		o.X, o.Y = toPoints(x), toPoints(text.WhitespaceRectified(x))
	} else {
		x := text.RemoveTwins(s, t)
		o.X, o.Y = toPoints(x), toPoints(text.RemoveTwins(x, t))
	}
	return o, nil
}

type hyphObs struct {
	ID    json.RawMessage `json:"id"`
	Fault string          `json:"fault"`
	Err   string          `json:"err"`
	P     [][]string      `json:"p"` // pieces per word
}

// one case: a pattern set and words
func hyphMode(raw json.RawMessage) (interface{}, error) {
	var c struct {
		ID    json.RawMessage `json:"id"`
		Set   string          `json:"set"` // en | latin | ""
		Lines string          `json:"lines"`
		Ws    []string        `json:"ws"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	o := hyphObs{ID: c.ID, P: [][]string{}}
	var h *hyphenation.Hyphenator
	var err error
	switch c.Set {
	case "en", "latin":
		h, err = cachedHyphenator(c.Set)
	default:
		h, err = hyphenation.Load(strings.NewReader(c.Lines))
	}
	if err != nil {
		o.Err = err.Error()
		return o, nil
	}
	for _, w := range c.Ws {
		o.P = append(o.P, h.Hyphenate(w))
	}
	return o, nil
}
