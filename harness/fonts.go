package main

import (
	"encoding/json"
	"errors"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/xdoc"
)

func init() { modes["fonts"] = fontsMode }

type fontEntry struct {
	N string `json:"n"`
	S string `json:"s"`
	P string `json:"p"`
}

// fontsMode loads a font definition and lists what has been registered
func fontsMode(raw json.RawMessage) (interface{}, error) {
	var c struct {
		ID   json.RawMessage `json:"id"`
		Path string          `json:"path"`
		Stop int             `json:"stop"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	type obsT struct {
		ID    json.RawMessage `json:"id"`
		Fault string          `json:"fault"`
		Err   string          `json:"err"`
		Mono  string          `json:"mono"`  // of the engine
		RMono string          `json:"rmono"` // of the registry
		List  []fontEntry     `json:"list"`
		Stop  []fontEntry     `json:"stop"` // enumerated until an error after Stop entries
	}
	obs := obsT{ID: c.ID, List: []fontEntry{}, Stop: []fontEntry{}}
	reg, err := font.LoadRegistryFromFile(c.Path)
	if err != nil {
		obs.Err = err.Error()
		return obs, nil
	}
	entry := func(fd font.Descriptor) fontEntry { return fontEntry{fd.Name, string(fd.Style), fd.FilePath} }
	if err := reg.Each(func(fd font.Descriptor) error {
		obs.List = append(obs.List, entry(fd))
		return nil
	}); err != nil {
		obs.Err = err.Error()
	}
	stop := errors.New("stop")
	err = reg.Each(func(fd font.Descriptor) error {
		obs.Stop = append(obs.Stop, entry(fd))
		if len(obs.Stop) == c.Stop {
			return stop
		}
		return nil
	})
	if (c.Stop <= len(obs.List)) != (err == stop) {
		obs.Fault = "the error of an enumeration is not passed on"
	}
	e, err := engine.NewFPDF(reg, &xdoc.Document{})
	if err != nil {
		obs.Err = err.Error()
		return obs, nil
	}
	obs.Mono, obs.RMono = e.MonoFont(), reg.MonoFont()
	return obs, nil
}
