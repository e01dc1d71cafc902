package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/xdoc"
)

func init() { modes["hist"] = histMode }

// an operation of a history. Slots hold loaded documents, runs are processings under way.
type histOp struct {
	O     string `json:"o"`  // load, proc, desc, begin, step, conc
	S     int    `json:"s"`  // slot
	R     int    `json:"r"`  // run
	E     string `json:"e"`  // engine: fake, pdf
	Slots []int  `json:"ss"` // conc: processed at once; a negative slot is described
}

type histDoc struct {
	runCase
	Calls int `json:"calls"` // engine calls of a processing
}

// what is observed of an operation: k is what of the document (marks/fake, marks/pdf, desc, dump)
type histEvent struct {
	At int    `json:"at"`
	S  int    `json:"s"`
	K  string `json:"k"`
	V  string `json:"v"`
}

type histRun struct {
	slot   int
	engine string
	resume chan bool
	done   chan histEvent
	parked chan bool
	over   bool
}

func digest(v interface{}) string {
	bs, _ := json.Marshal(v)
	h := sha256.Sum256(bs)
	return hex.EncodeToString(h[:8])
}

type histState struct {
	docs   []histDoc
	slot   map[int]*xdoc.Document
	runs   map[int]*histRun
	slices int
	ev     []histEvent
}

func (h *histState) process(s int, eng string, wrap func(engine.Engine) engine.Engine) (ev histEvent) {
	ev = histEvent{S: s, K: "marks/" + eng}
	defer func() {
		if r := recover(); r != nil {
			ev.V = faultText(r)
		}
	}()
	c := h.docs[s-1].runCase
	c.Engine, c.wrap = eng, wrap
	o, err := processDoc(c, h.slot[s])
	if err != nil {
		ev.V = "error: " + err.Error()
		return
	}
	o.ID = nil
	ev.V = o.Hash
	if o.Err != "" || o.Fault != "" || o.Load != "" {
		ev.V = o.Hash + o.Load + o.Fault + o.Err
	}
	return
}

func (h *histState) describe(s int) (ev histEvent) {
	ev = histEvent{S: s, K: "desc"}
	defer func() {
		if r := recover(); r != nil {
			ev.V = faultText(r)
		}
	}()
	d := xdoc.Describe(h.slot[s])
	ev.V = digest([]string{d.Dump(xdoc.DescribeXML), d.Dump(xdoc.DescribeJSON)})
	return
}

// begin starts a processing that stops before its first engine call, and then after every slice
func (h *histState) begin(r, s int, eng string) {
	run := &histRun{slot: s, engine: eng, resume: make(chan bool), done: make(chan histEvent, 1), parked: make(chan bool)}
	h.runs[r] = run
	calls, slice := 0, 0
	total := h.docs[s-1].Calls
	gate := func() {
		if slice < h.slices && calls >= total*slice/h.slices {
			slice++
			run.parked <- true
			<-run.resume
		}
		calls++
	}
	go func() {
		run.done <- h.process(s, eng, func(e engine.Engine) engine.Engine { return &gateEngine{Engine: e, gate: gate} })
	}()
	h.wait(run)
}

// wait until the run is parked or over
func (h *histState) wait(run *histRun) {
	select {
	case <-run.parked:
	case ev := <-run.done:
		run.over = true
		h.ev = append(h.ev, ev)
	}
}

func (h *histState) step(r int) {
	run := h.runs[r]
	if run.over {
		return
	}
	run.resume <- true
	h.wait(run)
}

func histMode(raw json.RawMessage) (interface{}, error) {
	var c struct {
		ID     json.RawMessage `json:"id"`
		Docs   []histDoc       `json:"docs"`
		Ops    []histOp        `json:"ops"`
		Slices int             `json:"slices"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	obs := struct {
		ID    json.RawMessage `json:"id"`
		Fault string          `json:"fault"`
		Ev    []histEvent     `json:"ev"`
	}{ID: c.ID, Ev: []histEvent{}}
	for _, d := range c.Docs {
		if _, err := cachedHyphenator(d.Hyph); err != nil { // shared by all processings
			return nil, err
		}
	}
	h := &histState{docs: c.Docs, slot: map[int]*xdoc.Document{}, runs: map[int]*histRun{}, slices: c.Slices}
	for i, op := range c.Ops {
		n := len(h.ev)
		switch op.O {
		case "load":
			d, err := xdoc.Load(strings.NewReader(c.Docs[op.S-1].XML))
			if err != nil {
				obs.Fault = "load: " + err.Error()
				return obs, nil
			}
			h.slot[op.S] = d
		case "proc":
			h.ev = append(h.ev, h.process(op.S, op.E, nil))
		case "desc":
			h.ev = append(h.ev, h.describe(op.S))
		case "begin":
			h.begin(op.R, op.S, op.E)
		case "step":
			h.step(op.R)
		case "conc":
			res := make([]histEvent, len(op.Slots))
			done := make(chan int)
			for k, s := range op.Slots {
				go func(k, s int) {
					if s < 0 {
						res[k] = h.describe(-s)
					} else {
						res[k] = h.process(s, op.E, nil)
					}
					done <- k
				}(k, s)
			}
			for range op.Slots {
				<-done
			}
			h.ev = append(h.ev, res...)
		default:
			return nil, fmt.Errorf("unknown operation %q", op.O)
		}
		// the documents are what they were when they were loaded
		for s := 1; s <= len(c.Docs); s++ {
			if d := h.slot[s]; d != nil {
				h.ev = append(h.ev, histEvent{S: s, K: "dump", V: digest(dumpDoc(d))})
			}
		}
		for k := n; k < len(h.ev); k++ {
			h.ev[k].At = i + 1
		}
	}
	for r := range h.runs { // histories may end with processings under way
		for !h.runs[r].over {
			h.step(r)
		}
	}
	obs.Ev = h.ev
	return obs, nil
}
