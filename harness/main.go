// Command xh drives the code of /repo through its public API and records what it does.
//
//	xh <mode> <in.ndjson> <out.ndjson>
//
// Every line of the input is one case, every line of the output its observation.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

// a mode turns one case into one observation
type modeFunc func(raw json.RawMessage) (interface{}, error)

var modes = map[string]modeFunc{}

// XH_TIMEOUT: seconds a case may take
func caseTimeout() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("XH_TIMEOUT")); err == nil && n > 0 {
		return time.Duration(n) * time.Second
	}
	return 30 * time.Second
}

type faultObs struct {
	ID    json.RawMessage `json:"id"`
	Fault string          `json:"fault"`
}

func caseID(raw json.RawMessage) json.RawMessage {
	var c struct {
		ID json.RawMessage `json:"id"`
	}
	if err := json.Unmarshal(raw, &c); err != nil || c.ID == nil {
		return json.RawMessage(`"?"`)
	}
	return c.ID
}

// guarded runs one case; panics become an observed fault.
func guarded(f modeFunc, raw json.RawMessage) (res interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			res = faultObs{ID: caseID(raw), Fault: faultText(r)}
			err = nil
		}
	}()
	return f(raw)
}

func faultText(r interface{}) string {
	if ra, ok := r.(runaway); ok {
		return "runaway: " + string(ra)
	}
	if os.Getenv("XH_STACK") != "" {
		return fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
	}
	return fmt.Sprintf("panic: %v", r)
}

func main() {
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: xh <mode> <in> <out>")
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	mode, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}
	in, err := os.Open(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out, err := os.Create(os.Args[3])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := bufio.NewWriterSize(out, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)

	rd := bufio.NewReaderSize(in, 1<<20)
	dec := json.NewDecoder(rd)
	for dec.More() {
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			fmt.Fprintln(os.Stderr, "decode input:", err)
			os.Exit(2)
		}
		type result struct {
			v   interface{}
			err error
		}
		ch := make(chan result, 1)
		go func() {
			v, err := guarded(mode, raw)
			ch <- result{v, err}
		}()
		select {
		case r := <-ch:
			if r.err != nil {
				fmt.Fprintf(os.Stderr, "case %s: %v\n", caseID(raw), r.err)
				os.Exit(2)
			}
			if err := enc.Encode(r.v); err != nil {
				fmt.Fprintln(os.Stderr, "encode output:", err)
				os.Exit(2)
			}
			if err := w.Flush(); err != nil { // a crash must not lose finished cases
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		case <-time.After(caseTimeout()):
			// the case cannot be stopped: report it and leave; the caller restarts behind it
			enc.Encode(faultObs{ID: caseID(raw), Fault: "hang"})
			w.Flush()
			out.Close()
			os.Exit(3)
		}
	}
	if err := w.Flush(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out.Close()
}
