// Executes, with the Go binding, what the harness asks for: one JSON request per line.
package main

// #include <malloc.h>
// static long long in_use(void) { struct mallinfo2 m = mallinfo2(); return (long long)(m.uordblks + m.hblkhd); }
import "C"

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime"
	"sync"

	sds "github.com/DataDog/dd-sensitive-data-scanner/sds-go/go"
)

type kw struct {
	Look uint32   `json:"look"`
	Inc  []string `json:"inc"`
	Exc  []string `json:"exc"`
}

type rule struct {
	Kind    string `json:"kind"`
	Pattern string `json:"pattern"`
	Text    string `json:"text"`
	N       uint32 `json:"n"`
	Kw      *kw    `json:"kw"`
	Val     string `json:"val"`
}

type event struct {
	Bytes *string                `json:"bytes"` // base64
	Map   map[string]interface{} `json:"map"`
}

type request struct {
	Rules    []rule  `json:"rules"`
	Events   []event `json:"events"`
	Parallel bool    `json:"parallel"`
	// repeat the request this many times, then as often again, then twice, four times... as often,
	// until the memory in use does not grow by more than 16 bytes per round (a leak takes 32 at least)
	Loop int `json:"loop"`
}

type match struct {
	Rule  uint32 `json:"rule"`
	Path  string `json:"path"`
	Type  string `json:"type"`
	Start uint32 `json:"start"`
	End   uint32 `json:"end"`
	Shift int32  `json:"shift"`
}

type result struct {
	Err     string                 `json:"err"`
	Bytes   string                 `json:"bytes"`
	Map     map[string]interface{} `json:"map"`
	Mutated bool                   `json:"mutated"`
	Matches []match                `json:"matches"`
}

type response struct {
	Err     string   `json:"err"`
	Results []result `json:"results"`
	Memory  []int64  `json:"memory"`
	Steady  bool     `json:"steady"`
}

func extra(r rule) sds.ExtraConfig {
	e := sds.ExtraConfig{SecondaryValidator: sds.SecondaryValidator(r.Val)}
	if r.Kw != nil {
		e.ProximityKeywords = sds.CreateProximityKeywordsConfig(r.Kw.Look, r.Kw.Inc, r.Kw.Exc)
	}
	return e
}

func one(s *sds.Scanner, e event) (out result) {
	defer func() {
		if p := recover(); p != nil {
			out.Err = fmt.Sprintf("go panic: %v", p)
		}
	}()
	var r sds.ScanResult
	var err error
	if e.Bytes != nil {
		b, _ := base64.StdEncoding.DecodeString(*e.Bytes)
		r, err = s.Scan(b)
		if err == nil {
			out.Bytes = base64.StdEncoding.EncodeToString(r.Event)
		}
	} else {
		r, err = s.ScanEventsMap(e.Map)
		out.Map = e.Map
	}
	if err != nil {
		out.Err = err.Error()
		return
	}
	out.Mutated = r.Mutated
	out.Matches = []match{}
	for _, m := range r.Matches {
		out.Matches = append(out.Matches, match{m.RuleIdx, m.Path, string(m.ReplacementType), m.StartIndex, m.EndIndexExclusive, m.ShiftOffset})
	}
	return
}

func handle(q request) (resp response) {
	var rules []sds.RuleConfig
	for i, r := range q.Rules {
		id := fmt.Sprint(i)
		switch r.Kind {
		case "none":
			rules = append(rules, sds.NewMatchingRule(id, r.Pattern, extra(r)))
		case "redact":
			rules = append(rules, sds.NewRedactingRule(id, r.Pattern, r.Text, extra(r)))
		case "hash":
			rules = append(rules, sds.NewHashRule(id, r.Pattern, extra(r)))
		case "first":
			rules = append(rules, sds.NewPartialRedactRule(id, r.Pattern, r.N, sds.FirstCharacters, extra(r)))
		case "last":
			rules = append(rules, sds.NewPartialRedactRule(id, r.Pattern, r.N, sds.LastCharacters, extra(r)))
		}
	}
	s, err := sds.CreateScanner(rules)
	if err != nil {
		switch {
		case errors.Is(err, sds.ErrInvalidRegex):
			resp.Err = "regex"
		case errors.Is(err, sds.ErrInvalidKeywords):
			resp.Err = "keywords"
		case errors.Is(err, sds.ErrInvalidMatchAction):
			resp.Err = "action"
		default:
			resp.Err = "other: " + err.Error()
		}
		return
	}
	defer s.Delete()
	resp.Results = make([]result, len(q.Events))
	if q.Parallel {
		var wg sync.WaitGroup
		for i := range q.Events {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				resp.Results[i] = one(s, q.Events[i])
			}(i)
		}
		wg.Wait()
	} else {
		for i := range q.Events {
			resp.Results[i] = one(s, q.Events[i])
		}
	}
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		answer := handle(q)
		if q.Loop > 0 {
			runtime.LockOSThread()
			last := int64(0)
			for k := q.Loop; k <= 64*q.Loop; {
				for i := 0; i < k; i++ {
					// scanning changes the event
					var again request
					json.Unmarshal(line, &again)
					handle(again)
				}
				now := int64(C.in_use())
				answer.Memory = append(answer.Memory, now)
				if len(answer.Memory) > 1 {
					if now-last <= int64(16*k) {
						answer.Steady = true
						break
					}
					k *= 2
				}
				last = now
			}
			runtime.UnlockOSThread()
		}
		b, err := json.Marshal(answer)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
