package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
)

// yield is called wherever an object under test calls back into its caller
// (a write to its writer, a read from its reader): there, and between calls,
// the schedule of a weave may switch to another object.
var yield = func() {}

type weavePart struct {
	C         string            `json:"c"`
	Unordered int               `json:"u"` // replies may list map entries in any order
	Ops       []json.RawMessage `json:"ops"`
}

// weaveWorld runs the histories of several independent objects: one after
// another, interleaved as a schedule says, or on goroutines of their own.
type weaveWorld struct {
	parts []weavePart
}

// answer is what a call returned and wrote, as text.
func answer(r Res, unordered bool) string {
	c := Res{}
	for k, v := range r {
		if unordered && r["k"] == "err" && k != "k" {
			continue // how far it came depends on the order
		}
		if k != "msg" && k != "kib" {
			c[k] = v
		}
	}
	b, err := json.Marshal(c)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(4)
	}
	if unordered {
		var v interface{}
		json.Unmarshal(b, &v)
		b, _ = json.Marshal(sorted(v))
	}
	if len(b) > 160 {
		h := sha1.Sum(b)
		return string(b[:100]) + "#" + hex.EncodeToString(h[:])
	}
	return string(b)
}

// sorted orders the numbers of every list of numbers.
func sorted(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k := range x {
			x[k] = sorted(x[k])
		}
	case []interface{}:
		nums := len(x) > 0
		for i := range x {
			x[i] = sorted(x[i])
			_, isNum := x[i].(float64)
			nums = nums && isNum
		}
		if nums {
			sort.Slice(x, func(i, j int) bool { return x[i].(float64) < x[j].(float64) })
		}
	}
	return v
}

// runPart performs a part's calls on new objects; before is called before each.
func runPart(p weavePart, before func()) []string {
	w := newWorld(p.C)
	out := []string{}
	for _, raw := range p.Ops {
		var op Op
		if e := json.Unmarshal(raw, &op); e != nil {
			fmt.Fprintln(os.Stderr, "op:", e, string(raw))
			os.Exit(4)
		}
		op.raw = raw
		before()
		r := guard(w, &op)
		out = append(out, answer(r, p.Unordered != 0))
		if r["k"] == "panic" {
			break
		}
	}
	return out
}

type strand struct {
	resume chan struct{}
	paused chan bool // true: finished
	done   bool
}

// interleave lets exactly one part run at a time; the schedule (repeated, with
// finished parts left out) says which one continues to its next pause.
func (w *weaveWorld) interleave(sched []int) [][]string {
	out := make([][]string, len(w.parts))
	all := make([]*strand, len(w.parts))
	var cur *strand
	pause := func() {
		me := cur
		me.paused <- false
		<-me.resume
	}
	yield = pause
	defer func() { yield = func() {} }()
	for i := range w.parts {
		s := &strand{resume: make(chan struct{}), paused: make(chan bool)}
		all[i] = s
		go func(i int) {
			<-s.resume
			out[i] = runPart(w.parts[i], pause)
			s.paused <- true
		}(i)
	}
	left := len(all)
	for k := 0; left > 0; k++ {
		i := k % len(all)
		if len(sched) > 0 {
			i = sched[k%len(sched)] - 1
		}
		if k >= 1<<20 {
			i = k % len(all) // a schedule that leaves somebody out
		}
		if i < 0 || i >= len(all) || all[i].done {
			// whoever is not done
			for i = k % len(all); all[i].done; i = (i + 1) % len(all) {
			}
		}
		cur = all[i]
		cur.resume <- struct{}{}
		if <-cur.paused {
			cur.done = true
			left--
		}
	}
	return out
}

func (w *weaveWorld) do(op *Op) Res {
	r := ok()
	switch op.Op {
	case "parts":
		var a struct {
			Parts []weavePart `json:"parts"`
		}
		if err := json.Unmarshal(op.raw, &a); err != nil {
			panic(err)
		}
		w.parts = a.Parts
		op.raw = json.RawMessage(fmt.Sprintf(`{"op":"parts","num":%d}`, len(a.Parts)))
		return r
	case "solo":
		runs := [][]string{}
		for _, p := range w.parts {
			runs = append(runs, runPart(p, func() {}))
		}
		r["runs"] = runs
		return r
	case "weave":
		r["runs"] = w.interleave(op.Sched)
		return r
	case "par":
		runs := make([][]string, len(w.parts))
		var ready, done sync.WaitGroup
		ready.Add(1)
		yield = runtime.Gosched
		for i := range w.parts {
			done.Add(1)
			go func(i int) {
				defer done.Done()
				ready.Wait()
				runs[i] = runPart(w.parts[i], func() {})
			}(i)
		}
		ready.Done()
		done.Wait()
		yield = func() {}
		r["runs"] = runs
		return r
	}
	panic("driver: unknown op " + op.Op)
}
