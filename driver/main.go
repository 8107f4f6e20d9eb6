// Command goavdrv executes scenarios against the real goav packages, using
// only their exported API, and records one event per public call.
//
// It is compiled from /repo's working tree through a build overlay (see
// /verif/lib/build.py); nothing of it lives in /repo.
//
// Input:  one JSON scenario per line: {"sc":int,"c":"component","ops":[{...}]}
// Output: one JSON event per line:    {"sc":int,"i":int,"a":{op as given},"r":{"k":"ok|err|panic|hang",...}}
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"syscall"
	"time"
)

// B is a byte string, written as a JSON array of numbers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, len(b)*4+2)
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(x), 10)
	}
	return append(out, ']'), nil
}

func (b *B) UnmarshalJSON(d []byte) error {
	out := make([]byte, 0, len(d)/3)
	n, in := 0, false
	for _, c := range d {
		if c >= '0' && c <= '9' {
			n = n*10 + int(c-'0')
			in = true
			continue
		}
		if in {
			if n > 255 {
				return errors.New("byte out of range")
			}
			out = append(out, byte(n))
			n, in = 0, false
		}
	}
	*b = out
	return nil
}

// Res is an event's result.
type Res map[string]interface{}

// Op is one operation; raw keeps it as given.
type Op struct {
	Op    string          `json:"op"`
	T     int             `json:"t"`
	Data  B               `json:"data"`
	N     int             `json:"n"`
	Dm    int             `json:"dm"`
	Fail  int             `json:"fail"`
	Cap   int             `json:"cap"`
	Ts    []int64         `json:"ts"`
	Cts   []int64         `json:"cts"`
	Dts   []int64         `json:"dts"`
	Pts   []int64         `json:"pts"`
	Key   int             `json:"key"`
	Mt    []int           `json:"mt"`
	S1    B               `json:"s1"`
	S2    B               `json:"s2"`
	Has   []int           `json:"has"`
	Val   json.RawMessage `json:"val"`
	Vals  json.RawMessage `json:"vals"`
	Dl    []B             `json:"dl"`
	Chunk int             `json:"chunk"`
	Ver   int             `json:"ver"`
	Fn    string          `json:"fn"`
	Num   int             `json:"num"`
	Hdrs  [][]B           `json:"hdrs"`
	Args  [][]B           `json:"args"`
	Flds  []B             `json:"flds"`
	Sched []int           `json:"sched"`
	Var   int             `json:"var"`
	Once  int             `json:"once"`
	raw   json.RawMessage
}

type scenario struct {
	Sc   int               `json:"sc"`
	C    string            `json:"c"`
	Keep int               `json:"keep"`
	Ops  []json.RawMessage `json:"ops"`
}

// world runs the operations of one scenario.
type world interface {
	do(op *Op) Res
}

func newWorld(c string) world {
	switch c {
	case "gop":
		return &gopWorld{}
	case "ts":
		return newTsWorld()
	case "flv":
		return newFlvWorld()
	case "codec":
		return newCodecWorld()
	case "amf":
		return newAmfWorld()
	case "sip":
		return newSipWorld()
	case "pipe":
		return newPipeWorld()
	case "weave":
		return &weaveWorld{}
	}
	fmt.Fprintln(os.Stderr, "unknown component", c)
	os.Exit(4)
	return nil
}

func ok() Res { return Res{"k": "ok"} }

// outcome turns an error into the event's kind.
func outcome(err error) Res {
	if err != nil {
		return Res{"k": "err", "msg": err.Error()}
	}
	return Res{"k": "ok"}
}

// fullAfter is the way a writer fails that took n bytes (or packets): any
// error, the end-of-input markers of the io package included.
func fullAfter(n int) error {
	kinds := []error{errors.New("goavdrv: writer is full"), io.EOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded,
		net.ErrClosed, context.Canceled, syscall.EPIPE, syscall.ENOSPC, bytes.ErrTooLarge}
	return kinds[n%len(kinds)]
}

// sink records what a component writes; it accepts limit bytes (all if < 0)
// and then fails: for good, or (once) at that write only.
type sink struct {
	b     []byte
	limit int
	once  bool
}

func newSink(limit int) *sink { return &sink{limit: limit} }

func sinkFor(op *Op) *sink { return &sink{limit: op.Fail, once: op.Once != 0} }

func (s *sink) Write(p []byte) (int, error) {
	yield()
	if s.limit >= 0 && len(s.b)+len(p) > s.limit {
		n := s.limit - len(s.b)
		if n < 0 {
			n = 0
		}
		s.b = append(s.b, p[:n]...)
		if s.once {
			s.limit = -1
		}
		return n, fullAfter(len(s.b))
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

func guard(w world, op *Op) (r Res) {
	defer func() {
		if e := recover(); e != nil {
			r = Res{"k": "panic", "msg": fmt.Sprint(e)}
		}
	}()
	r = w.do(op)
	if k, can := w.(keeps); can && keeping {
		gave, given, n := k.look()
		r = Res{"k": r["k"], "gave": gave, "given": given, "n": n}
	}
	return r
}

var (
	outMu  sync.Mutex
	outBuf *bufio.Writer
	outF   *os.File
)

func emit(sc, i int, a json.RawMessage, r Res) {
	line, err := json.Marshal(struct {
		Sc int             `json:"sc"`
		I  int             `json:"i"`
		A  json.RawMessage `json:"a"`
		R  Res             `json:"r"`
	}{sc, i, a, r})
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(4)
	}
	outMu.Lock()
	outBuf.Write(line)
	outBuf.WriteByte('\n')
	outMu.Unlock()
}

func main() {
	in := flag.String("in", "", "scenarios")
	out := flag.String("out", "", "events")
	opTimeout := flag.Duration("optimeout", 20*time.Second, "per-operation limit")
	flag.Parse()
	debug.SetMaxStack(512 << 20)

	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	outF, err = os.OpenFile(*out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	outBuf = bufio.NewWriterSize(outF, 1<<20)

	// watchdog: an operation that does not return is an event of its own
	type cur struct {
		sc, i int
		a     json.RawMessage
		t     time.Time
	}
	var mu sync.Mutex
	var c *cur
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			mu.Lock()
			if c != nil && time.Since(c.t) > *opTimeout {
				emit(c.sc, c.i, c.a, Res{"k": "hang"})
				outMu.Lock()
				outBuf.Flush()
				outF.Sync()
				os.Exit(3)
			}
			mu.Unlock()
		}
	}()

	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var s scenario
			if e := json.Unmarshal(line, &s); e != nil {
				fmt.Fprintln(os.Stderr, "scenario:", e)
				os.Exit(4)
			}
			w := newWorld(s.C)
			keeping = s.Keep != 0
			for i, raw := range s.Ops {
				var op Op
				if e := json.Unmarshal(raw, &op); e != nil {
					fmt.Fprintln(os.Stderr, "op:", e, string(raw))
					os.Exit(4)
				}
				op.raw = raw
				mu.Lock()
				c = &cur{s.Sc, i, raw, time.Now()}
				mu.Unlock()
				// what was executed so far survives a crash of the process
				outMu.Lock()
				outBuf.Flush()
				outMu.Unlock()
				r := guard(w, &op)
				mu.Lock()
				c = nil
				mu.Unlock()
				emit(s.Sc, i, op.raw, r)
				if r["k"] == "panic" {
					break // the object's state is undefined from here on
				}
			}
		}
		if err != nil {
			break
		}
	}
	outMu.Lock()
	outBuf.Flush()
	outMu.Unlock()
}
