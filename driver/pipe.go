package main

import (
	"bytes"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
)

// pipeWorld is a small media server built from the library: one publisher,
// a GOP cache, and consumers that join at any time and want FLV or TS. Every
// packet object is shared between the cache and all consumers.
type pipeWorld struct {
	keeper
	cache *gop.Cache
	cons  map[int]*consumer
	order []int
	snaps []snap
	n     int
}

type consumer struct {
	kind  string
	out   *sink
	flv   *flv.Mixer
	ts    *ts.Mixer
	queue []*packet.Packet
	err   int
}

// drain delivers what is still queued, at most n packets (all if n < 0).
func (c *consumer) drain(n int) {
	for ; n != 0 && len(c.queue) > 0; n-- {
		p := c.queue[0]
		c.queue = c.queue[1:]
		c.Write(p)
	}
}

func newPipeWorld() *pipeWorld {
	return &pipeWorld{cache: gop.NewCache(1), cons: map[int]*consumer{}}
}

func isVideoSeq(p *packet.Packet) bool {
	h, ok := p.Header.(packet.VideoPacketHeader)
	return ok && p.Type == packet.PktVideo && h.IsSeqHdr()
}

func isAudioSeq(p *packet.Packet) bool {
	h, ok := p.Header.(packet.AudioPacketHeader)
	return ok && p.Type == packet.PktAudio && h.IsSoundAAC() && h.IsAACSeqHdr()
}

// private is a copy of p: saving a sequence header for TS leaves Media on the
// mixer's own buffer, which other consumers must not see (a known finding).
func private(p *packet.Packet) *packet.Packet {
	q := *p
	return &q
}

func (c *consumer) fail(err error) {
	if err != nil {
		c.err++
	}
}

// Write delivers one live packet.
func (c *consumer) Write(p *packet.Packet) error {
	if c.kind == "flv" {
		c.fail(c.flv.Mux(p, p.TimeStamp))
		return nil
	}
	switch {
	case p.Type == packet.PktMetadata:
		return nil
	case isVideoSeq(p):
		c.fail(c.ts.SaveAVCHeader(private(p)))
	case isAudioSeq(p):
		c.fail(c.ts.SaveAACHeader(private(p)))
	case p.Type == packet.PktVideo:
		c.fail(c.ts.Update(p, p.TimeStamp, uint32(p.Header.(packet.VideoPacketHeader).CompositionTime())))
		c.fail(c.ts.Mux(p))
	default:
		err := c.ts.Update(p, p.TimeStamp, 0)
		if err != nil {
			c.fail(err)
			return nil
		}
		c.fail(c.ts.Mux(p))
	}
	return nil
}

// start sends what a player gets first: the headers, then the cached packets.
func (c *consumer) start(cached []*packet.Packet) {
	for _, p := range cached {
		if c.kind == "flv" {
			switch {
			case p.Type == packet.PktMetadata:
				data, err := amf.DelMetaHeader(p.Data, amf.NewEnDecAMF0())
				c.fail(err)
				vs, err := amf.NewEnDecAMF0().DecodeBatch(bytes.NewReader(data))
				c.fail(err)
				for _, v := range vs {
					if o, isObj := v.(amf.Object); isObj {
						c.fail(c.flv.SaveMetadata(o))
					}
				}
			case isVideoSeq(p):
				c.fail(c.flv.SaveAVCHeader(p))
			case isAudioSeq(p):
				c.fail(c.flv.SaveAACHeader(p))
			}
			continue
		}
		switch {
		case isVideoSeq(p):
			c.fail(c.ts.SaveAVCHeader(private(p)))
		case isAudioSeq(p):
			c.fail(c.ts.SaveAACHeader(private(p)))
		}
	}
	if c.kind == "flv" {
		c.fail(c.flv.SetFlvHeader())
	} else {
		c.fail(c.ts.SetTsHeader())
	}
	for _, p := range cached {
		if p.Type == packet.PktMetadata || isVideoSeq(p) || isAudioSeq(p) {
			continue
		}
		c.Write(p)
	}
}

func (w *pipeWorld) drop(n int) {
	delete(w.cons, n)
	for k, m := range w.order {
		if m == n {
			w.order = append(w.order[:k:k], w.order[k+1:]...)
			return
		}
	}
}

func (w *pipeWorld) do(op *Op) Res {
	switch op.Op {
	case "new":
		k := w.keeper
		*w = *newPipeWorld()
		w.keeper = k
		w.cache = gop.NewCache(op.Cap)
		return ok()
	case "join":
		c := &consumer{kind: op.Fn, out: newSink(-1)}
		c.flv = flv.NewMixer(c.out)
		c.ts = ts.NewMixer(c.out)
		s := &pktSink{}
		err := w.cache.SendTo(s)
		c.start(s.got)
		w.drop(op.N)
		w.cons[op.N] = c
		w.order = append(w.order, op.N)
		return outcome(err)
	case "leave":
		r := w.collect()
		w.drop(op.N)
		return r
	case "pub":
		p := dressed(&packet.Packet{Type: op.T, TimeStamp: uint32(fromLimbs(op.Ts)), Data: roomy(op.Data)}, op.Data)
		if err := flv.NewDemuxer().Demux(p); err != nil {
			return Res{"k": "skip"}
		}
		w.snaps = append(w.snaps, takeSnap(p))
		w.takes(packetOf(p))
		r := outcome(w.cache.Write(p))
		for _, n := range w.order {
			if c, ok := w.cons[n]; ok {
				c.queue = append(c.queue, p)
				if op.Num == 0 {
					c.drain(-1)
				}
			}
		}
		return r
	case "step":
		w.cons[op.N].drain(1)
		return ok()
	case "check":
		return w.collect()
	}
	panic("driver: unknown op " + op.Op)
}

// collect lists what every consumer received so far.
func (w *pipeWorld) collect() Res {
	r := ok()
	for _, c := range w.cons {
		c.drain(-1)
	}
	mut := 0
	for _, s := range w.snaps {
		if !s.same() {
			mut++
		}
	}
	cons := []interface{}{}
	for _, n := range w.order {
		c, here := w.cons[n]
		if !here {
			continue
		}
		m := Res{"n": n, "kind": c.kind, "err": c.err}
		if c.kind == "flv" {
			m["out"] = B(append([]byte(nil), c.out.b...))
		} else {
			m["out"] = split(append([]byte(nil), c.out.b...))
		}
		cons = append(cons, m)
	}
	r["mut"] = mut
	r["cons"] = cons
	return r
}
