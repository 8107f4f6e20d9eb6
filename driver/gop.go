package main

import (
	"bytes"
	"fmt"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
)

// snap is a private copy of a packet, to see whether somebody changed it.
type snap struct {
	p    *packet.Packet
	c    packet.Packet
	data []byte
	med  []byte
	tag  flv.Tag
}

func takeSnap(p *packet.Packet) snap {
	s := snap{p: p, c: *p, data: clone(p.Data), med: clone(p.Media)}
	if t, isTag := p.Header.(*flv.Tag); isTag && t != nil {
		s.tag = *t
	}
	return s
}

// clone copies a slice with its spare room: that is somebody else's memory.
func clone(b []byte) []byte {
	return append([]byte(nil), b[:cap(b)]...)
}

func (s snap) same() bool {
	p := s.p
	if t, isTag := p.Header.(*flv.Tag); isTag && t != nil && *t != s.tag {
		return false
	}
	return p.Type == s.c.Type && p.TimeStamp == s.c.TimeStamp && p.Baseline == s.c.Baseline &&
		p.StreamID == s.c.StreamID && p.Header == s.c.Header &&
		len(p.Data) == len(s.c.Data) && len(p.Media) == len(s.c.Media) &&
		bytes.Equal(p.Data[:cap(p.Data)], s.data) && bytes.Equal(p.Media[:cap(p.Media)], s.med) && (p.Media == nil) == (s.c.Media == nil)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type pktSink struct {
	got  []*packet.Packet
	fail int // the fail-th write and all later ones fail, 0: none
	once bool
	n    int
}

func (s *pktSink) Write(p *packet.Packet) error {
	yield()
	s.n++
	if s.fail > 0 && (s.n == s.fail || s.n > s.fail && !s.once) {
		return fullAfter(len(s.got))
	}
	s.got = append(s.got, p)
	return nil
}

type gopWorld struct {
	keeper
	c     *gop.Cache
	ids   map[*packet.Packet]int
	snaps []snap
}

func (w *gopWorld) do(op *Op) Res {
	switch op.Op {
	case "new":
		w.c = gop.NewCache(op.Cap)
		w.ids = map[*packet.Packet]int{}
		w.snaps = nil
		return ok()
	case "write":
		p := dressed(&packet.Packet{Type: op.T, TimeStamp: uint32(fromLimbs(op.Ts)), Data: roomy(op.Data)}, op.Data)
		if op.T <= packet.PktMetadata {
			if err := flv.NewDemuxer().Demux(p); err != nil {
				return Res{"k": "skip"}
			}
		}
		w.ids[p] = op.N
		w.snaps = append(w.snaps, takeSnap(p))
		w.takes(packetOf(p))
		var err error
		switch op.Fn {
		case "video":
			err = w.c.WriteVideo(p)
		case "audio":
			err = w.c.WriteAudio(p)
		default:
			err = w.c.Write(p)
		}
		return outcome(err)
	case "send":
		s := &pktSink{fail: op.Fail, once: op.Num == 1}
		err := w.c.SendTo(s)
		got := s.got
		ids := w.ids
		w.gives(func() interface{} { return idsOf(ids, got) })
		seen := []int{}
		for _, p := range s.got {
			id, ok := w.ids[p]
			if !ok {
				id = -1
			}
			seen = append(seen, id)
		}
		mut := 0
		for _, s := range w.snaps {
			if !s.same() {
				mut++
			}
		}
		r := outcome(err)
		r["ids"] = seen
		r["mut"] = mut
		return r
	}
	panic("driver: unknown op " + op.Op)
}

func idsOf(ids map[*packet.Packet]int, ps []*packet.Packet) []int {
	out := []int{}
	for _, p := range ps {
		out = append(out, ids[p])
	}
	return out
}

// packetOf renders a packet.
func packetOf(p *packet.Packet) func() interface{} {
	return func() interface{} {
		h := ""
		if t, isTag := p.Header.(*flv.Tag); isTag && t != nil {
			h = fmt.Sprintf("%v", *t)
		}
		return Res{"t": p.Type, "ts": p.TimeStamp, "b": p.Baseline, "id": p.StreamID, "h": h,
			"data": B(p.Data[:cap(p.Data)]), "dl": len(p.Data), "media": B(p.Media[:cap(p.Media)]), "ml": len(p.Media), "nil": p.Media == nil}
	}
}
