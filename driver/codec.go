package main

import (
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
)

type codecWorld struct {
	keeper
	p    *parser.CodecParser
	pkts pktTable
}

func newCodecWorld() *codecWorld {
	return &codecWorld{p: parser.NewCodecParser(), pkts: pktTable{}}
}

// ownHeader describes a packet that no demuxer of the library has seen.
type ownHeader struct{ f []int }

func (h ownHeader) IsKeyFrame() bool       { return h.f[1] == 1 }
func (h ownHeader) IsInterFrame() bool     { return h.f[1] != 1 }
func (h ownHeader) IsSeqHdr() bool         { return h.f[1] == 1 }
func (h ownHeader) IsEndOfSeq() bool       { return false }
func (h ownHeader) IsCodecAvc() bool       { return h.f[0] == 7 }
func (h ownHeader) CodecID() uint8         { return uint8(h.f[0]) }
func (h ownHeader) CompositionTime() int32 { return 0 }
func (h ownHeader) SoundFormat() uint8     { return uint8(h.f[2]) }
func (h ownHeader) AACType() uint8         { return uint8(h.f[3]) }
func (h ownHeader) IsSoundAAC() bool       { return h.f[2] == 10 }
func (h ownHeader) IsSoundMP3() bool       { return h.f[2] == 2 }
func (h ownHeader) IsAACSeqHdr() bool      { return h.f[2] == 10 && h.f[3] == 0 }

func (w *codecWorld) do(op *Op) Res {
	switch op.Op {
	case "new":
		w.p = parser.NewCodecParser()
		w.pkts = pktTable{}
		return ok()
	case "parse":
		p, err := w.pkts.get(op)
		if err != nil {
			return Res{"k": "skip"}
		}
		s := takeSnap(p)
		q := *p
		w.takes(func() interface{} { return Res{"data": B(q.Data[:cap(q.Data)]), "media": B(q.Media[:cap(q.Media)])} })
		out := sinkFor(op)
		r := outcome(w.p.Parse(p, out))
		r["out"] = B(out.b)
		r["same"] = b2i(s.same())
		return r
	case "raw": // a packet of the caller's own making; has: header, media; mt: codec, sequence header, format, AAC type
		p := dressed(&packet.Packet{Type: op.T, TimeStamp: 5}, op.Data)
		if op.Has[0] == 1 {
			p.Header = &ownHeader{op.Mt}
		}
		if op.Has[1] == 1 {
			p.Media = roomy(op.Data)
		}
		s := takeSnap(p)
		w.takes(packetOf(p))
		out := sinkFor(op)
		r := outcome(w.p.Parse(p, out))
		r["out"] = B(out.b)
		r["same"] = b2i(s.same())
		return r
	case "rate":
		n, err := w.p.SampleRate()
		r := outcome(err)
		r["rate"] = n
		return r
	}
	panic("driver: unknown op " + op.Op)
}
