package main

import (
	"io"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"
)

// hdr is a media header built directly, for muxer-level calls.
type hdr struct{ key bool }

func (h hdr) IsKeyFrame() bool       { return h.key }
func (h hdr) IsInterFrame() bool     { return !h.key }
func (h hdr) IsSeqHdr() bool         { return false }
func (h hdr) IsEndOfSeq() bool       { return false }
func (h hdr) IsCodecAvc() bool       { return true }
func (h hdr) CodecID() uint8         { return 7 }
func (h hdr) CompositionTime() int32 { return 0 }
func (h hdr) SoundFormat() uint8     { return 10 }
func (h hdr) AACType() uint8         { return 1 }
func (h hdr) IsSoundAAC() bool       { return true }
func (h hdr) IsSoundMP3() bool       { return false }
func (h hdr) IsAACSeqHdr() bool      { return false }

// split cuts a transport stream into its 188-byte packets.
func split(b []byte) []B {
	out := []B{}
	for len(b) > 0 {
		n := 188
		if len(b) < n {
			n = len(b)
		}
		out = append(out, B(b[:n]))
		b = b[n:]
	}
	return out
}

// limbs: most significant first, 15 bits each.
func fromLimbs(l []int64) int64 {
	var v int64
	for _, x := range l {
		v = v<<15 + x
	}
	return v
}

type pktTable map[int]*packet.Packet

// get returns packet n of the scenario (a new one for n = 0), demuxed when asked.
func (t pktTable) get(op *Op) (*packet.Packet, error) {
	p, known := t[op.N]
	if !known || op.N == 0 {
		p = dressed(&packet.Packet{Type: op.T, TimeStamp: uint32(op.N), Data: roomy(op.Data)}, op.Data)
		if op.N != 0 {
			t[op.N] = p
		}
		return p, flv.NewDemuxer().Demux(p)
	}
	if op.Dm == 1 {
		return p, flv.NewDemuxer().Demux(p)
	}
	return p, nil
}

type tsWorld struct {
	keeper
	mx   *ts.Mixer
	mu   *ts.Muxer
	ds   *table.Descriptor
	pkts pktTable
}

func newTsWorld() *tsWorld {
	return &tsWorld{mx: ts.NewMixer(io.Discard), mu: ts.NewMuxer(), ds: table.NewDescriptor(), pkts: pktTable{}}
}

func metadataOf(op *Op) amf.Object {
	md := amf.Object{}
	if len(op.Has) == 2 {
		if op.Has[0] == 1 {
			md["Provider"] = string(op.S1)
		} else if op.Has[0] == 2 {
			md["Provider"] = 1.5
		}
		if op.Has[1] == 1 {
			md["Service"] = string(op.S2)
		} else if op.Has[1] == 2 {
			md["Service"] = true
		}
	}
	return md
}

func (w *tsWorld) do(op *Op) Res {
	switch op.Op {
	case "new":
		w.mx = ts.NewMixer(newSink(-1))
		w.mu = ts.NewMuxer()
		w.ds = table.NewDescriptor()
		w.pkts = pktTable{}
		return ok()
	case "md":
		return outcome(w.mx.SaveMetadata(metadataOf(op)))
	case "avch", "aach":
		p, err := w.pkts.get(op)
		if err != nil {
			return Res{"k": "skip"}
		}
		s := takeSnap(p)
		w.takes(bytesOf(p.Data[:cap(p.Data)]))
		out := newSink(-1)
		w.mx.SetWriter(out)
		if op.Op == "avch" {
			err = w.mx.SaveAVCHeader(p)
		} else {
			err = w.mx.SaveAACHeader(p)
		}
		r := outcome(err)
		r["same"] = b2i(s.same())
		p.Media = s.c.Media
		r["core"] = b2i(s.same())
		r["out"] = split(out.b)
		return r
	case "hdr":
		out := sinkFor(op)
		w.mx.SetWriter(out)
		r := outcome(w.mx.SetTsHeader())
		r["out"] = split(out.b)
		return r
	case "upd":
		p := dressed(&packet.Packet{Type: op.T, TimeStamp: 9}, op.Data)
		return outcome(w.mx.Update(p, uint32(fromLimbs(op.Ts)), uint32(fromLimbs(op.Cts))))
	case "mux":
		p, err := w.pkts.get(op)
		if err != nil {
			return Res{"k": "skip"}
		}
		s := takeSnap(p)
		w.takes(bytesOf(p.Data[:cap(p.Data)]))
		out := sinkFor(op)
		w.mx.SetWriter(out)
		r := outcome(w.mx.Mux(p))
		r["out"] = split(out.b)
		r["same"] = b2i(s.same())
		return r
	case "mmux": // muxer level: the elementary stream is given
		p := dressed(&packet.Packet{Type: op.T, TimeStamp: 9, Header: hdr{op.Key == 1}, Media: roomy(op.Data)}, op.Data)
		w.takes(packetOf(p))
		s := takeSnap(p)
		out := sinkFor(op)
		r := outcome(w.mu.Mux(p, fromLimbs(op.Dts), fromLimbs(op.Pts), out))
		r["out"] = split(out.b)
		r["same"] = b2i(s.same())
		return r
	case "life": // the calls of op.Mt over and over, of which only the counters are told
		return w.life(op)
	case "sdt":
		d := table.NewDescriptor()
		if err := d.Service(byte(op.Num), string(op.S1), string(op.S2)); err != nil {
			return outcome(err)
		}
		r := ok()
		desc := append([]byte(nil), d.GetBuffer().Bytes()...)
		r["out"] = split(append([]byte(nil), w.mu.SDT(d.GetBuffer())...))
		r["desc"] = B(desc)
		return r
	case "pat":
		r := ok()
		r["out"] = split(append([]byte(nil), w.mu.PAT()...))
		return r
	case "pmt":
		r := ok()
		r["out"] = split(append([]byte(nil), w.mu.PMT(op.Mt...)...))
		return r
	case "dsdt": // a table with the descriptors collected so far
		r := ok()
		r["out"] = split(append([]byte(nil), w.mu.SDT(w.ds.GetBuffer())...))
		r["desc"] = B(append([]byte(nil), w.ds.GetBuffer().Bytes()...))
		return r
	case "desc", "dadd": // a descriptor on its own, or after others
		d := w.ds
		if op.Op == "desc" {
			d = table.NewDescriptor()
		}
		var err error
		switch op.Fn {
		case "service":
			err = d.Service(byte(op.Num), string(op.S1), string(op.S2))
		case "network":
			err = d.NetworkName(string(op.S1))
		case "country":
			err = d.CountryAvailability(op.Key == 1, uint32(op.Num))
		}
		r := outcome(err)
		r["desc"] = B(append([]byte(nil), d.GetBuffer().Bytes()...))
		return r
	case "crc":
		c := ts.GenerateCrc32(op.Data)
		r := ok()
		r["hi"] = int(c >> 16)
		r["lo"] = int(c & 0xffff)
		return r
	}
	panic("driver: unknown op " + op.Op)
}

// life makes the same calls op.Num times: for each PID, how many packets came, the
// first and the last continuity counter and where one did not follow the one before.
func (w *tsWorld) life(op *Op) Res {
	type run struct{ n, first, last, jumps int }
	runs := map[int]*run{}
	whole := 1
	tell := func(b []byte) {
		if len(b)%188 != 0 {
			whole = 0
		}
		for ; len(b) >= 188; b = b[188:] {
			pid, cc := int(b[1]&0x1f)<<8|int(b[2]), int(b[3]&0x0f)
			r := runs[pid]
			if r == nil {
				runs[pid] = &run{1, cc, cc, 0}
				continue
			}
			if cc != (r.last+1)&15 {
				r.jumps++
			}
			r.n, r.last = r.n+1, cc
		}
	}
	desc := table.NewDescriptor()
	if err := desc.Service(1, "A", "B"); err != nil {
		return outcome(err)
	}
	for i := 0; i < op.Num; i++ {
		for _, x := range op.Mt {
			var err error
			out := newSink(-1)
			switch x {
			case 0, 1:
				p := &packet.Packet{Type: x, Header: hdr{op.Key == 1}, Media: append([]byte(nil), op.Data...)}
				err = w.mu.Mux(p, int64(i), int64(i), out)
			case 10:
				out.b = append(out.b, w.mu.PAT()...)
			case 11:
				out.b = append(out.b, w.mu.PMT(0, 1)...)
			case 12:
				out.b = append(out.b, w.mu.SDT(desc.GetBuffer())...)
			case 20:
				w.mx.SetWriter(out)
				err = w.mx.SetTsHeader()
			}
			if err != nil {
				return outcome(err)
			}
			tell(out.b)
		}
	}
	r := ok()
	r["whole"] = whole
	all := []interface{}{}
	for pid := 0; pid < 1<<13; pid++ {
		if x := runs[pid]; x != nil {
			all = append(all, map[string]interface{}{"pid": pid, "n": x.n % 16, "first": x.first, "last": x.last, "jumps": x.jumps})
		}
	}
	r["runs"] = all
	return r
}
