package main

import (
	"bytes"
	"strings"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
)

type flvWorld struct {
	keeper
	mx   *flv.Mixer
	pkts pktTable
	tag  *flv.Tag
}

func newFlvWorld() *flvWorld {
	return &flvWorld{mx: flv.NewMixer(newSink(-1)), pkts: pktTable{}, tag: &flv.Tag{}}
}

// describe lists everything a demuxed header tells.
func describe(h packet.Header, p *packet.Packet) Res {
	r := ok()
	vh := h.(packet.VideoPacketHeader)
	ah := h.(packet.AudioPacketHeader)
	r["key"] = b2i(vh.IsKeyFrame())
	r["inter"] = b2i(vh.IsInterFrame())
	r["seq"] = b2i(vh.IsSeqHdr())
	r["eos"] = b2i(vh.IsEndOfSeq())
	r["avc"] = b2i(vh.IsCodecAvc())
	r["codec"] = int(vh.CodecID())
	r["cts"] = int(vh.CompositionTime())
	r["fmt"] = int(ah.SoundFormat())
	r["aactype"] = int(ah.AACType())
	r["aac"] = b2i(ah.IsSoundAAC())
	r["mp3"] = b2i(ah.IsSoundMP3())
	r["aacseq"] = b2i(ah.IsAACSeqHdr())
	return r
}

func (w *flvWorld) do(op *Op) Res {
	switch op.Op {
	case "new":
		k := w.keeper
		*w = *newFlvWorld()
		w.keeper = k
		return ok()
	case "demux":
		p := dressed(&packet.Packet{Type: op.T, TimeStamp: 77, Data: roomy(op.Data)}, op.Data)
		if again, known := w.pkts[-op.N]; known && op.N != 0 { // the same packet, filled anew
			again.Type, again.TimeStamp, again.StreamID, again.Baseline, again.Data = p.Type, p.TimeStamp, p.StreamID, p.Baseline, p.Data
			p = again
		} else if op.N != 0 {
			w.pkts[-op.N] = p
		}
		s := takeSnap(p)
		if op.N != 0 {
			s = takeSnap(&packet.Packet{Type: p.Type, TimeStamp: p.TimeStamp, StreamID: p.StreamID, Baseline: p.Baseline, Data: p.Data})
		}
		err := flv.NewDemuxer().Demux(p)
		if err != nil {
			return outcome(err)
		}
		r := describe(p.Header, p)
		r["media"] = B(append([]byte(nil), p.Media...))
		if op.N == 0 { // (a packet filled anew gives new results in the old place)
			w.gives(packetOf(p))
		}
		q := *p
		s.p = &q
		q.Media, q.Header = nil, nil
		r["same"] = b2i(s.same())
		return r
	case "tag": // one Tag object, parsed again and again
		n, err := w.tag.ParseMediaTagHeader(roomy(op.Data), op.T)
		if err != nil {
			w.tag = &flv.Tag{}
			return outcome(err)
		}
		r := describe(w.tag, nil)
		r["n"] = n
		return r
	case "md":
		v := decodeVal(op.Val)
		o, isObj := v.(amf.Object)
		if !isObj {
			return Res{"k": "skip"}
		}
		if op.Num > 0 { // with a string of that many bytes besides
			o["big"] = strings.Repeat("x", op.Num)
		}
		w.takes(valueOf(o))
		return outcome(w.mx.SaveMetadata(o))
	case "avch", "aach":
		data := op.Data
		if op.Num > 0 {
			data = make([]byte, op.Num)
		}
		p := dressed(&packet.Packet{Type: op.T, TimeStamp: 0x01020304, Data: roomy(data)}, data)
		s := takeSnap(p)
		w.takes(packetOf(p))
		out := newSink(-1)
		w.mx.SetWriter(out)
		var err error
		if op.Op == "avch" {
			err = w.mx.SaveAVCHeader(p)
		} else {
			err = w.mx.SaveAACHeader(p)
		}
		r := outcome(err)
		r["out"] = B(out.b)
		r["same"] = b2i(s.same())
		return r
	case "hdr":
		out := sinkFor(op)
		w.mx.SetWriter(out)
		r := outcome(w.mx.SetFlvHeader())
		r["out"] = B(out.b)
		return r
	case "mux":
		data := op.Data
		if op.Num > 0 { // so many bytes more
			data = make([]byte, len(op.Data)+op.Num)
			for i := copy(data, op.Data); i < len(data); i++ {
				data[i] = byte(i * 7)
			}
		}
		p, known := w.pkts[op.N]
		if !known || op.N == 0 {
			p = dressed(&packet.Packet{Type: op.T, TimeStamp: 0xfeff0000, Data: roomy(data)}, data)
			if op.N != 0 {
				w.pkts[op.N] = p
			}
		}
		s := takeSnap(p)
		w.takes(packetOf(p))
		out := sinkFor(op)
		w.mx.SetWriter(out)
		r := outcome(w.mx.Mux(p, uint32(fromLimbs(op.Ts))))
		if op.Num > 0 { // only the frame of a large tag is logged
			n := len(out.b)
			r["len"] = n
			body := 0
			if n >= 15 {
				// the data, or what follows its first bytes
				if skip := len(data) + 15 - n; skip >= 0 {
					body = b2i(bytes.Equal(out.b[11:n-4], data[skip:]))
				}
				r["out"] = B(append(append([]byte(nil), out.b[:11]...), out.b[n-4:]...))
			} else {
				r["out"] = B(out.b)
			}
			r["body"] = body
		} else {
			r["out"] = B(out.b)
		}
		r["same"] = b2i(s.same())
		return r
	case "addmeta", "delmeta", "adddel":
		data := roomy(op.Data)
		w.takes(whole(data))
		given := clone(data)
		var out []byte
		var err error
		if op.Op != "delmeta" {
			out, err = amf.AddMetaHeader(data, amf.NewEnDecAMF0())
			w.gives(bytesOf(out))
		} else {
			out, err = amf.DelMetaHeader(data, amf.NewEnDecAMF0())
			w.gives(bytesOf(out))
		}
		if op.Op == "adddel" && err == nil {
			out, err = amf.DelMetaHeader(out, amf.NewEnDecAMF0())
			w.gives(bytesOf(out))
		}
		r := outcome(err)
		if op.Op != "adddel" || err == nil {
			r["out"] = B(append([]byte(nil), out...))
		}
		r["same"] = b2i(bytes.Equal(data[:cap(data)], given))
		return r
	}
	panic("driver: unknown op " + op.Op)
}
