package main

import (
	"bufio"
	"io"
	"sort"

	"github.com/moggle-mog/goav/sips"
)

type sipWorld struct {
	keeper
	h sips.SIPHeader
	s *sips.SIP // its owner, to which header lines are fed one at a time
}

func newSipWorld() *sipWorld {
	s := sips.NewSIP()
	return &sipWorld{h: s.Headers, s: s}
}

func argList(a sips.Args) [][]B {
	ks := []string{}
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := [][]B{}
	for _, k := range ks {
		out = append(out, []B{B(k), B(a[k])})
	}
	return out
}

func hdrList(h sips.SIPHeader) []interface{} {
	ks := []string{}
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []interface{}{}
	for _, k := range ks {
		vs := []B{}
		for _, v := range h[k] {
			vs = append(vs, B(v))
		}
		out = append(out, []interface{}{B(k), vs})
	}
	return out
}

func userRec(u *sips.SIPUser) Res {
	if u == nil {
		return Res{"z": 1}
	}
	return Res{"z": 0, "typ": B(u.URIType), "name": B(u.Name), "user": B(u.User), "host": B(u.Host), "port": B(u.Port), "args": argList(u.Args)}
}

func reqRec(u *sips.SIPRequest) Res {
	if u == nil {
		return Res{"z": 1}
	}
	return Res{"z": 0, "typ": B(u.URIType), "name": B{}, "user": B(u.User), "host": B(u.Host), "port": B(u.Port), "args": argList(u.Args)}
}

func viaRec(v *sips.SIPVia) Res {
	if v == nil {
		return Res{"z": 1}
	}
	return Res{"z": 0, "trans": B(v.Trans), "host": B(v.Host), "port": B(v.Port), "args": argList(v.Args)}
}

func cseqRec(c *sips.SIPCseq) Res {
	if c == nil {
		return Res{"z": 1}
	}
	return Res{"z": 0, "id": B(c.ID), "method": B(c.Method)}
}

func msgRec(s *sips.SIP, err error) Res {
	r := outcome(err)
	if err != nil {
		return r
	}
	r["resp"] = b2i(s.IsResponse)
	r["ver"] = int(s.Version)
	r["method"] = int(s.Method)
	r["code"] = clamp(int(s.ResponseCode))
	r["status"] = B(s.ResponseStatus)
	r["req"] = reqRec(s.Request)
	r["hdrs"] = hdrList(s.Headers)
	r["from"] = userRec(s.From)
	r["to"] = userRec(s.To)
	r["contact"] = userRec(s.Contact)
	r["via"] = viaRec(s.Via)
	r["cseq"] = cseqRec(s.Cseq)
	r["head"] = B(append([]byte(nil), s.LayerContents()...))
	r["body"] = B(append([]byte(nil), s.Payload()...))
	return r
}

// clamp keeps a number within what the specification's checker can count.
func clamp(n int) int {
	if n > 1<<30 || n < -(1<<30) {
		return -1 << 30
	}
	return n
}

// unread is what a buffered reader still holds, and what its source does.
func unread(r *bufio.Reader) B {
	b, _ := io.ReadAll(r)
	return B(b)
}

func mkArgs(l [][]B) sips.Args {
	a := sips.NewArgs()
	for _, p := range l {
		a[string(p[0])] = string(p[1])
	}
	return a
}

func mkUser(op *Op) *sips.SIPUser {
	return &sips.SIPUser{URIType: string(op.Flds[0]), Name: string(op.Flds[1]), User: string(op.Flds[2]),
		Host: string(op.Flds[3]), Port: string(op.Flds[4]), Args: mkArgs(op.Args)}
}

func mkReq(op *Op) *sips.SIPRequest {
	return &sips.SIPRequest{URIType: string(op.Flds[0]), User: string(op.Flds[2]),
		Host: string(op.Flds[3]), Port: string(op.Flds[4]), Args: mkArgs(op.Args)}
}

func (w *sipWorld) reader(op *Op) *bufio.Reader {
	return bufio.NewReader(&feeder{b: op.Data, mode: op.Chunk})
}

// asked is what a message's parsing has taken from the source.
func asked(f *feeder, m Res) Res {
	m["taken"], m["eofs"] = f.pos, f.eofs
	return m
}

func (w *sipWorld) do(op *Op) Res {
	switch op.Op {
	case "new":
		k := w.keeper
		*w = *newSipWorld()
		w.keeper = k
		return ok()
	case "parse":
		rd := w.reader(op)
		s := sips.NewSIP()
		r := msgRec(s, s.Parse(rd))
		w.message(s, r)
		r["rest"] = unread(rd)
		return r
	case "parseb":
		s := sips.NewSIP()
		data := roomy(op.Data)
		w.takes(whole(data))
		r := msgRec(s, s.ParseBytes(data))
		w.message(s, r)
		return r
	case "stream": // messages back to back on one connection
		src := &feeder{b: op.Data, mode: op.Chunk}
		rd := bufio.NewReader(src)
		msgs := []Res{}
		for i := 0; i < op.Num; i++ {
			s := sips.NewSIP()
			m := msgRec(s, s.Parse(rd))
			w.message(s, m)
			msgs = append(msgs, asked(src, m))
			if m["k"] != "ok" {
				break
			}
		}
		r := ok()
		r["msgs"] = msgs
		r["rest"] = unread(rd)
		return r
	case "reenc": // parse, encode, parse again
		s := sips.NewSIP()
		r := ok()
		r["m1"] = msgRec(s, s.ParseBytes(append([]byte(nil), op.Data...)))
		if r["m1"].(Res)["k"] != "ok" {
			return r
		}
		out := s.Bytes()
		w.gives(bytesOf(out))
		w.message(s, ok())
		r["out"] = B(append([]byte(nil), out...))
		s2 := sips.NewSIP()
		r["m2"] = msgRec(s2, s2.ParseBytes(append([]byte(nil), out...)))
		w.message(s2, r["m2"].(Res))
		return r
	case "make": // build a message, encode it, parse what was written
		s := w.make(op)
		res := s.Bytes()
		w.gives(bytesOf(res))
		w.message(s, ok())
		out := append([]byte(nil), res...)
		r := ok()
		r["out"] = B(out)
		s2 := sips.NewSIP()
		r["m2"] = msgRec(s2, s2.ParseBytes(append([]byte(nil), out...)))
		return r
	case "twice": // the same message built once and sent twice
		s := w.make(op)
		out := append([]byte(nil), s.Bytes()...)
		out = append(out, out...)
		rd := bufio.NewReader(&feeder{b: out, mode: op.Chunk})
		r := ok()
		r["out"] = B(out)
		a := sips.NewSIP()
		r["m1"] = msgRec(a, a.Parse(rd))
		w.message(a, r["m1"].(Res))
		b := sips.NewSIP()
		r["m2"] = msgRec(b, b.Parse(rd))
		w.message(b, r["m2"].(Res))
		r["rest"] = unread(rd)
		return r
	case "user":
		u := sips.NewSIPUser(string(op.S1))
		w.gives(func() interface{} { return userRec(u) })
		r := ok()
		r["u"] = userRec(u)
		out := u.String()
		r["out"] = B(out)
		r["u2"] = userRec(sips.NewSIPUser(out))
		r["conv"] = reqRec(sips.NewSIPUser(string(op.S1)).ToRequest())
		return r
	case "userb":
		u := mkUser(op)
		w.takes(func() interface{} { return userRec(u) })
		out := u.String()
		r := ok()
		r["out"] = B(out)
		r["u2"] = userRec(sips.NewSIPUser(out))
		return r
	case "uri":
		u := sips.NewSIPRequest(string(op.S1))
		w.gives(func() interface{} { return reqRec(u) })
		r := ok()
		r["u"] = reqRec(u)
		out := u.String()
		r["out"] = B(out)
		r["u2"] = reqRec(sips.NewSIPRequest(out))
		r["conv"] = userRec(sips.NewSIPRequest(string(op.S1)).ToUser())
		return r
	case "urib":
		u := mkReq(op)
		w.takes(func() interface{} { return reqRec(u) })
		out := u.String()
		r := ok()
		r["out"] = B(out)
		r["u2"] = reqRec(sips.NewSIPRequest(out))
		return r
	case "via":
		v := sips.NewSIPVia(string(op.S1))
		w.gives(func() interface{} { return viaRec(v) })
		r := ok()
		r["u"] = viaRec(v)
		out := v.String()
		r["out"] = B(out)
		r["u2"] = viaRec(sips.NewSIPVia(out))
		return r
	case "viab":
		v := &sips.SIPVia{Trans: string(op.Flds[0]), Host: string(op.Flds[1]), Port: string(op.Flds[2]), Args: mkArgs(op.Args)}
		w.takes(func() interface{} { return viaRec(v) })
		out := v.String()
		r := ok()
		r["out"] = B(out)
		r["u2"] = viaRec(sips.NewSIPVia(out))
		return r
	case "cseq":
		c := sips.NewSIPCseq(string(op.S1))
		w.gives(func() interface{} { return cseqRec(c) })
		r := ok()
		r["u"] = cseqRec(c)
		out := c.String()
		r["out"] = B(out)
		r["u2"] = cseqRec(sips.NewSIPCseq(out))
		return r
	case "auth":
		a := sips.NewSIPAuth(string(op.S1))
		w.gives(func() interface{} { return argList(a.Args) })
		r := ok()
		r["args"] = argList(a.Args)
		return r
	case "pairs":
		r := ok()
		var a sips.Args
		if op.Fn == "semi" {
			a = sips.ParseArgs(string(op.S1))
		} else {
			a = sips.ParseArgsPairs(string(op.S1))
		}
		w.gives(func() interface{} { return argList(a) })
		r["args"] = argList(a)
		return r
	case "list":
		l := []B{}
		xs := sips.NewArgs().ParseList(string(op.S1))
		w.gives(func() interface{} { return append([]string(nil), xs...) })
		for _, x := range xs {
			l = append(l, B(x))
		}
		r := ok()
		r["list"] = l
		return r
	case "argstr":
		a := mkArgs(op.Args)
		w.takes(func() interface{} { return argList(a) })
		r := ok()
		var s string
		switch op.Fn {
		case "semi":
			s = a.SemicolonString()
		case "comma":
			s = a.CommaString()
		case "crlf":
			s = a.CRLFString()
		}
		r["out"] = B(s)
		if op.Fn == "semi" {
			r["args"] = argList(sips.ParseArgs(s))
		} else {
			r["args"] = argList(sips.ParseArgsPairs(s))
		}
		return r
	case "argop": // Args as a map
		a := mkArgs(op.Args)
		r := ok()
		r["got"] = B(a.Get(string(op.S1)))
		a.Set(string(op.S1), string(op.S2))
		r["set"] = argList(a)
		a.Del(string(op.S1))
		r["del"] = argList(a)
		return r
	// a header, by itself
	case "hset":
		w.h.SetFirstHeader(string(op.S1), string(op.S2))
		return w.hdr()
	case "hraw":
		vs := []string{}
		for _, v := range op.Flds {
			vs = append(vs, string(v))
		}
		w.h[string(op.S1)] = vs
		return w.hdr()
	case "hline": // a received header line
		line := roomy(op.Data)
		w.takes(whole(line))
		w.s.ParseHeader(line)
		return w.hdr()
	case "hcopy": // into a header that holds args
		d := sips.NewSIPHeader()
		for _, a := range op.Args {
			d[string(a[0])] = append(d[string(a[0])], string(a[1]))
		}
		ns := []string{}
		for _, n := range op.Flds {
			ns = append(ns, string(n))
		}
		d.CopyFrom(w.h, ns...)
		r := w.hdr()
		r["copy"] = hdrList(d)
		w.gives(func() interface{} { return hdrList(d) })
		return r
	case "hshare": // another header takes over the values found here, and goes on
		d := sips.NewSIPHeader()
		d["x-share"] = w.h.GetHeader(string(op.S1))
		d.SetFirstHeader("X-Share", string(op.S2))
		r := w.hdr()
		r["copy"] = hdrList(d)
		return r
	case "hget":
		r := w.hdr()
		vs := []B{}
		for _, v := range w.h.GetHeader(string(op.S1)) {
			vs = append(vs, B(v))
		}
		r["all"] = vs
		r["first"] = B(w.h.GetFirstHeader(string(op.S1)))
		return r
	case "hnamed": // the named accessors
		r := w.hdr()
		n, err := w.h.GetContentLength()
		r["clk"] = kindOf(err)
		if err != nil || n > 1<<30 || n < -(1<<30) {
			n = 0
		}
		r["cl"] = n
		r["callid"] = B(w.h.GetCallID())
		r["expires"] = B(w.h.GetExpires())
		from, to, contact, cseq, via := w.h.GetSIPFrom(), w.h.GetSIPTo(), w.h.GetSIPContact(), w.h.GetSIPCseq(), w.h.GetSIPVia()
		w.gives(func() interface{} {
			return []Res{userRec(from), userRec(to), userRec(contact), cseqRec(cseq), viaRec(via)}
		})
		r["from"] = userRec(from)
		r["to"] = userRec(to)
		r["contact"] = userRec(contact)
		r["cseq"] = cseqRec(cseq)
		r["via"] = viaRec(via)
		r["auth"] = argList(w.h.GetAuthorization().Args)
		return r
	case "hsetn":
		switch op.Fn {
		case "content-length":
			w.h.SetContentLength(op.Num)
		case "call-id":
			w.h.SetCallID(string(op.S1))
		case "max-forwards":
			w.h.SetMaxForwards(op.Num)
		case "reason-phrase":
			w.h.SetReasonPhrase(string(op.S1))
		case "supported":
			w.h.SetSupported(string(op.S1))
		case "subject":
			w.h.SetSubject(string(op.S1))
		case "content-type":
			w.h.SetContentType(string(op.S1))
		case "allow":
			w.h.SetAllow(string(op.S1))
		case "from":
			u := mkUser(op)
			w.takes(func() interface{} { return userRec(u) })
			w.h.SetSIPFrom(u)
		case "to":
			w.h.SetSIPTo(mkUser(op))
		case "contact":
			u := mkUser(op)
			w.takes(func() interface{} { return userRec(u) })
			w.h.SetSIPContact(u)
		case "cseq":
			w.h.SetSIPCseq(&sips.SIPCseq{ID: string(op.S1), Method: string(op.S2)})
		case "via":
			w.h.SetSIPVia(&sips.SIPVia{Trans: string(op.Flds[0]), Host: string(op.Flds[3]), Port: string(op.Flds[4]), Args: mkArgs(op.Args)})
		default:
			panic("driver: unknown setter " + op.Fn)
		}
		return w.hdr()
	case "hbytes":
		r := w.hdr()
		out := w.h.Bytes()
		w.gives(bytesOf(out))
		r["out"] = B(append([]byte(nil), out...))
		return r
	// tables
	case "status":
		r := ok()
		r["text"] = B(sips.SIPStatus(op.Num).Text())
		r["str"] = B(sips.SIPStatus(op.Num).String())
		r["int"] = sips.SIPStatus(op.Num).Int()
		return r
	case "method":
		m, err := sips.GetSIPMethod(string(op.S1))
		r := outcome(err)
		r["num"] = int(m)
		r["str"] = B(m.String())
		return r
	case "version":
		v, err := sips.GetSIPVersion(string(op.S1))
		r := outcome(err)
		r["num"] = int(v)
		r["str"] = B(v.String())
		return r
	case "substr":
		r := ok()
		r["out"] = B(sips.Substring(string(op.S1), op.Num, op.N))
		return r
	}
	panic("driver: unknown op " + op.Op)
}

func (w *sipWorld) hdr() Res {
	r := ok()
	r["hdrs"] = hdrList(w.h)
	return r
}

// make builds the message an operation describes.
func (w *sipWorld) make(op *Op) *sips.SIP {
	h := sips.NewSIPHeader()
	for _, p := range op.Hdrs {
		vs := []string{}
		for _, v := range p[1:] {
			vs = append(vs, string(v))
		}
		h[string(p[0])] = vs
	}
	var s *sips.SIP
	if op.Fn == "resp" {
		s = sips.MakeResponse(sips.SIPStatus(op.Num), h, append([]byte(nil), op.Data...))
	} else {
		s = sips.MakeRequest(sips.SIPMethod(op.Num), mkReq(op), h, append([]byte(nil), op.Data...))
	}
	if op.Ver == 1 {
		s.Version = sips.SIPVersion1
	}
	return s
}

// message registers a message that was parsed or sent.
func (w *sipWorld) message(s *sips.SIP, r Res) {
	if r["k"] == "ok" {
		w.gives(func() interface{} { return msgRec(s, nil) })
	}
}
