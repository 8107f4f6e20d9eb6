package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"reflect"
	"runtime"
	"sort"
	"syscall"
	"time"

	"github.com/moggle-mog/goav/amf"
)

// Values are written as tagged JSON arrays:
//
//	["nil"] ["bool",0|1] ["num",[8 bytes]] ["str",[..]] ["date",[8 bytes of the ms double]]
//	["obj",[[key,val]..]] ["typed",[type],[[key,val]..]] ["arr",[val..]] ["bin",[..]]
//	["int","i8|..|u64",[8 bytes, two's complement]] ["f32",[8 bytes]] ["strs",[[..]..]] ["fill",len,byte] ["bad",kind]
//
// A further number picks another Go form of the same value: a named type, an array,
// a slice of one type, nil for an empty map or slice.
//
// and, for decoded values, also ["i29",n] ["ecma",[val..],[[key,val]..]] ["cyc",up] ["big"].

func f64(b []byte) float64 {
	var x [8]byte
	copy(x[:], b)
	return math.Float64frombits(binary.BigEndian.Uint64(x[:]))
}

func fbytes(f float64) B {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, math.Float64bits(f))
	return b
}

func dec(raw json.RawMessage, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic("driver: value: " + err.Error())
	}
}

func decodePairs(raw json.RawMessage) amf.Object {
	var ps []json.RawMessage
	dec(raw, &ps)
	o := amf.Object{}
	for _, p := range ps {
		var kv []json.RawMessage
		dec(p, &kv)
		var k B
		dec(kv[0], &k)
		o[string(k)] = decodeVal(kv[1])
	}
	return o
}

type (
	aString string
	aNumber float64
	aBool   bool
)

// asForm is a as another kind of Go array or slice.
func asForm(a amf.Array, form int) interface{} {
	any := reflect.TypeOf((*interface{})(nil)).Elem()
	elem := any
	if form >= 4 && len(a) > 0 && a[0] != nil {
		elem = reflect.TypeOf(a[0])
		for _, v := range a {
			if v == nil || reflect.TypeOf(v) != elem {
				elem = any
			}
		}
		if elem.Kind() == reflect.Uint8 { // a slice of bytes is another value
			elem = any
		}
	}
	switch form {
	case 1:
		if len(a) == 0 {
			return amf.Array(nil)
		}
	case 2, 4:
		s := reflect.MakeSlice(reflect.SliceOf(elem), 0, len(a))
		for i := range a {
			v := reflect.New(elem).Elem()
			if a[i] != nil {
				v.Set(reflect.ValueOf(a[i]))
			}
			s = reflect.Append(s, v)
		}
		return s.Interface()
	case 3, 5:
		s := reflect.New(reflect.ArrayOf(len(a), elem)).Elem()
		for i := range a {
			if a[i] != nil {
				s.Index(i).Set(reflect.ValueOf(a[i]))
			}
		}
		return s.Interface()
	}
	return a
}

func decodeVal(raw json.RawMessage) interface{} {
	var t []json.RawMessage
	dec(raw, &t)
	var tag string
	dec(t[0], &tag)
	form := 0
	if n := map[string]int{"bool": 2, "num": 2, "str": 2, "bin": 2, "obj": 2, "arr": 2, "strs": 2, "typed": 3, "bad": 1}[tag]; n > 0 && len(t) > n {
		dec(t[n], &form)
	}
	var b B
	switch tag {
	case "nil":
		return nil
	case "bool":
		var n int
		dec(t[1], &n)
		if form == 1 {
			return aBool(n == 1)
		}
		return n == 1
	case "num":
		dec(t[1], &b)
		if form == 1 {
			return aNumber(f64(b))
		}
		return f64(b)
	case "f32":
		dec(t[1], &b)
		return float32(f64(b))
	case "str":
		dec(t[1], &b)
		if form == 1 {
			return aString(b)
		}
		return string(b)
	case "fill": // a long string of one byte
		var n, c int
		dec(t[1], &n)
		dec(t[2], &c)
		return string(bytes.Repeat([]byte{byte(c)}, n))
	case "bin":
		dec(t[1], &b)
		if form == 1 && len(b) == 0 {
			return []byte(nil)
		}
		return append([]byte{}, b...)
	case "date":
		dec(t[1], &b)
		// milliseconds, and so many nanoseconds and minutes east of Greenwich
		d := time.UnixMilli(int64(f64(b)))
		if len(t) > 2 {
			var ns, zone int
			dec(t[2], &ns)
			dec(t[3], &zone)
			d = d.Add(time.Duration(ns)).In(time.FixedZone("driver", zone*60))
		}
		return d
	case "obj":
		o := decodePairs(t[1])
		if form == 1 && len(o) == 0 {
			return amf.Object(nil)
		}
		return o
	case "typed":
		dec(t[1], &b)
		o := decodePairs(t[2])
		if form == 1 && len(o) == 0 {
			o = nil
		}
		return amf.TypedObject{Type: string(b), Object: o}
	case "arr":
		var vs []json.RawMessage
		dec(t[1], &vs)
		a := amf.Array{}
		for _, v := range vs {
			a = append(a, decodeVal(v))
		}
		return asForm(a, form)
	case "strs":
		var vs []B
		dec(t[1], &vs)
		a := []string{}
		for _, v := range vs {
			a = append(a, string(v))
		}
		if form == 1 && len(a) == 0 {
			return []string(nil)
		}
		return a
	case "int":
		var k string
		dec(t[1], &k)
		dec(t[2], &b)
		n := int64(binary.BigEndian.Uint64(b))
		switch k {
		case "i8":
			return int8(n)
		case "i16":
			return int16(n)
		case "i32":
			return int32(n)
		case "i64":
			return n
		case "int":
			return int(n)
		case "u8":
			return uint8(n)
		case "u16":
			return uint16(n)
		case "u32":
			return uint32(n)
		case "u64":
			return uint64(n)
		case "uint":
			return uint(n)
		}
	case "bad":
		switch form {
		case 1:
			return func() {}
		case 2:
			return struct{ A int }{1}
		case 3:
			return complex(1, 2)
		case 4:
			return map[int]string{1: "a"}
		case 5:
			return (chan int)(nil)
		case 6:
			return uintptr(1)
		}
		return make(chan int)
	}
	panic("driver: unknown value " + tag)
}

type canon struct {
	path  []uintptr
	nodes int // compound values
	leafs int // other values
}

type kv struct {
	k string
	v interface{}
}

func (c *canon) pairs(o map[string]interface{}) []interface{} {
	ks := []string{}
	for k := range o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := []interface{}{}
	for _, k := range ks {
		out = append(out, []interface{}{B(k), c.val(o[k])})
	}
	return out
}

func (c *canon) obj(o map[string]interface{}, f func(ps []interface{}) []interface{}) []interface{} {
	id := reflect.ValueOf(o).Pointer()
	for i, p := range c.path {
		if p == id && id != 0 {
			return []interface{}{"cyc", len(c.path) - i}
		}
	}
	c.path = append(c.path, id)
	r := f(c.pairs(o))
	c.path = c.path[:len(c.path)-1]
	return r
}

// val is v as a tagged value.
func (c *canon) val(v interface{}) []interface{} {
	switch v.(type) {
	case nil, bool, float64, int32, uint32:
		c.leafs++
	default:
		c.nodes++
	}
	if c.nodes > 4000 || c.leafs > 70000 {
		return []interface{}{"big"}
	}
	switch x := v.(type) {
	case nil:
		return []interface{}{"nil"}
	case bool:
		return []interface{}{"bool", b2i(x)}
	case float64:
		return []interface{}{"num", fbytes(x)}
	case string:
		return []interface{}{"str", B(x)}
	case []byte:
		return []interface{}{"bin", B(x)}
	case int32:
		return []interface{}{"i29", x}
	case uint32:
		return []interface{}{"i29", x}
	case time.Time:
		return []interface{}{"date", fbytes(float64(x.UnixMilli()))}
	case amf.Object:
		return c.obj(x, func(ps []interface{}) []interface{} { return []interface{}{"obj", ps} })
	case amf.TypedObject:
		return c.obj(x.Object, func(ps []interface{}) []interface{} { return []interface{}{"typed", B(x.Type), ps} })
	case amf.Array:
		out := []interface{}{}
		for _, e := range x {
			out = append(out, c.val(e))
		}
		return []interface{}{"arr", out}
	}
	// any other shape (an AMF3 array keeps its parts unexported) is read by reflection
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Struct:
		var dense, assoc reflect.Value
		for i := 0; i < rv.NumField(); i++ {
			switch rv.Field(i).Kind() {
			case reflect.Slice:
				dense = rv.Field(i)
			case reflect.Map:
				assoc = rv.Field(i)
			}
		}
		if !dense.IsValid() || !assoc.IsValid() {
			return []interface{}{"other", fmt.Sprintf("%T", v)}
		}
		ds := []interface{}{}
		id := assoc.Pointer()
		for i, p := range c.path {
			if p == id && id != 0 {
				return []interface{}{"cyc", len(c.path) - i}
			}
		}
		c.path = append(c.path, id)
		for i := 0; i < dense.Len(); i++ {
			ds = append(ds, c.refl(dense.Index(i)))
		}
		ks := []string{}
		for _, k := range assoc.MapKeys() {
			ks = append(ks, k.String())
		}
		sort.Strings(ks)
		as := []interface{}{}
		for _, k := range ks {
			as = append(as, []interface{}{B(k), c.refl(assoc.MapIndex(reflect.ValueOf(k)))})
		}
		c.path = c.path[:len(c.path)-1]
		return []interface{}{"ecma", ds, as}
	}
	return []interface{}{"other", fmt.Sprintf("%T", v)}
}

// refl rebuilds a value that was reached through an unexported field.
func (c *canon) refl(v reflect.Value) []interface{} {
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return c.val(nil)
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Float64:
		return c.val(v.Float())
	case reflect.Bool:
		return c.val(v.Bool())
	case reflect.String:
		return c.val(v.String())
	case reflect.Int32:
		return c.val(int32(v.Int()))
	case reflect.Uint32:
		return c.val(uint32(v.Uint()))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return c.val(append([]byte{}, v.Bytes()...))
		}
		c.nodes++
		out := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, c.refl(v.Index(i)))
		}
		return []interface{}{"arr", out}
	case reflect.Map:
		c.nodes++
		if c.nodes > 4000 {
			return []interface{}{"big"}
		}
		id := v.Pointer()
		for i, p := range c.path {
			if p == id && id != 0 {
				return []interface{}{"cyc", len(c.path) - i}
			}
		}
		c.path = append(c.path, id)
		ks := []string{}
		for _, k := range v.MapKeys() {
			ks = append(ks, k.String())
		}
		sort.Strings(ks)
		out := []interface{}{}
		for _, k := range ks {
			out = append(out, []interface{}{B(k), c.refl(v.MapIndex(reflect.ValueOf(k)))})
		}
		c.path = c.path[:len(c.path)-1]
		return []interface{}{"obj", out}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			// wall, ext: without a monotonic reading ext holds the seconds since year 1,
			// and the low 30 bits of wall the nanoseconds
			return []interface{}{"date", fbytes(float64((v.Field(1).Int()-62135596800)*1000 + int64(v.Field(0).Uint()&(1<<30-1))/1000000))}
		}
		if v.Type() == reflect.TypeOf(amf.TypedObject{}) {
			o := c.refl(v.Field(1))
			if o[0] == "obj" {
				return []interface{}{"typed", B(v.Field(0).String()), o[1]}
			}
			return o
		}
		c.nodes++
		var dense, assoc reflect.Value
		for i := 0; i < v.NumField(); i++ {
			switch v.Field(i).Kind() {
			case reflect.Slice:
				dense = v.Field(i)
			case reflect.Map:
				assoc = v.Field(i)
			}
		}
		if dense.IsValid() && assoc.IsValid() {
			id := assoc.Pointer()
			for i, p := range c.path {
				if p == id && id != 0 {
					return []interface{}{"cyc", len(c.path) - i}
				}
			}
			c.path = append(c.path, id)
			ds := []interface{}{}
			for i := 0; i < dense.Len(); i++ {
				ds = append(ds, c.refl(dense.Index(i)))
			}
			ks := []string{}
			for _, k := range assoc.MapKeys() {
				ks = append(ks, k.String())
			}
			sort.Strings(ks)
			as := []interface{}{}
			for _, k := range ks {
				as = append(as, []interface{}{B(k), c.refl(assoc.MapIndex(reflect.ValueOf(k)))})
			}
			c.path = c.path[:len(c.path)-1]
			return []interface{}{"ecma", ds, as}
		}
	}
	return []interface{}{"other", v.Type().String()}
}

func canonical(v interface{}) []interface{} {
	c := &canon{}
	r := c.val(v)
	if c.nodes > 4000 || c.leafs > 70000 {
		return []interface{}{"big"}
	}
	return r
}

// brokenSource is the way a source of n bytes breaks: any error but io.EOF.
func brokenSource(n int) error {
	kinds := []error{errors.New("driver: source broken"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, net.ErrClosed,
		io.ErrNoProgress, context.Canceled, syscall.ECONNRESET, bufio.ErrBufferFull, io.ErrShortBuffer, os.ErrClosed}
	return kinds[n%len(kinds)]
}

// feeder hands out data in pieces.
type feeder struct {
	b    []byte
	pos  int
	mode int // 0: all at once, n > 0: n bytes at most, -1: last piece together with io.EOF, -2: an empty read before every byte,
	// -3: the source breaks after the last piece, -4: together with it
	odd  bool
	eofs int // reads that found nothing left
}

func (f *feeder) Read(p []byte) (int, error) {
	yield()
	defer yield()
	if f.pos >= len(f.b) {
		f.eofs++
		if f.mode <= -3 {
			return 0, brokenSource(len(f.b))
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if f.mode > 0 && n > f.mode {
		n = f.mode
	}
	if f.mode == -2 {
		f.odd = !f.odd
		if f.odd {
			return 0, nil
		}
		n = 1
	}
	n = copy(p[:n], f.b[f.pos:])
	f.pos += n
	if f.mode == -1 && f.pos == len(f.b) {
		return n, io.EOF
	}
	if f.mode == -4 && f.pos == len(f.b) {
		return n, brokenSource(len(f.b))
	}
	return n, nil
}

type amfWorld struct {
	keeper
	d0 *amf.EnDecAMF0
	d3 *amf.EnDecAMF3
}

func newAmfWorld() *amfWorld {
	return &amfWorld{d0: amf.NewEnDecAMF0(), d3: amf.NewEnDecAMF3()}
}

func (w *amfWorld) dec(ver int) amf.Decoder {
	if ver == 3 {
		return w.d3
	}
	return w.d0
}

func (w *amfWorld) enc(ver int) amf.Encoder {
	if ver == 3 {
		return w.d3
	}
	return w.d0
}

func kindOf(err error) string {
	switch err {
	case nil:
		return "ok"
	case io.EOF:
		return "eof"
	}
	return "err"
}

func (w *amfWorld) do(op *Op) Res {
	switch op.Op {
	case "new":
		k := w.keeper
		*w = *newAmfWorld()
		w.keeper = k
		return ok()
	case "reg": // an external type whose body is one value, "fail": no body, an error
		h := func(d *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
			if op.Fn == "fail" {
				return nil, fullAfter(len(op.S1))
			}
			return d.Decode(r)
		}
		w.d0.RegisterExternalHandler(string(op.S1), h)
		w.d3.RegisterExternalHandler(string(op.S1), h)
		return ok()
	case "dec": // values, one after another, from one reader
		f := &feeder{b: op.Data, mode: op.Chunk}
		d := w.dec(op.Ver)
		n := op.Num
		if n == 0 {
			n = 1
		}
		out := []interface{}{}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		for i := 0; i < n; i++ {
			v, err := d.Decode(f)
			k := kindOf(err)
			if k == "ok" {
				out = append(out, []interface{}{k, canonical(v), f.pos})
				w.gives(valueOf(v))
				continue
			}
			out = append(out, []interface{}{k, []interface{}{"nil"}, f.pos})
			break
		}
		runtime.ReadMemStats(&m1)
		r := ok()
		r["vals"] = out
		r["kib"] = int((m1.TotalAlloc - m0.TotalAlloc) / 1024)
		return r
	case "fill": // so many values of one kind that the tables grow long
		var in []byte
		for j := 1; j <= op.Num; j++ {
			k := []byte{byte(j >> 16), byte(j >> 8), byte(j)}
			switch op.Fn {
			case "str":
				in = append(append(in, 6, 7), k...)
			case "bin":
				in = append(append(in, 12, 7), k...)
			case "obj": // a class of its own for every object
				in = append(append(append(in, 10, 0x13, 1, 7), k...), 4, 5)
			case "obj0":
				in = append(append(append(in, 3, 0, 3), k...), 5, 0, 0, 9)
			}
		}
		f := &feeder{b: in}
		for j := 0; j < op.Num; j++ {
			if _, err := w.dec(op.Ver).Decode(f); err != nil {
				return outcome(err)
			}
		}
		return ok()
	case "batch":
		f := &feeder{b: op.Data, mode: op.Chunk}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		vs, err := w.dec(op.Ver).DecodeBatch(f)
		runtime.ReadMemStats(&m1)
		out := []interface{}{}
		for _, v := range vs {
			out = append(out, canonical(v))
		}
		w.gives(valueOf([]interface{}(vs)))
		r := Res{"k": kindOf(err)}
		r["vals"] = out
		r["kib"] = int((m1.TotalAlloc - m0.TotalAlloc) / 1024)
		return r
	case "enc":
		s := sinkFor(op)
		v := decodeVal(op.Val)
		w.takes(valueOf(v))
		n, err := w.enc(op.Ver).Encode(s, v)
		r := outcome(err)
		r["n"] = n
		r["out"] = B(s.b)
		return r
	case "encb":
		var vs []json.RawMessage
		dec(op.Vals, &vs)
		args := []interface{}{}
		for _, v := range vs {
			args = append(args, decodeVal(v))
		}
		w.takes(valueOf(args))
		s := sinkFor(op)
		r := outcome(w.enc(op.Ver).EncodeBatch(s, args...))
		r["out"] = B(s.b)
		return r
	case "encx":
		s := sinkFor(op)
		var n int
		var err error
		var given interface{}
		if len(op.Val) > 0 {
			given = decodeVal(op.Val)
			w.takes(valueOf(given))
		}
		switch op.Fn {
		case "amf3":
			n, err = w.d0.EncodeWithAMF3(s, given)
		case "xml":
			v, _ := given.(string)
			n, err = w.d0.EncodeXmlDocument(s, v)
		case "ref":
			n, err = w.d0.EncodeReference(s, uint16(op.Num))
		case "ecma":
			v, _ := given.(amf.Object)
			n, err = w.d0.EncodeEcmaArray(s, v)
		case "undef":
			n, err = w.d0.EncodeUndefined(s)
		case "unsup":
			n, err = w.d0.EncodeUnsupported(s)
		default:
			panic("driver: unknown encx " + op.Fn)
		}
		r := outcome(err)
		r["n"] = n
		r["out"] = B(s.b)
		return r
	case "rt": // encode, then decode what was written with a fresh decoder
		s := newSink(-1)
		given := decodeVal(op.Val)
		w.takes(valueOf(given))
		n, err := w.enc(op.Ver).Encode(s, given)
		if err != nil {
			return outcome(err)
		}
		f := &feeder{b: s.b, mode: op.Chunk}
		v, err := newAmfWorld().dec(op.Ver).Decode(f)
		r := outcome(err)
		r["n"] = n
		r["len"] = len(s.b)
		r["used"] = f.pos
		r["v"] = canonical(v)
		w.gives(valueOf(v))
		return r
	}
	panic("driver: unknown op " + op.Op)
}

// valueOf renders a value.
func valueOf(v interface{}) func() interface{} {
	return func() interface{} { return canonical(v) }
}
