package main

import (
	"github.com/moggle-mog/goav/packet"

	"encoding/json"
	"fmt"
)

// keeping: the scenario asks for everything the calls were given and gave to
// be looked at again after each later call.
var keeping bool

const keptMost = 64

type kept struct {
	want   string
	render func() interface{}
}

func text(f func() interface{}) string {
	b, err := json.Marshal(f())
	if err != nil {
		return fmt.Sprint("unrenderable: ", err)
	}
	return string(b)
}

// keeper holds the last results of a world's calls and what they were given.
type keeper struct {
	gave  []kept
	given []kept
}

func hold(l []kept, f func() interface{}) []kept {
	if !keeping {
		return l
	}
	l = append(l, kept{text(f), f})
	if len(l) > keptMost {
		l = l[1:]
	}
	return l
}

// gives registers a result: it has to stay as it is.
func (k *keeper) gives(f func() interface{}) { k.gave = hold(k.gave, f) }

// takes registers what is about to be given to a call.
func (k *keeper) takes(f func() interface{}) { k.given = hold(k.given, f) }

func differs(l []kept) int {
	n := 0
	for i := range l {
		now := text(l[i].render)
		if now != l[i].want {
			n++
			l[i].want = now
		}
	}
	return n
}

func (k *keeper) look() (int, int, int) {
	return differs(k.gave), differs(k.given), len(k.gave) + len(k.given)
}

type keeps interface{ look() (int, int, int) }

// bytesOf renders a byte slice's contents, whole its spare room as well.
func bytesOf(b []byte) func() interface{} { return func() interface{} { return B(b) } }
func whole(b []byte) func() interface{}   { return func() interface{} { return B(b[:cap(b)]) } }

// roomy is a copy of b that lies in front of other bytes of its owner, as a
// packet cut from a larger buffer does.
func roomy(b []byte) []byte {
	buf := make([]byte, len(b)+40)
	n := copy(buf, b)
	for i := n; i < len(buf); i++ {
		buf[i] = 0xa5
	}
	return buf[:n]
}

// dressed gives p the fields no media depends on: stream, baseline, and a time stamp
// that the caller passes apart where there is one.
func dressed(p *packet.Packet, data []byte) *packet.Packet {
	h := uint32(2166136261) ^ p.TimeStamp
	for i, b := range data {
		if i == 64 {
			break
		}
		h = (h ^ uint32(b)) * 16777619
	}
	odd := []uint32{0, 1, 2, 3, 40, 255, 256, 1000, 65535, 0x01000000, 0x7fffffff, 0x80000000, 0xffffffff, h}
	p.StreamID = odd[h%uint32(len(odd))]
	p.Baseline = odd[(h>>8)%uint32(len(odd))]
	return p
}
