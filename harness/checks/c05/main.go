// C05: chunked graphics reassemble exactly; no corrupt image is delivered.
package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	lib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"verif.local/harness/gen"
	"verif.local/harness/keep"
	"verif.local/harness/ref"
	"verif.local/harness/vk"
)

var c *vk.Check

// chunk is one graphics line, or a pass-through line when kind is empty.
type chunk struct {
	text       string
	kind, list string
	idx, max   int // max only for idx 0
	w, h, x, y uint32
	off        bool
	payload    string
}

func gline(kind, list string, idx int, head string, payload string) chunk {
	k := chunk{kind: kind, list: list, idx: idx, payload: payload, max: 2, w: 64, h: 32}
	k.text = fmt.Sprintf("%s%s=%d", kind, list, idx)
	if idx == 0 && head != "" {
		var x, y int
		if n, _ := fmt.Sscanf(head, "%d,%dx%d,%d,%d", &k.max, &k.w, &k.h, &x, &y); n == 5 {
			k.off, k.x, k.y = true, uint32(x), uint32(y)
		}
		k.text += "/" + head
	}
	k.text += ":" + base64.StdEncoding.EncodeToString([]byte(payload))
	return k
}

func (k chunk) ids() (out []uint32) {
	for _, s := range strings.Split(k.list, ",") {
		n, _ := strconv.ParseUint(s, 10, 32)
		out = append(out, uint32(n))
	}
	return
}

func (k chunk) image(data string) *rwp.HWCState {
	t := map[string]rwp.HWCGfx_ImageTypeE{"HWCg#": 0, "HWCgRGB#": 1, "HWCgGray#": 2}[k.kind]
	return &rwp.HWCState{HWCIDs: k.ids(), HWCGfx: &rwp.HWCGfx{ImageType: t, W: k.w, H: k.h, XYoffset: k.off, X: k.x, Y: k.y, ImageData: []byte(data)}}
}

// transfer is the monitor's knowledge about the latest transfer of one target.
type transfer struct {
	head      chunk
	cand      []map[string]bool // cand[k]: contents of chunks 0..k in order
	delivered bool
}

// spec is the monitor: what may and what must be delivered.
type spec struct {
	t         map[string]*transfer
	cleanKey  string
	cleanNext int
	cleanData string
}

func newSpec() *spec { return &spec{t: map[string]*transfer{}} }

func (s *spec) clone() *spec {
	n := &spec{t: map[string]*transfer{}, cleanKey: s.cleanKey, cleanNext: s.cleanNext, cleanData: s.cleanData}
	for k, t := range s.t {
		c := &transfer{head: t.head, delivered: t.delivered}
		for _, m := range t.cand {
			mm := map[string]bool{}
			for x := range m {
				mm[x] = true
			}
			c.cand = append(c.cand, mm)
		}
		n.t[k] = c
	}
	return n
}

func (s *spec) canon() string {
	var ks []string
	for k := range s.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	fmt.Fprintf(&b, "%s %d %q", s.cleanKey, s.cleanNext, s.cleanData)
	for _, k := range ks {
		t := s.t[k]
		fmt.Fprintf(&b, "|%s %s %v", k, t.head.text, t.delivered)
		for _, m := range t.cand {
			var xs []string
			for x := range m {
				xs = append(xs, x)
			}
			sort.Strings(xs)
			fmt.Fprintf(&b, " %q", xs)
		}
	}
	return b.String()
}

// step advances the monitor over one line and returns the images that may be
// delivered at it and the one that must be ("" flags none).
func (s *spec) step(k chunk) (may map[string]bool, must string, mustSet bool) {
	if k.kind == "" {
		return nil, "", false
	}
	key := k.kind + k.list
	if k.idx == 0 {
		t := &transfer{head: k, cand: []map[string]bool{{k.payload: true}}}
		for i := 1; i <= k.max && i < 64; i++ {
			t.cand = append(t.cand, map[string]bool{})
		}
		s.t[key] = t
		s.cleanKey, s.cleanNext, s.cleanData = key, 1, k.payload
		if k.max == 0 {
			return t.cand[0], k.payload, true
		}
		return nil, "", false
	}
	t := s.t[key]
	fresh := map[string]bool{}
	if t != nil && k.idx < len(t.cand) {
		for x := range t.cand[k.idx-1] {
			t.cand[k.idx][x+k.payload] = true
			fresh[x+k.payload] = true
		}
	}
	if s.cleanKey == key && s.cleanNext == k.idx {
		s.cleanNext++
		s.cleanData += k.payload
	} else {
		s.cleanKey, s.cleanNext, s.cleanData = "", 0, ""
	}
	if t == nil || k.idx != t.head.max || t.delivered {
		return nil, "", false
	}
	if s.cleanKey == key {
		return fresh, s.cleanData, true
	}
	return fresh, "", false
}

// images returns the graphics states of the messages.
func images(ms []*rwp.InboundMessage) (out []*rwp.HWCState) {
	for _, m := range ms {
		if m == nil {
			continue
		}
		for _, st := range m.States {
			if st.HWCGfx != nil {
				out = append(out, st)
			}
		}
	}
	return
}

// judge checks what was returned for line k against the monitor and advances it.
func judge(s *spec, k chunk, ms []*rwp.InboundMessage) string {
	may, must, mustSet := s.step(k)
	for _, m := range ms {
		if m == nil {
			return "nil: a nil message was returned"
		}
	}
	imgs := images(ms)
	if len(imgs) > 1 {
		return fmt.Sprintf("several: %d images delivered at line %q", len(imgs), k.text)
	}
	if len(imgs) == 0 {
		if mustSet {
			return fmt.Sprintf("missing: a clean run ending in %q did not deliver its image", k.text)
		}
	} else {
		if k.kind == "" {
			return fmt.Sprintf("stray: an image was delivered at the non-graphics line %q", k.text)
		}
		if len(ms) != 1 || len(ms[0].States) != 1 {
			return "extra: more than the image was delivered"
		}
		t := s.t[k.kind+k.list]
		if may == nil || t == nil {
			if t != nil && t.delivered {
				return fmt.Sprintf("again: the image was delivered a second time at line %q", k.text)
			}
			return fmt.Sprintf("corrupt: an image was delivered at line %q, which completes no transfer", k.text)
		}
		data := string(imgs[0].HWCGfx.ImageData)
		if mustSet && data != must {
			return fmt.Sprintf("corrupt: clean run delivered %x, sent %x", data, must)
		}
		if !may[data] {
			return fmt.Sprintf("corrupt: delivered bytes %q are not chunks 0..%d in order (possible: %q)", data, t.head.max, may)
		}
		want := t.head.image(data)
		if !proto.Equal(imgs[0], want) {
			return fmt.Sprintf("header: delivered %v, sent %v", imgs[0], want)
		}
		t.delivered, t.cand = true, nil
	}
	if k.kind == "" { // pass-through lines are read as ever
		var got []ref.Eff
		for _, m := range ms {
			got = append(got, ref.InMsg(ref.Strict, m)...)
		}
		if d := ref.Compare([][]ref.Eff{(&ref.InReader{}).Line(k.text)}, got); d != "" {
			return "pass-through " + d
		}
	}
	return ""
}

type held struct{ live, snap *rwp.InboundMessage }

func hold(hs []held, ms []*rwp.InboundMessage) []held {
	for _, m := range ms {
		if m != nil {
			hs = append(hs, held{m, proto.Clone(m).(*rwp.InboundMessage)})
		}
	}
	return hs
}

func unaltered(hs []held) string {
	for _, h := range hs {
		if !proto.Equal(h.live, h.snap) {
			return "altered: a delivered message changed afterwards"
		}
	}
	return ""
}

// stream replays a history through the streaming reader; bit i of ser makes the
// reader's state go through JSON before line i.
func stream(h []chunk, ser int) string {
	r := &lib.ASCIIreader{}
	s := newSpec()
	var hs []held
	for i, k := range h {
		if ser>>i&1 == 1 {
			b, err := json.Marshal(r)
			if err != nil {
				return "state: the reader does not serialise: " + err.Error()
			}
			r = &lib.ASCIIreader{}
			if err := json.Unmarshal(b, r); err != nil {
				return "state: the reader does not deserialise: " + err.Error()
			}
		}
		ms := r.Parse(k.text)
		hs = hold(hs, ms)
		if d := judge(s, k, ms); d != "" {
			return d
		}
	}
	return unaltered(hs)
}

// batch replays a history through the batch decoder: the outputs of each prefix
// must extend those of the previous one, the new ones belong to the last line.
func batch(h []chunk) string {
	s := newSpec()
	var prev []*rwp.InboundMessage
	lines := make([]string, 0, len(h))
	var hs []held
	for _, k := range h {
		lines = append(lines, k.text)
		ms := lib.RawPanelASCIIstringsToInboundMessages(lines)
		if len(ms) < len(prev) {
			return fmt.Sprintf("batch-altered: line %q removed a message delivered for the lines before it", k.text)
		}
		for j := range prev {
			if !proto.Equal(prev[j], ms[j]) {
				return fmt.Sprintf("batch-altered: line %q changed what the lines before it delivered: %v, was %v", k.text, ms[j], prev[j])
			}
		}
		hs = hold(hs, ms)
		if d := judge(s, k, ms[len(prev):]); d != "" {
			return "batch-" + d
		}
		prev = ms
	}
	return unaltered(hs)
}

func texts(h []chunk) (out []string) {
	for _, k := range h {
		out = append(out, k.text)
	}
	return
}

func history(kind string, h []chunk, sers ...int) {
	in := func(how string) func() any {
		return func() any { return map[string]any{"kind": kind, "feeding": how, "lines": texts(h)} }
	}
	for _, ser := range sers {
		ok := c.Run(in(fmt.Sprintf("streaming, state serialised before lines %b", ser)), func() string { return stream(h, ser) })
		c.Trace(1)
		c.Trans(len(h))
		_ = ok
	}
	c.Run(in("batch"), func() string { return batch(h) })
	c.Trace(1)
	c.Trans(len(h))
	if c.WantSample(kind) {
		c.Sample(kind, texts(h))
	}
}

func pass(t string) chunk { return chunk{text: t} }

// explore computes all states reachable by the streaming reader (its serialised
// form) times the monitor, under the alphabet.
func explore(name string, al []chunk, limit int) {
	type node struct {
		js   []byte
		s    *spec
		path []int
	}
	seen := map[string]bool{}
	b0, _ := json.Marshal(&lib.ASCIIreader{})
	front := []node{{b0, newSpec(), nil}}
	seen[string(b0)+front[0].s.canon()] = true
	depth := 0
	complete := true
	for len(front) > 0 {
		if len(seen) > limit || c.Expired() {
			complete = false
			break
		}
		type res struct {
			n node
			k string
		}
		out := make([][]res, len(front))
		c.Parallel(len(front), func(i int) {
			n := front[i]
			for a, k := range al {
				var js []byte
				var s *spec
				path := append(append([]int{}, n.path...), a)
				ok := c.Run(func() any {
					var l []string
					for _, p := range path {
						l = append(l, al[p].text)
					}
					return map[string]any{"kind": "reachable states", "lines": l, "reader": string(n.js)}
				}, func() string {
					r := &lib.ASCIIreader{}
					if err := json.Unmarshal(n.js, r); err != nil {
						return "state: " + err.Error()
					}
					s = n.s.clone()
					d := judge(s, k, r.Parse(k.text))
					js, _ = json.Marshal(r)
					return d
				})
				c.Trans(1)
				if ok {
					out[i] = append(out[i], res{node{js, s, path}, string(js) + s.canon()})
				}
			}
		})
		front = nil
		for _, rs := range out {
			for _, r := range rs {
				if !seen[r.k] {
					seen[r.k] = true
					c.State(name + r.k)
					front = append(front, r.n)
				}
			}
		}
		depth++
	}
	c.Extra("reachable_"+name, map[string]any{"states": len(seen), "depth": depth, "complete_fixpoint": complete, "alphabet": len(al)})
	fmt.Printf("  %s: %d states, depth %d, fixpoint %v\n", name, len(seen), depth, complete)
}

func all(al []chunk, d int, kind string, sers []int) {
	n := 1
	for i := 0; i < d; i++ {
		n *= len(al)
	}
	c.Parallel(n, func(i int) {
		h := make([]chunk, d)
		for k := range h {
			h[k] = al[i%len(al)]
			i /= len(al)
		}
		c.State(kind + strings.Join(texts(h), "\n"))
		history(kind, h, sers...)
	})
}

// image encodes one image with the library and checks the lines themselves.
func encode(ids []uint32, g *rwp.HWCGfx) ([]chunk, string) {
	in := proto.Clone(g).(*rwp.HWCGfx)
	lines := lib.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{{States: []*rwp.HWCState{{HWCIDs: ids, HWCGfx: g}}}})
	if !proto.Equal(in, g) {
		return nil, "mutated: the encoder changed the image"
	}
	var out []chunk
	for _, l := range lines {
		k, ok := parse(l)
		if !ok {
			return nil, "line: not a graphics line: " + l
		}
		if len(k.payload) > 170 {
			return nil, fmt.Sprintf("line: %d payload bytes in one line", len(k.payload))
		}
		out = append(out, k)
	}
	return out, ""
}

// parse is an independent reader of one graphics line.
func parse(l string) (chunk, bool) {
	for _, kind := range []string{"HWCgRGB#", "HWCgGray#", "HWCg#"} {
		if !strings.HasPrefix(l, kind) {
			continue
		}
		list, rest, ok := strings.Cut(l[len(kind):], "=")
		hd, pl, ok2 := strings.Cut(rest, ":")
		if !ok || !ok2 {
			return chunk{}, false
		}
		is, adv, _ := strings.Cut(hd, "/")
		idx, err := strconv.Atoi(is)
		data, err2 := base64.StdEncoding.DecodeString(pl)
		if err != nil || err2 != nil {
			return chunk{}, false
		}
		k := gline(kind, list, idx, "", string(data))
		if adv != "" {
			f := strings.FieldsFunc(adv, func(r rune) bool { return r == ',' || r == 'x' })
			var v []uint32
			for _, s := range f {
				n, err := strconv.ParseUint(s, 10, 32)
				if err != nil {
					return chunk{}, false
				}
				v = append(v, uint32(n))
			}
			if len(v) != 3 && len(v) != 5 {
				return chunk{}, false
			}
			k.max, k.w, k.h = int(v[0]), v[1], v[2]
			if len(v) == 5 {
				k.off, k.x, k.y = true, v[3], v[4]
			}
		}
		k.text = l
		return k, true
	}
	return chunk{}, false
}

// whole sends images and expects each of them, per target, exactly once.
func whole(kind string, ids []uint32, g *rwp.HWCGfx) {
	c.Run(func() any {
		return map[string]any{"kind": kind, "ids": ids, "type": g.ImageType, "bytes": len(g.ImageData), "offset": g.XYoffset}
	}, func() string {
		h, d := encode(ids, g)
		if d != "" {
			return d
		}
		if len(g.ImageData) == 0 {
			if len(h) > 1 {
				return "line: more than one line for an empty image"
			}
			return ""
		}
		check := func(how string, ms []*rwp.InboundMessage) string {
			n := map[uint32]int{}
			for _, st := range images(ms) {
				if !proto.Equal(st.HWCGfx, g) {
					return fmt.Sprintf("reassembly: %s: image of %d bytes comes back different (%d bytes, %dx%d)", how, len(g.ImageData), len(st.HWCGfx.ImageData), st.HWCGfx.W, st.HWCGfx.H)
				}
				for _, i := range st.HWCIDs {
					n[i]++
				}
			}
			want := map[uint32]int{}
			for _, i := range ids {
				want[i] = 1
			}
			if len(n) != len(want) {
				return fmt.Sprintf("reassembly: %s: images for targets %v, sent to %v", how, n, ids)
			}
			for i := range want {
				if n[i] < 1 || len(ids) == len(want) && n[i] != 1 {
					return fmt.Sprintf("reassembly: %s: target %d received %d images", how, i, n[i])
				}
			}
			return ""
		}
		if d := check("batch", lib.RawPanelASCIIstringsToInboundMessages(texts(h))); d != "" {
			return d
		}
		for ser := 0; ser < 2; ser++ {
			r := &lib.ASCIIreader{}
			var ms []*rwp.InboundMessage
			last := 0
			for i, k := range h {
				if ser == 1 && len(h) <= 200 {
					b, _ := json.Marshal(r)
					r = &lib.ASCIIreader{}
					json.Unmarshal(b, r)
				}
				if k.idx == 0 {
					last = k.max
				}
				if i > 0 && k.idx != 0 && k.idx != h[i-1].idx+1 || i+1 == len(h) && k.idx != last {
					return fmt.Sprintf("line: line %d of %d of the transfer is numbered %d, the last should be %d", i, len(h), k.idx, last)
				}
				got := r.Parse(k.text)
				if (len(got) == 1) != (k.idx == last) || len(got) > 1 {
					return fmt.Sprintf("reassembly: streaming: %d messages at line %d of 0..%d", len(got), k.idx, last)
				}
				ms = append(ms, got...)
			}
			if d := check(fmt.Sprintf("streaming (serialised=%d)", ser), ms); d != "" {
				return d
			}
		}
		return ""
	})
	c.Trace(3)
	c.Trans(len(g.ImageData)/170 + 1)
	c.State(fmt.Sprint("len", kind, len(g.ImageData), g.ImageType, g.XYoffset, len(ids), g.W, g.H, g.X, g.Y))
}

func main() {
	vk.Main("C05", func(ck *vk.Check) {
		c = ck
		c.Assume("chunk lines carry valid base64 and small indices; headers appear on chunk 0 only; white space around a line is not part of it",
			"images of zero bytes produce no line and are not expected back",
			"a chunk line of another target or format between two chunks may or may not abort a transfer; the clean-run guarantee covers only runs without foreign graphics lines")
		c.Phase("whole images: every length x format x offset x targets", func() {
			n := vk.Pick(c, 2100, 8500)
			c.Parallel((n+1)*6, func(i int) {
				l := i / 6
				g := gen.Gfx(i%3, l, i%6 >= 3, uint32(l*3), uint32(l%11))
				whole("length", [][]uint32{{1}, {7, 9}, {4294967295, 0, 3}}[l%3], g)
			})
			for _, l := range []int{1, 169, 170, 171, 339, 340, 341, 1700, 1701, 16999, 17000, 17001, 170000} {
				for t := 0; t < 3; t++ {
					for _, dim := range []uint32{0, 1, 64, 4294967295} {
						for _, off := range []bool{false, true} {
							g := gen.Gfx(t, l, off, dim, 4294967295-dim)
							g.W, g.H = dim, 4294967295-dim
							whole("dims", []uint32{1, 2, 3, 1000000}, g)
						}
					}
				}
			}
			// bytes of every value at every residue
			for b := 0; b < 256; b++ {
				g := gen.Gfx(b%3, 173+b%6, false, 0, 0)
				for i := range g.ImageData {
					g.ImageData[i] = byte(b + i*(b%2))
				}
				whole("bytes", []uint32{5}, g)
			}
		})
		c.Phase("clean runs with pass-through lines in every subset of gaps", func() {
			ps := []chunk{pass("ping"), pass("HWC#1=4"), pass("HWCt#1=5|||T"), pass("HWCg#1=x"), pass("MemA=1"), pass(""), pass("unknown"), pass("map")}
			for n := 1; n <= 6; n++ {
				for t := 0; t < 3; t++ {
					h, d := encode([]uint32{12}, gen.Gfx(t, n*170-3, t == 1, 4, 5))
					if d != "" || len(h) != n {
						c.Fail("line", fmt.Sprintf("line: image of %d bytes became %d lines %s", n*170-3, len(h), d), n, nil)
						continue
					}
					for m := 0; m < 1<<(n+1); m++ {
						for p := range ps {
							var hh []chunk
							for i := 0; i <= n; i++ {
								if m>>i&1 == 1 {
									hh = append(hh, ps[(p+i)%len(ps)])
								}
								if i < n {
									hh = append(hh, h[i])
								}
							}
							history("gaps", hh, 0, -1, 0x5555)
						}
					}
				}
			}
		})
		A := []chunk{
			gline("HWCg#", "1", 0, "2,8x8,1,2", "a"), gline("HWCg#", "1", 1, "", "b"), gline("HWCg#", "1", 2, "", "c"), gline("HWCg#", "1", 3, "", "d"),
			gline("HWCg#", "1", 0, "", "e"), gline("HWCg#", "1", 1, "", "f"), gline("HWCg#", "1", 0, "0,3x3", "g"),
			gline("HWCg#", "2", 0, "1,9x9", "h"), gline("HWCg#", "2", 1, "", "i"),
			gline("HWCgRGB#", "1", 0, "1,4x4", "j"), gline("HWCgRGB#", "1", 1, "", "k"),
			gline("HWCg#", "1,2", 0, "1,5x5,7,8", "l"), gline("HWCg#", "1,2", 1, "", "m"),
			gline("HWCgGray#", "2", 0, "2,6x6", "n"), gline("HWCgGray#", "2", 1, "", "o"), gline("HWCgGray#", "2", 2, "", "p"),
			pass("HWC#1=4"),
		}
		B := []chunk{gline("HWCg#", "1", 0, "2,8x8", "a"), gline("HWCg#", "1", 1, "", "b"), gline("HWCg#", "1", 2, "", "c"), gline("HWCg#", "1", 3, "", "d"), gline("HWCg#", "1", 1, "", "e"), pass("ping")}
		C := []chunk{gline("HWCgRGB#", "1", 0, "2,8x8", "a"), gline("HWCgRGB#", "1", 1, "", "b"), gline("HWCgRGB#", "1", 2, "", "c"), gline("HWCgRGB#", "2", 0, "2,8x8", "d"), gline("HWCgRGB#", "2", 1, "", "e"), gline("HWCgRGB#", "2", 2, "", "f")}
		D := []chunk{gline("HWCg#", "1", 0, "3,8x8", "a"), gline("HWCgRGB#", "1", 0, "3,8x8", "b"), gline("HWCg#", "1", 1, "", "c"), gline("HWCgRGB#", "1", 1, "", "d"), gline("HWCg#", "1", 2, "", "e"), gline("HWCg#", "1", 3, "", "f"), gline("HWCg#", "1", 4, "", "g")}
		c.Phase("results kept and changed by the caller: all pairs of transfers", func() {
			var calls []keep.Call
			one := &lib.ASCIIreader{}
			for i := 0; i < 36; i++ {
				n := []int{1, 100, 170, 171, 340, 700}[i%6]
				h, d := encode([][]uint32{{1}, {7, 9}}[i/18], gen.Gfx(i/6%3, n+i, i%2 == 0, uint32(i), 5))
				if d != "" {
					c.Fail("line", d, n, nil)
					continue
				}
				ls := texts(h)
				calls = append(calls, keep.Call{Name: fmt.Sprintf("the batch decoder on transfer %d", i), Do: func() any { return lib.RawPanelASCIIstringsToInboundMessages(append([]string{}, ls...)) }},
					keep.Call{Name: fmt.Sprintf("a new reader on transfer %d", i), Do: func() any { return feed(&lib.ASCIIreader{}, ls) }},
					keep.Call{Name: fmt.Sprintf("a reader used before on transfer %d", i), Do: func() any { return feed(one, ls) }})
			}
			keep.Pairs(c, keep.Messages[*rwp.InboundMessage](), calls)
		})
		c.Phase("reachable states of the streaming reader", func() {
			lim := vk.Pick(c, 60000, 1200000)
			explore("one_target", B, lim)
			explore("two_targets", C, lim)
			explore("two_formats", D, lim)
			explore("wide_alphabet", A, lim)
		})
		for d := 1; d <= vk.Pick(c, 5, 6); d++ {
			c.Phase(fmt.Sprintf("histories: all %d-line sequences over 17 lines", d), func() {
				sers := []int{0, -1}
				if d <= 4 {
					sers = nil
					for s := 0; s < 1<<d; s++ {
						sers = append(sers, s)
					}
				}
				if d == 6 {
					sers = []int{0}
				}
				all(A, d, "wide", sers)
			})
		}
		for d := 6; d <= vk.Pick(c, 7, 8); d++ {
			for i, al := range [][]chunk{B, C, D} {
				if i == 2 && d == vk.Pick(c, 7, 8) {
					continue
				}
				c.Phase(fmt.Sprintf("histories: all %d-line sequences, alphabet %c", d, 'B'+i), func() { all(al, d, "deep", []int{0, -1}) })
			}
		}
		c.Phase("C binding: histories with the state carried outside", func() { cbinding(A, B) })
	})
}

// cbinding drives the C binding's exported converter, built with a driver file
// overlaid into its package, and judges each line with the same monitor.
func cbinding(A, B []chunk) {
	scratch := os.Getenv("VERIF_SCRATCH")
	repo := "/repo/rawpanel-lib-c"
	dir := filepath.Join(c.Root, "harness/checks/c05/cbind")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			c.Cap("C binding not present: " + err.Error())
			return
		}
		os.WriteFile(filepath.Join(scratch, f), bytes.ReplaceAll(b, []byte("=> ../"), []byte("=> /repo/")), 0o644)
	}
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(repo, "verif_driver.go"): filepath.Join(scratch, "driver.go")}})
	drv, _ := os.ReadFile(filepath.Join(dir, "driver.go.txt"))
	os.WriteFile(filepath.Join(scratch, "driver.go"), drv, 0o644)
	os.WriteFile(filepath.Join(scratch, "overlay.json"), ov, 0o644)
	bin := filepath.Join(scratch, "cbind")
	cmd := exec.Command("go", "build", "-mod=mod", "-modfile="+filepath.Join(scratch, "go.mod"), "-overlay="+filepath.Join(scratch, "overlay.json"), "-o", bin, ".")
	cmd.Dir = repo
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "C binding driver does not build: %v\n%s\n", err, b)
		os.Exit(3)
	}
	var hs [][]chunk
	add := func(al []chunk, d int) {
		n := 1
		for i := 0; i < d; i++ {
			n *= len(al)
		}
		for i := 0; i < n; i++ {
			h := make([]chunk, d)
			j := i
			for k := range h {
				h[k] = al[j%len(al)]
				j /= len(al)
			}
			hs = append(hs, h)
		}
	}
	for d := 1; d <= vk.Pick(c, 3, 4); d++ {
		add(A, d)
	}
	for d := 4; d <= vk.Pick(c, 5, 6); d++ {
		add(B, d)
	}
	for _, l := range []int{1, 170, 171, 340, 500, 1700, 5000} { // whole images
		for t := 0; t < 3; t++ {
			h, _ := encode([]uint32{3}, gen.Gfx(t, l, t == 2, 9, 9))
			hs = append(hs, h)
		}
	}
	w := 8
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := exec.Command(bin)
			p.Env = append(os.Environ(), "VERIF_CBIND=1")
			in, _ := p.StdinPipe()
			outp, _ := p.StdoutPipe()
			p.Stderr = io.Discard
			if err := p.Start(); err != nil {
				c.Cap("C binding driver: " + err.Error())
				return
			}
			defer func() { in.Close(); p.Wait() }()
			rd := bufio.NewReaderSize(outp, 1<<20)
			wr := bufio.NewWriter(in)
			for i := k; i < len(hs); i += w {
				if c.Expired() {
					c.Cap("C binding histories cut by the deadline")
					return
				}
				h := hs[i]
				wr.WriteString("R\n")
				for _, x := range h {
					wr.WriteString("L" + hex.EncodeToString([]byte(x.text)) + "\n")
				}
				wr.Flush()
				var outs [][]byte
				for range h {
					l, err := rd.ReadString('\n')
					if err != nil {
						c.Fail("cbinding-crash", "cbinding-crash: the binding died inside a history", texts(h), nil)
						return
					}
					l = strings.TrimSpace(l)
					if l == "-" {
						outs = append(outs, nil)
					} else {
						b, _ := hex.DecodeString(l[1:])
						outs = append(outs, b)
					}
				}
				c.Run(func() any { return map[string]any{"kind": "C binding", "lines": texts(h)} }, func() string {
					s := newSpec()
					for i, x := range h {
						var ms []*rwp.InboundMessage
						if outs[i] != nil {
							m := &rwp.InboundMessage{}
							if err := proto.Unmarshal(outs[i], m); err != nil {
								return "cbinding: undecodable message"
							}
							ms = append(ms, m)
						}
						if d := judge(s, x, ms); d != "" {
							return "cbinding-" + d
						}
					}
					return ""
				})
				c.Trace(1)
				c.Trans(len(h))
			}
		}()
	}
	wg.Wait()
	c.Extra("c_binding_histories", len(hs))
}

func feed(r *lib.ASCIIreader, ls []string) (out []*rwp.InboundMessage) {
	for _, l := range ls {
		out = append(out, r.Parse(l)...)
	}
	return
}
