// C02: system-to-panel ASCII lines decode to exactly what the grammar says.
package main

import (
	"encoding/base64"
	"fmt"
	"strings"

	lib "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"verif.local/harness/gen"
	"verif.local/harness/keep"
	"verif.local/harness/ref"
	"verif.local/harness/vk"
)

var c *vk.Check

// item is one or more lines with the effects expected per line.
type item struct {
	lines []string
	want  [][]ref.Eff // nil: use the reference reader
}

// one feeds all items in one call.
func one(kind string, items ...item) {
	var lines []string
	var want [][]ref.Eff
	r := &ref.InReader{}
	p := ref.Panel{}
	n := 0
	for _, it := range items {
		for i, l := range it.lines {
			lines = append(lines, l)
			var e []ref.Eff
			if it.want != nil {
				e = it.want[i]
			} else {
				e = r.Line(l)
			}
			want = append(want, e)
			p.Apply(e)
			n += len(e)
		}
	}
	in := append([]string{}, lines...)
	c.Run(func() any { return map[string]any{"kind": kind, "lines": in} }, func() string {
		msgs := lib.RawPanelASCIIstringsToInboundMessages(lines)
		var got []ref.Eff
		for _, m := range msgs {
			if m == nil {
				return "nil: a nil message was returned"
			}
			got = append(got, ref.InMsg(ref.Strict, m)...)
		}
		if d := ref.Compare(want, got); d != "" {
			return fmt.Sprintf("%s; lines=%.300q", d, lines)
		}
		for i := range in {
			if in[i] != lines[i] {
				return "mutated: the decoder changed its input"
			}
		}
		return ""
	})
	c.State(p.Canon())
	c.Trans(len(lines))
	c.Trace(1)
	if c.WantSample(kind) {
		c.Sample(kind, map[string]any{"lines": in, "effects": fmt.Sprint(want)})
	}
}

func l(s ...string) item { return item{lines: s} }

func lf(f string, a ...any) item { return l(fmt.Sprintf(f, a...)) }

// textLine joins the 21 fields, cut to the first n.
func textLine(hwc string, f []string, n int) string {
	if (f[1] == "10" || f[1] == "11") && strings.HasPrefix(f[0], "-") {
		f = append([]string{"3"}, f[1:]...) // a negative font size is outside the domain
	}
	return "HWCt#" + hwc + "=" + strings.Join(f[:n], "|")
}

var fieldVals = [21][]string{
	{"", "0", "1", "-1", "42", "-2147483648", "2147483647"},
	{"", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"},
	{"", "0", "1", "2", "3", "8", "40", "56", "59", "63"},
	{"", "Title", " t ", "0", "\xc3\xa6=:,"},
	{"", "0", "1", "2"},
	{"", "L1", " ", "-4"},
	{"", "L2", " ", "0"},
	{"", "0", "5", "-2147483648", "2147483647"},
	{"", "0", "1", "2", "3", "4"},
	{"", "0", "1", "2", "3"},
	{"", "0", "-10", "2147483647"},
	{"", "0", "1000", "-2147483648"},
	{"", "0", "3", "-1"},
	{"", "0", "9", "-9"},
	{"", "0", "1", "9"},
	{"", "0", "1", "2", "7", "8", "56", "64", "127"},
	{"", "0", "1", "2", "3", "4", "12", "16", "48", "64", "192", "255"},
	{"", "0", "1", "3", "4", "16", "28", "31"},
	{"", "0", "1", "2"},
	{"", "0", "1", "31", "63", "64", "65", "80", "96", "108", "127", "32"},
	{"", "0", "1", "16", "64", "67", "76", "112", "127", "192"},
}

func cut(s string, n int) []string {
	var o []string
	for i := 0; i < len(s); i += n {
		o = append(o, s[i:min(i+n, len(s))])
	}
	return o
}

func gfxLines(kind, list, head string, data []byte, per int) item {
	var it item
	n := (len(data) + per - 1) / per
	for i := 0; i < n; i++ {
		h := fmt.Sprintf("%s%s=%d", kind, list, i)
		if i == 0 && head != "" {
			h += "/" + fmt.Sprint(n-1) + "," + head
		}
		it.lines = append(it.lines, h+":"+base64.StdEncoding.EncodeToString(data[i*per:min((i+1)*per, len(data))]))
	}
	return it
}

func bytesN(n, s int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*13 + s + i/200)
	}
	return d
}

func main() {
	vk.Main("C02", func(ck *vk.Check) {
		c = ck
		c.Assume("numeric arguments fit the message's integer type; bits the packed integers do not define are ignored",
			"states without component ids are not a state change", "zero-length images and malformed JSON are outside the well-formed domain")
		lists := []string{"1", "37", "0", "4294967295", "1,2", "2,1,2", "10,20,30,40,50"}
		c.Phase("packed integers: full 16-bit space of HWC#, HWCx#, HWCc#", func() {
			for _, k := range []string{"HWC#", "HWCx#", "HWCc#", "HWCrawADCValues#"} {
				c.Parallel(65536, func(i int) {
					one("packed "+k, lf("%s%s=%d", k, lists[i%len(lists)], i))
				})
			}
			for _, k := range []string{"HWC#", "HWCx#", "HWCc#", "HWCrawADCValues#"} {
				for _, li := range lists {
					for _, v := range []string{"0", "1", "00", "0001", "65", "4095", "36", "65535"} {
						one("packed "+k, lf("%s%s=%s", k, li, v))
					}
				}
			}
		})
		bases := [][]string{
			make([]string, 21),
			{"42", "1", "42", "Ttl", "1", "one", "two", "17", "3", "2", "-10", "90", "-5", "80", "", "74", "105", "14", "1", "124", "5"},
			{"3", "10", "", "", "1", "Hello", "World"},
			{"", "", "", "T", "", "a"},
		}
		for i := range bases {
			for len(bases[i]) < 21 {
				bases[i] = append(bases[i], "")
			}
		}
		type pk struct{ f, v int }
		var all []pk
		for f := range fieldVals {
			for v := range fieldVals[f] {
				all = append(all, pk{f, v})
			}
		}
		depth := vk.Pick(c, 3, 4)
		for bi, b := range bases {
			c.Phase(fmt.Sprintf("HWCt#: all <=%d-field deviations from base %d", depth, bi), func() {
				one("text", l(textLine("4", b, 21)))
				c.Parallel(len(all), func(i int) {
					f := append([]string{}, b...)
					var rec func(j, d int)
					rec = func(j, d int) {
						n := 21
						for n > 1 && f[n-1] == "" {
							n--
						}
						one("text", l(textLine("4", f, n)))
						if n < 21 && d == 1 {
							one("text", l(textLine("4", f, 21)))
						}
						if d == depth || (d == 2 && c.Expired()) {
							return
						}
						for k := j + 1; k < len(all); k++ {
							if all[k].f == all[j].f {
								continue
							}
							o := f[all[k].f]
							f[all[k].f] = fieldVals[all[k].f][all[k].v]
							rec(k, d+1)
							f[all[k].f] = o
						}
					}
					f[all[i].f] = fieldVals[all[i].f][all[i].v]
					rec(i, 1)
				})
			})
		}
		c.Phase("HWCt#: every truncation of full lines, every presence subset of groups", func() {
			for _, b := range bases {
				for n := 1; n <= 21; n++ {
					for _, li := range lists {
						one("trunc", l(textLine(li, b, n)))
					}
				}
			}
			// every subset of present/absent fields of the full vector
			n := 1 << 21
			step := vk.Pick(c, 8, 1) // quick: the low 18 fields' subsets; the last three always present
			c.Parallel(n/step, func(i int) {
				f := make([]string, 21)
				m := i
				if step > 1 {
					m |= 7 << 18
				}
				k := 1
				for j := range f {
					if m>>j&1 == 1 {
						f[j] = bases[1][j]
						k = j + 1
					}
				}
				one("subset", l(textLine("6", f, k)))
			})
			for v := 0; v < 256; v++ { // styling integers, whole range and beyond
				for _, fi := range []int{2, 15, 16, 17, 19, 20} {
					f := make([]string, 21)
					f[3], f[fi] = "T", fmt.Sprint(v)
					one("styling", l(textLine("6", f, 21)))
				}
			}
			for i := 0; i < 128*256; i++ {
				f := make([]string, 21)
				f[15], f[16], f[17] = fmt.Sprint(i&127), fmt.Sprint(i>>7), fmt.Sprint(i%32)
				one("styling", l(textLine("6", f, 18)))
			}
		})
		c.Phase("commands, numeric arguments, registers", func() {
			for i := 0; i < ref.NumInFlags(); i++ {
				one("flag", l(ref.InFlagWord(i)))
			}
			for _, w := range []string{"ping", "ack", "nack", ""} {
				one("flow", l(w))
			}
			for k := 0; k < ref.NumInNums(); k++ {
				for _, v := range gen.Uint32s() {
					if m := ref.InNumMax(k); m > 1 && v > m {
						continue
					}
					one("num", lf("%s=%d", ref.InNumKey(k), v), lf("%s=00%d", ref.InNumKey(k), v))
				}
				for v := 0; v < 1024; v++ {
					one("num", lf("%s=%d", ref.InNumKey(k), v))
				}
			}
			for _, a := range gen.Uint32s() {
				one("bright1", lf("PanelBrightness=%d", a))
				for _, b := range gen.Uint32s() {
					one("bright2", lf("PanelBrightness=%d,%d", a, b))
				}
			}
			for _, r := range []string{"Mem", "Flag#", "Shift", "State"} {
				for _, i := range gen.RegIDs() {
					if r == "Flag#" && strings.Trim(i, "0123456789") != "" {
						continue
					}
					for _, v := range gen.Uint32s() {
						one("reg", lf("%s%s=%d", r, i, v))
					}
				}
			}
			for _, w := range []string{"Normal", "Safemode", "Blocked"} {
				one("env", l("SimulateEnvironmentalHealth="+w))
			}
			for _, j := range []string{`{}`, `{"a":1,"b":[1,2]}`, `{"t":"a=b|c"}`, "[]"} {
				one("calib", l("SetCalibrationProfile="+j))
			}
			for m := 0; m < 128; m++ {
				f := []string{}
				for k, s := range []string{`"dhcp":true`, `"address":"10.0.0.5"`, `"netmask":"255.0.0.0"`, `"gateway":"10.0.0.1"`, `"first_dns":"1.1.1.1"`, `"second_dns":"8.8.8.8"`, `"no_default_route":true`} {
					if m>>k&1 == 1 {
						f = append(f, s)
					}
				}
				one("net", l("SetNetworkConfig={"+strings.Join(f, ",")+"}"))
			}
		})
		c.Phase("graphics transfers, simple and advanced", func() {
			for _, k := range []string{"HWCg#", "HWCgRGB#", "HWCgGray#"} {
				for _, li := range lists {
					for _, n := range []int{3, 200, 255, 256, 257, 300} { // simple: exactly three lines
						per := (n + 2) / 3
						if (n+per-1)/per == 3 {
							one("simple", gfxLines(k, li, "", bytesN(n, 1), per))
						}
					}
				}
				c.Parallel(vk.Pick(c, 700, 3000), func(n int) {
					n++
					for _, h := range []string{"64x32", "1x1", "320x240,5,7", "0x0,0,0", "4294967295x9,4294967295,1"} {
						one("advanced", gfxLines(k, lists[n%len(lists)], h, bytesN(n, n), 170))
					}
					one("advanced", gfxLines(k, "5", "8x8", bytesN(n, n), 1+n%97))
				})
			}
		})
		c.Phase("JSON states and message arrays", func() {
			js := func(kind string, keep bool, s *rwp.HWCState) {
				e := ref.InMsg(ref.Strict, &rwp.InboundMessage{States: []*rwp.HWCState{s}})
				one(kind, item{[]string{ref.StateJSON(s, keep)}, [][]ref.Eff{e}})
			}
			ja := func(keep bool, ms ...*rwp.InboundMessage) {
				var p []string
				var e []ref.Eff
				for _, m := range ms {
					p = append(p, ref.MsgJSON(m, keep))
					e = append(e, ref.InMsg(ref.Strict, m)...)
				}
				one("jsonmsg", item{[]string{"[" + strings.Join(p, ",") + "]"}, [][]ref.Eff{e}})
			}
			for _, keep := range []bool{false, true} {
				for m := 0; m < 64; m++ {
					for v := 0; v < 2; v++ {
						for _, ids := range [][]uint32{{1}, {4, 5}, {4294967295}, {}} {
							js("json", keep, gen.StateMask(m, ids, v))
							ja(keep, &rwp.InboundMessage{States: []*rwp.HWCState{gen.StateMask(m, ids, v), gen.StateMask(63-m, ids, v)}})
						}
					}
				}
				for _, b := range gen.TextBases() {
					gen.Deviations(c, b, gen.TextFields(false), 2, func(t *rwp.HWCText) {
						js("jsontext", keep, &rwp.HWCState{HWCIDs: []uint32{2}, HWCText: t})
					})
				}
				for s := 0; s < 6; s++ {
					for b := 0; b < 32; b++ {
						js("json", keep, &rwp.HWCState{HWCIDs: []uint32{9}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(s), Output: b >= 16, BlinkPattern: uint32(b % 16)}})
					}
				}
				alpha := gen.InAlphabet()
				for i := range alpha {
					ja(keep, alpha[i]())
					for j := range alpha {
						ja(keep, alpha[i](), alpha[j]())
					}
				}
				ja(keep)
			}
		})
		words := []string{"ping", "ack", "nack", "ActivePanel", "SimulateEnvironmentalHealth", "SetNetworkConfig", "SetCalibrationProfile", "PanelBrightness", "HWC#", "HWCx#", "HWCc#", "HWCt#", "HWCg#", "HWCgRGB#", "HWCgGray#", "HWCrawADCValues#", "Mem", "Flag#", "Shift", "State"}
		for i := 0; i < ref.NumInFlags(); i++ {
			words = append(words, ref.InFlagWord(i))
		}
		for i := 0; i < ref.NumInNums(); i++ {
			words = append(words, ref.InNumKey(i))
		}
		c.Phase("non-grammar lines: every single-character edit of every keyword", func() {
			ins := []byte("aZ0 _#=?!.x\x00\xff\t\"{[")
			vals := []string{"", "=1", "=5,6", "1=3", "1,2=70", "A=2", "=abc", "1=0/0,8x1:AAAA", "=0", "1=|7|", "={}"}
			var junk []string
			known := func(s string) bool { r := &ref.InReader{}; r.Line(s); return r.Unknown == 0 }
			add := func(w string) {
				for _, v := range vals {
					s := w + v
					if strings.HasPrefix(s, "{") || strings.HasPrefix(s, "[") || known(s) {
						continue
					}
					junk = append(junk, s)
				}
			}
			for _, w := range words {
				for i := 0; i <= len(w); i++ {
					if i < len(w) {
						add(w[:i] + w[i+1:])
						x := w[i] ^ 0x20
						add(w[:i] + string(rune(x)) + w[i+1:])
						if i+1 < len(w) {
							add(w[:i] + string(w[i+1]) + string(w[i]) + w[i+2:])
						}
					}
					for _, b := range ins {
						add(w[:i] + string([]byte{b}) + w[i:])
					}
				}
				add(w + w)
			}
			for _, p := range []string{"_model=x", "map=1:1", "HWC#1=Down", "HWC#1.4=Up", "Msg=hi", "RDY", "BSY"} {
				_ = p // panel-side lines: HWC#.. is grammar here (value reads 0), the rest is not
			}
			for _, p := range []string{"_model=x", "map=1:1", "Msg=hi", "RDY", "BSY", "_serial=1", "SysStat=CPUUsage:1:", "DimmedGain", "HWC#1", "HWC#=4", "HWC#a=4", "HWCt#=x", "hello", "\x00", "=", "#", "|||", "0", "HWCg#1=0", "HWCg#1=x:AA==", "Mem=", "MemA=x", "Flag#1=-1", "PanelBrightness=1,2,3", "PanelBrightness=,", "SleepTimer=", "SleepTimer=-1", "SleepTimer=1.5", "ActivePanel=0", "ActivePanel=2"} {
				if !known(p) {
					junk = append(junk, p)
				}
			}
			c.Extra("distinct_non_grammar_lines", len(junk))
			c.Parallel(len(junk), func(i int) {
				none := item{[]string{junk[i]}, [][]ref.Eff{nil}}
				one("junk", none)
				one("junk", l("HWC#1=36"), none, l("HWCc#2=70"))
			})
		})
		var alpha []item
		for _, s := range []string{"ping", "nack", "list", "map", "Clear", "HWC#1=4", "HWC#1=37", "HWC#1,2=5", "HWCc#1=130", "HWCc#1=114", "HWCx#1=4096", "HWCx#2=20481", "HWCt#1=32|2||T", "HWCt#1=|||X|1|Y", "HWCt#1=2|10||||A|B", "HWCrawADCValues#1=1",
			"MemA=5", "MemA=6", "Flag#3=1", "Shift=2", "StateB=0", "PanelBrightness=4", "PanelBrightness=4,5", "SleepTimer=60", "Webserver=1", "", "garbage", "HWC=5", `{"HWCIDs":[1],"HWCMode":{"State":4}}`} {
			if strings.HasPrefix(s, "{") {
				st := &rwp.HWCState{HWCIDs: []uint32{1}, HWCMode: &rwp.HWCMode{State: 4}}
				alpha = append(alpha, item{[]string{s}, [][]ref.Eff{ref.InMsg(ref.Strict, &rwp.InboundMessage{States: []*rwp.HWCState{st}})}})
				continue
			}
			alpha = append(alpha, l(s))
		}
		alpha = append(alpha, gfxLines("HWCg#", "1", "8x4", bytesN(4, 3), 170), gfxLines("HWCgRGB#", "1,2", "10x10,1,2", bytesN(200, 4), 170), gfxLines("HWCg#", "3", "", bytesN(256, 5), 86), gfxLines("HWCgGray#", "1", "20x20", bytesN(340, 6), 170))
		c.Phase("long histories, lists, texts and transfers", func() {
			long := []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1001, 1025, 5000}
			c.Parallel(len(long), func(k int) {
				n := long[k]
				for _, step := range []int{1, 5} {
					var its []item
					for i := 0; i < n; i++ {
						its = append(its, alpha[i*step%len(alpha)])
					}
					one("long", its...)
				}
				var ids []string
				for i := 0; i < n; i++ {
					ids = append(ids, fmt.Sprint(i*7))
				}
				list := strings.Join(ids, ",")
				s := strings.Repeat("A long text. ", n/13+1)[:n] + "!"
				one("long", l("HWC#"+list+"=37"))
				one("long", l("HWCx#"+list+"=20481"))
				one("long", l("HWCc#"+list+"=130"))
				one("long", l("HWCt#"+list+"=32|2||T"))
				one("long", l("HWCrawADCValues#"+list+"=1"))
				one("long", gfxLines("HWCgRGB#", list, "10x10,1,2", bytesN(200, 4), 170))
				one("long", l("HWC#1=4"), l("HWCt#1=|||"+s+"|1|1"+s+"|"+s+"2"), l("HWC#1=5"))
				if n > 5 {
					one("long", l("Mem"+strings.Repeat("A", n)+"=5"))
				}
				for _, kind := range []string{"HWCg#", "HWCgRGB#", "HWCgGray#"} {
					one("long", gfxLines(kind, "1,2", "300x200", bytesN(n*170-1, 3), 170), l("HWC#1=4"))
				}
			})
		})
		c.Phase("results kept and changed by the caller: all pairs of calls", func() {
			var its [][]string
			for _, a := range alpha {
				its = append(its, a.lines)
			}
			for v := 0; v < 256; v++ {
				its = append(its, []string{fmt.Sprintf("HWCc#1=%d", v)})
			}
			for i := 0; i < 24; i++ {
				its = append(its, []string{fmt.Sprintf("HWC#7=%d", 4+i*8), fmt.Sprintf("HWCx#7=%d", i*2731)}, []string{"HWCt#1=5|1||Title|1|Label" + strings.Repeat("|3", i)})
			}
			its = append(its, []string{`{"HWCIDs":[1,2],"HWCText":{"Title":"a","BackgroundColor":{"ColorRGB":{"Red":4}}},"HWCGfx":{"ImageData":"AAEC","W":8,"H":3}}`}, []string{`[{"States":[{"HWCIDs":[3],"HWCColor":{"ColorIndex":{"Index":3}}}]},{"FlowMessage":1}]`})
			keep.Decoder(c, lib.RawPanelASCIIstringsToInboundMessages, its)
		})
		for d := 1; d <= vk.Pick(c, 3, 4); d++ {
			c.Phase(fmt.Sprintf("histories: all sequences of %d items over an alphabet of %d", d, len(alpha)), func() {
				n := 1
				for i := 0; i < d; i++ {
					n *= len(alpha)
				}
				c.Parallel(n, func(i int) {
					its := make([]item, d)
					for k := range its {
						its[k] = alpha[i%len(alpha)]
						i /= len(alpha)
					}
					one("history", its...)
				})
			})
		}
	})
}
