// C04: panel-to-system ASCII lines decode to exactly what the grammar says.
package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	lib "github.com/SKAARHOJ/rawpanel-lib"
	"verif.local/harness/gen"
	"verif.local/harness/keep"
	"verif.local/harness/ref"
	"verif.local/harness/vk"
)

var c *vk.Check

// one feeds the lines in one call and compares report for report. junk lists
// the lines that must report nothing.
func run(kind string, lines []string, junk map[int]bool) {
	r := &ref.OutReader{}
	p := ref.Panel{}
	var want [][]ref.Eff
	n := 0
	for i, l := range lines {
		var e []ref.Eff
		if !junk[i] {
			u := r.Unknown
			e = r.Line(l)
			if r.Unknown != u {
				panic("harness: line " + strconv.Quote(l) + " is not in the grammar")
			}
		}
		want = append(want, e)
		p.Apply(e)
		n += len(e)
	}
	in := append([]string{}, lines...)
	c.Run(func() any { return map[string]any{"kind": kind, "lines": in} }, func() string {
		msgs := lib.RawPanelASCIIstringsToOutboundMessages(lines)
		var got []ref.Eff
		for _, m := range msgs {
			if m == nil {
				return "nil: a nil message was returned"
			}
			got = append(got, ref.OutMsg(m, false)...)
		}
		if d := ref.CompareOut(want, got); d != "" {
			return fmt.Sprintf("%s; lines=%.300q", d, lines)
		}
		for i := range in {
			if in[i] != lines[i] {
				return "mutated: the decoder changed its input"
			}
		}
		return ""
	})
	c.State(p.Canon())
	c.Trans(len(lines))
	c.Trace(1)
	if c.WantSample(kind) {
		c.Sample(kind, map[string]any{"lines": in, "reports": fmt.Sprint(want)})
	}
}

func one(kind string, lines ...string) { run(kind, lines, nil) }

var strKeys = []string{"_model", "_serial", "_version", "_platform", "_name", "_panelTopology_svgbase", "_panelTopology_HWC", "_burninProfile", "_calibrationProfile", "_defaultCalibrationProfile", "ErrorMsg", "Msg"}
var numKeys = []string{"_sleepTimer", "_serverModeMaxClients", "_heartBeatTimer", "DimmedGain", "_bootsCount", "_totalUptimeMin", "_sessionUptimeMin", "_screenSaverOnMin", "_isSleeping", "_bluePillReady"}
var otherKeys = []string{"_panelType", "_support", "_networkConfig", "_serverModeLockToIP", "_connections", "EnvironmentalHealth", "SysStat"}

func main() {
	vk.Main("C04", func(ck *vk.Check) {
		c = ck
		c.Assume("domain: values fit the message field (component id, Abs, Raw uint32; Enc, Speed int32); malformed values of known keys and empty values are not asserted; Flag registers have numeric ids",
			"network configurations are valid JSON")
		ids := []string{"0", "1", "9", "10", "37", "99", "100", "255", "256", "1000", "65536", "2147483648", "4294967295", "007", "01"}
		iv, uv := gen.Int32s(), gen.Uint32s()
		for v := int32(-2000); v <= 2000; v++ {
			iv = append(iv, v)
		}
		for v := uint32(0); v < 5000; v++ {
			uv = append(uv, v)
		}
		c.Phase("events", func() {
			c.Parallel(len(ids), func(k int) {
				for _, s := range []string{"Down", "Up", "Press"} {
					one("binary", fmt.Sprintf("HWC#%s=%s", ids[k], s))
					for e := 0; e < 300; e++ {
						one("binary", fmt.Sprintf("HWC#%s.%d=%s", ids[k], e, s))
					}
					one("binary", fmt.Sprintf("HWC#%s.04=%s", ids[k], s))
					one("binary", fmt.Sprintf("HWC#%s.2147483647=%s", ids[k], s))
				}
				for _, e := range []string{"", ".1", ".16"} {
					for _, v := range iv {
						one("signed", fmt.Sprintf("HWC#%s%s=Enc:%d", ids[k], e, v))
						one("signed", fmt.Sprintf("HWC#%s%s=Speed:%d", ids[k], e, v))
					}
					for _, v := range uv {
						one("unsigned", fmt.Sprintf("HWC#%s%s=Abs:%d", ids[k], e, v))
						one("unsigned", fmt.Sprintf("HWC#%s%s=Raw:%d", ids[k], e, v))
					}
				}
			})
			for i := uint32(0); i < 3000; i++ {
				one("ids", fmt.Sprintf("HWC#%d=Down", i), fmt.Sprintf("HWC#%d.2=Press", i), fmt.Sprintf("HWC#%d=Raw:%d", i, i+1))
			}
		})
		c.Phase("map entries", func() {
			for _, a := range gen.Uint32s() {
				for _, b := range gen.Uint32s() {
					one("map", fmt.Sprintf("map=%d:%d", a, b))
				}
			}
			one("map", "map=007:010", "map=1:0", "map=1:2", "map=2:1")
		})
		texts := []string{"x", " ", " a b ", "=", "a=b", "0", "1", "RDY", "a:b;c,d|e/f", "\xc3\xa9\xe2\x82\xac", "\xff\xfe", "\t", "%d%s", "<svg width=\"1\"/>", "{\"a\":[1,2]}", "\\n", "map=1:1", "HWC#1=Down", "_serial=3", "\x00", strings.Repeat("y", 5000), "a\rb", "$1"}
		c.Phase("identity and payload texts", func() {
			for _, k := range strKeys {
				for _, t := range texts {
					one("text", k+"="+t)
				}
				for r := 1; r < 0x250; r++ {
					if r != '\n' {
						one("char", k+"="+string(rune(r)), k+"=a"+string(rune(r))+"b")
					}
				}
				for b := 1; b < 256; b++ {
					if b != '\n' {
						one("byte", k+"="+string([]byte{byte(b)})+"z")
					}
				}
			}
		})
		c.Phase("numbers", func() {
			for _, k := range numKeys {
				for _, v := range uv {
					one("num", fmt.Sprintf("%s=%d", k, v))
				}
				one("num", k+"=007")
			}
		})
		c.Phase("panel types, health, lists, network", func() {
			for _, v := range []string{"BPI", "Physical", "Emulation", "Touch", "Composite"} {
				one("type", "_panelType="+v)
			}
			for _, v := range []string{"Normal", "Safemode", "Blocked"} {
				one("env", "EnvironmentalHealth="+v)
			}
			for _, k := range []string{"_serverModeLockToIP", "_connections"} {
				for _, v := range []string{"a", "a;b", "b;a", "10.0.0.1:50;10.0.0.2:60;", ";x", "x;;y", " x ; y ", "a b;c,d", "::1", strings.Repeat("z;", 60) + "z", "a;a"} {
					one("list", k+"="+v)
				}
			}
			for m := 0; m < 128; m++ {
				f := []string{`"dhcp":true`, `"address":"1.2.3.4"`, `"netmask":"255.0.0.0"`, `"gateway":"1.2.3.1"`, `"firstDns":"8.8.8.8"`, `"secondDns":"9.9.9.9"`, `"noDefaultRoute":true`}
				var s []string
				for k := range f {
					if m>>k&1 == 1 {
						s = append(s, f[k])
					}
				}
				j := "{" + strings.Join(s, ",") + "}"
				one("net", "_networkConfig="+j)
				one("net", "_networkConfig="+strings.ReplaceAll(strings.ReplaceAll(j, ",", " , "), ":", ": "))
			}
		})
		c.Phase("capability lists: all subsets, orders, unknown and repeated words", func() {
			n := len(ref.Caps)
			c.Parallel(1<<n*3, func(i int) {
				m, o := i%(1<<n), i>>n
				if m == 0 {
					return
				}
				var w []string
				for k := 0; k < n; k++ {
					q := k
					if o == 1 {
						q = n - 1 - k
					} else if o == 2 {
						q = (k*5 + 3) % n
					}
					if m>>q&1 == 1 {
						w = append(w, ref.Caps[q].Word)
					}
				}
				one("support", "_support="+strings.Join(w, ","))
			})
			words := []string{"ASCII", "Binary", "JSONonInbound", "JSONonOutbound", "System", "EnvHealth", "Unknown", "", "ascii", " Binary", "ASCIIx", "NetworkSettings"}
			c.Parallel(len(words)*len(words)*len(words), func(i int) {
				a, b, d := words[i%12], words[i/12%12], words[i/144]
				if a+b+d != "" || true {
					one("supportwords", "_support="+a+","+b+","+d)
				}
			})
		})
		c.Phase("system statistics: subsets and orders", func() {
			n := len(ref.Stats)
			val := func(k, v int) string {
				switch ref.Stats[k].Kind {
				case 'u':
					return []string{"7", "100", "4294967295", "0"}[v]
				case 'i':
					return []string{"1500", "-1", "2147483647", "-2147483648"}[v]
				case '1', '2':
					return []string{"45.5", "-12.25", "0.1", "100"}[v]
				}
				return []string{"1", "0", "1", "1"}[v]
			}
			q := vk.Pick(c, 1<<18, 1<<20)
			c.Parallel(q, func(i int) {
				m := i
				if q < 1<<20 { // all subsets of the first 18, the other two by parity
					m |= (i*5&1)<<18 | (i >> 3 & 1 << 19)
				}
				var p []string
				for k := 0; k < n; k++ {
					s := k
					if i%3 == 1 {
						s = n - 1 - k
					} else if i%3 == 2 {
						s = (k*7 + 4) % n
					}
					if m>>s&1 == 1 {
						p = append(p, ref.Stats[s].Name+":"+val(s, (i>>5)%4))
					}
				}
				if len(p) == 0 {
					return
				}
				l := "SysStat=" + strings.Join(p, ":")
				if i%2 == 0 {
					l += ":"
				}
				one("sysstat", l)
			})
			// each pair of fields with each pair of values, both orders
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					for v := 0; v < 16; v++ {
						one("sysstatpair", "SysStat="+ref.Stats[a].Name+":"+val(a, v%4)+":"+ref.Stats[b].Name+":"+val(b, v/4))
					}
				}
			}
			for _, f := range ref.Stats { // unknown field names report nothing
				for _, w := range []string{strings.ToLower(f.Name), f.Name + "x", "x" + f.Name, f.Name[1:], " " + f.Name} {
					one("sysstatunknown", "SysStat="+w+":1:CPUFreqMin:3", "SysStat=CPUFreqMin:3:"+w+":1:")
				}
			}
			// exact float values
			for k, f := range ref.Stats {
				if f.F == nil {
					continue
				}
				c.Parallel(vk.Pick(c, 20000, 200000), func(i int) {
					s := strconv.FormatFloat(float64(i-5000)/100, 'f', 1+i%2, 64)
					if i%7 == 0 {
						s = strconv.Itoa(i)
					}
					l := "SysStat=" + f.Name + ":" + s + ":"
					c.Run(map[string]any{"kind": "sysstatfloat", "lines": []string{l}}, func() string {
						ms := lib.RawPanelASCIIstringsToOutboundMessages([]string{l})
						if len(ms) != 1 || ms[0].SysStat == nil {
							return "sysstat: no report for " + l
						}
						w, _ := strconv.ParseFloat(s, 64)
						if g := *f.F(ms[0].SysStat); math.Abs(float64(g)-w) > 1e-5*math.Max(1, math.Abs(w)) {
							return fmt.Sprintf("sysstat %s: %s decoded as %v", f.Name, l, g)
						}
						return ""
					})
					c.Trace(1)
					c.Trans(1)
				})
				_ = k
			}
		})
		c.Phase("flow words, registers", func() {
			for _, w := range []string{"ping", "ack", "nack", "BSY", "RDY", "list", ""} {
				one("flow", w)
			}
			for _, p := range []string{"Mem", "Flag#", "Shift", "State"} {
				for _, i := range gen.RegIDs() {
					if p == "Flag#" && (i == "" || strings.Trim(i, "0123456789") != "") {
						continue
					}
					for _, v := range gen.Uint32s() {
						one("reg", fmt.Sprintf("%s%s=%d", p, i, v))
					}
				}
			}
		})
		c.Phase("non-grammar lines: every one- and two-edit of each keyword", func() {
			words := append(append(append([]string{"map", "HWC#1", "HWC#12.4", "MemA", "Flag#1", "ShiftB", "StateC", "ping", "ack", "nack", "BSY", "RDY", "list"}, strKeys...), numKeys...), otherKeys...)
			vals := []string{"", "=", "=1", "=1:1", "=Down", "=Enc:1", "=Normal", "=BPI", "=ASCII", "=CPUUsage:5:", "={}", "=a"}
			ins := []byte{'_', '#', ' ', 'x', 'H', '0', '.', ',', '=', ':', '-', '\t', 0, 0xFF}
			seen := map[string]bool{}
			var junk []string
			// a line is junk when the keyword before the first '=' is not one of the grammar's
			add := func(w string) {
				for _, v := range vals {
					s := w + v
					if seen[s] || strings.Contains(s, "\n") || knownKey(s) {
						continue
					}
					seen[s] = true
					junk = append(junk, s)
				}
			}
			edit := func(w string, f func(string)) {
				for i := 0; i <= len(w); i++ {
					if i < len(w) {
						f(w[:i] + w[i+1:])
						f(w[:i] + string([]byte{w[i] ^ 0x20}) + w[i+1:])
						if i+1 < len(w) {
							f(w[:i] + string(w[i+1]) + string(w[i]) + w[i+2:])
						}
						for _, b := range ins {
							f(w[:i] + string([]byte{b}) + w[i+1:])
						}
					}
					for _, b := range ins {
						f(w[:i] + string([]byte{b}) + w[i:])
					}
				}
			}
			for _, w := range words {
				edit(w, add)
				if c.Thorough() {
					edit(w, func(x string) { edit(x, add) })
				}
				add(w + w)
				add("x" + w)
			}
			for _, w := range words { // complete keywords behind other text
				add(" " + w)
				add("1" + w)
				add("{" + w)
			}
			for _, k := range []string{"down", "UP", "Foo", "Pres", "Presss", "Encc", "Ab", "raw", "RAW", "Scale", "DownUp", "_model", ""} {
				for _, h := range []string{"HWC#1=", "HWC#1.2="} {
					for _, a := range []string{"", ":1", ":-1"} {
						junk = append(junk, h+k+a)
					}
				}
			}
			for _, k := range []string{"HWC#1=4", "HWC#1=36", "HWCt#1=5|1", "HWCc#1=2", "HWCx#1=3", "HWCg#1=0:AAAA", "HWCrawADCValues#1=1", "Clear", "map", "SleepTimer=5", "PanelBrightness=4", "HeartBeatTimer=1", "encoderID", "PanelTopology?", "ActivePanel=1", "HWC#1,2=Down", "HWC#1x4=Down", "HWC#1:4=Up", "HWC#=Down", "HWC#a=Down", "HWC#-1=Down", "HWC#1.=Down", "HWC#1.x=Down", "map=1", "map=1:", "map=:1", "map=a:1", "map=1:1:1", "map=1,1", "map=-1:1", "Mem=", "MemA=x", "Mema=1", "Mem A=1", "Flag1=1", "Shift#=1", "hello world", "\x00", "=", "=1", "#", "|||", "0", "{}", "[]", `{"HWCIDs":[1]}`, "\xff"} {
				junk = append(junk, k)
			}
			c.Extra("distinct_non_grammar_lines", len(junk))
			c.Parallel(len(junk), func(i int) {
				run("junk", []string{junk[i]}, map[int]bool{0: true})
				run("junk", []string{"HWC#1.4=Press", junk[i], "HWC#2=Enc:-2"}, map[int]bool{1: true})
			})
		})
		alpha := []string{"ping", "ack", "RDY", "", "list", "HWC#1=Down", "HWC#1.4=Up", "HWC#2.1=Press", "HWC#1=Press", "HWC#3=Enc:-3", "HWC#3=Abs:500", "HWC#3=Speed:-500", "HWC#3=Raw:4000", "map=1:1", "map=1:0", "map=2:7",
			"_model=M", "_serial=S", "_version=1", "_support=ASCII,Binary", "_panelType=BPI", "_panelTopology_HWC={}", "_panelTopology_svgbase=<svg/>", "_isSleeping=1", "_sleepTimer=5", "_connections=a;b", "_bootsCount=4", "ErrorMsg=e", "Msg=m", "EnvironmentalHealth=Blocked", "SysStat=CPUUsage:3:Throttled:1:", "MemA=1", "Flag#2=1", "StateB=3", "_networkConfig={\"dhcp\":true}"}
		junk := []string{"garbage", "HWC#1=36"}
		c.Phase("long histories, lists and texts", func() {
			long := []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1001, 1025, 5000}
			c.Parallel(len(long), func(k int) {
				n := long[k]
				for _, step := range []int{1, 8} {
					var ls []string
					j := map[int]bool{}
					for i := 0; i < n; i++ {
						ls = append(ls, alpha[i*step%len(alpha)])
						if i%50 == 49 {
							j[len(ls)] = true
							ls = append(ls, junk[0])
						}
					}
					run("long", ls, j)
				}
				var evs, mp, ips []string
				for i := 0; i < n; i++ {
					evs = append(evs, fmt.Sprintf([]string{"HWC#%d.4=Down", "HWC#%d=Up", "HWC#%d.2=Press", "HWC#%d=Enc:-3", "HWC#%d=Abs:7", "HWC#%d=Speed:9", "HWC#%d=Raw:40"}[i%7], i))
					mp = append(mp, fmt.Sprintf("map=%d:%d", i*3, i%5))
					ips = append(ips, fmt.Sprintf("10.0.%d.%d", i/256, i%256))
				}
				one("long", evs...)
				one("long", mp...)
				one("long", "_connections="+strings.Join(ips, ";"), "_serverModeLockToIP="+strings.Join(ips, ";"), "HWC#1=Down")
				s := strings.Repeat("A long text. ", n/13+1)[:n] + "!"
				for i, k := range strKeys {
					one("long", "HWC#1=Down", fmt.Sprint(k, "=", i, s), "HWC#1=Up")
				}
			})
		})
		c.Phase("results kept and changed by the caller: all pairs of calls", func() {
			var its [][]string
			for _, a := range append(append([]string{}, alpha...), junk...) {
				its = append(its, []string{a})
			}
			for i := 0; i < 20; i++ {
				its = append(its, []string{fmt.Sprintf("HWC#%d=Down", i)}, []string{fmt.Sprintf("HWC#5.%d=Up", i)}, []string{fmt.Sprintf("HWC#%d=Enc:%d", i, i-10)}, []string{fmt.Sprintf("HWC#3=Abs:%d", i*50)}, []string{fmt.Sprintf("HWC#%d=Press", i)}, []string{fmt.Sprintf("HWC#4=Speed:%d", i*50-500)})
			}
			keep.Decoder(c, lib.RawPanelASCIIstringsToOutboundMessages, its)
		})
		for d := 1; d <= vk.Pick(c, 3, 4); d++ {
			c.Phase(fmt.Sprintf("histories: all sequences of %d lines over an alphabet of %d", d, len(alpha)+len(junk)), func() {
				k := len(alpha) + len(junk)
				n := 1
				for i := 0; i < d; i++ {
					n *= k
				}
				c.Parallel(n, func(i int) {
					ls, j := make([]string, d), map[int]bool{}
					for x := range ls {
						if q := i % k; q < len(alpha) {
							ls[x] = alpha[q]
						} else {
							ls[x], j[x] = junk[q-len(alpha)], true
						}
						i /= k
					}
					run("history", ls, j)
				})
			})
		}
	})
}

// knownKey tells whether the line starts with a keyword of the grammar (its
// value may be malformed; such lines are outside the property's last sentence).
func knownKey(s string) bool {
	switch s {
	case "", "ping", "ack", "nack", "BSY", "RDY", "list":
		return true
	}
	k, _, ok := strings.Cut(s, "=")
	if !ok {
		return false
	}
	for _, l := range [][]string{strKeys, numKeys, otherKeys, {"map"}} {
		for _, w := range l {
			if w == k {
				return true
			}
		}
	}
	if strings.HasPrefix(k, "HWC#") {
		a, b, dot := strings.Cut(k[4:], ".")
		return digits(a) && (!dot || digits(b))
	}
	for _, p := range []string{"Mem", "Flag#", "Shift", "State"} {
		if strings.HasPrefix(k, p) && strings.Trim(k[len(p):], "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") == "" {
			return true
		}
	}
	return false
}

func digits(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }
