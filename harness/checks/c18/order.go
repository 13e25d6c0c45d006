package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"

	rawpanel "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"

	"verif.local/harness/ex"
)

// --- "depends only on its inputs": histories and concurrent calls ----------------

type rendering struct {
	t *rwp.HWCText
	g geo
}

func (r rendering) hash() string {
	img := rawpanel.WriteDisplayTileNew(proto.Clone(r.t).(*rwp.HWCText), r.g.w, r.g.h, r.g.shrink, r.g.border)
	h := sha256.New()
	fmt.Fprintf(h, "%d %d ", img.Width, img.Height)
	h.Write(img.GetImgSlice())
	h.Write(img.GetImgSliceRGB())
	return fmt.Sprintf("%x", h.Sum(nil)[:9])
}

func (r rendering) String() string {
	return fmt.Sprintf("{%v} on %dx%d shrink %d border %d", r.t, r.g.w, r.g.h, r.g.shrink, r.g.border)
}

// renderings are states that differ from a base in one field, and one state on
// many geometries: whatever a call keeps for a later one under too coarse a
// key shows between two of them.
func renderings() (out []rendering) {
	for bi, b := range bases() {
		for ai, a := range alphabets() {
			for si, s := range a {
				if !c.Thorough() && bi != 1 && (si+ai+bi)%2 != 0 {
					continue
				}
				t := proto.Clone(b).(*rwp.HWCText)
				s(t)
				out = append(out, rendering{proto.Clone(t).(*rwp.HWCText), geos[(bi+ai)%3]})
			}
		}
		for _, g := range append(append([]geo{}, geos...), geo{64, 32, 0, 1}, geo{64, 32, 1, 0}, geo{64, 32, 2, 0}, geo{32, 64, 0, 0}, geo{64, 33, 0, 0}, geo{63, 32, 0, 0}) {
			out = append(out, rendering{b, g})
			inv := proto.Clone(b).(*rwp.HWCText)
			inv.Inverted = true
			out = append(out, rendering{inv, g})
		}
	}
	return
}

// child renders, in a fresh process, number k first and then all in order.
func child(k int) {
	rs := renderings()
	out := make([]string, 0, len(rs)+1)
	out = append(out, rs[k].hash())
	for i := range rs {
		if k%2 == 1 {
			i = len(rs) - 1 - i
		}
		out = append(out, rs[i].hash())
	}
	json.NewEncoder(os.Stdout).Encode(out)
	os.Exit(0)
}

func orders() {
	rs := renderings()
	c.AddExtra("renderings compared across histories", int64(len(rs)))
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	res := make([][]string, len(rs))
	var mu sync.Mutex
	c.Parallel(len(rs), func(k int) {
		cmd := exec.Command(exe)
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_C18_FIRST=%d", k), "GOMAXPROCS=1")
		var eb bytes.Buffer
		cmd.Stderr = &eb
		b, err := cmd.Output()
		var l []string
		if err == nil {
			err = json.Unmarshal(b, &l)
		}
		mu.Lock()
		defer mu.Unlock()
		if err != nil || len(l) != len(rs)+1 {
			c.Run(func() any { return rs[k].String() }, func() string {
				return fmt.Sprintf("totality: a process that renders this first dies: %v %.300s", err, eb.String())
			})
			return
		}
		res[k] = l
		c.Trans(len(l))
		c.Trace(1)
	})
	for k, l := range res {
		if l == nil {
			continue
		}
		for i := range rs {
			p := i
			if k%2 == 1 {
				p = len(rs) - 1 - i
			}
			if res[i] == nil || l[1+p] == res[i][0] {
				continue
			}
			c.Run(func() any { return map[string]any{"rendering": rs[i].String(), "first in its process": rs[k].String()} }, func() string {
				return "inputs only: the result differs from that of the same call in a fresh process"
			})
		}
	}
}

var alone = map[int]string{}

func concurrent(race bool) (out []*ex.Scenario) {
	var rs []rendering
	tg := []geo{{24, 20, 0, 0}, {17, 18, 3, 0}, {32, 24, 0, 1}}
	for i, b := range bases() {
		rs = append(rs, rendering{b, tg[i%3]})
	}
	rs = append(rs,
		rendering{&rwp.HWCText{Formatting: 1, IntegerValue: 70, Title: "Q", Inverted: true, PixelColor: idx(4), BackgroundColor: rgb(9, 99, 199)}, tg[0]},
		rendering{&rwp.HWCText{Formatting: 7, Title: "QW", Textline1: "zz", TextStyling: &rwp.HWCText_TextStyle{FixedWidth: true, TextFont: &rwp.HWCText_TextStyle_Font{FontFace: 2, TextWidth: 1, TextHeight: 2}, TitleFont: &rwp.HWCText_TextStyle_Font{FontFace: 1}}}, tg[0]},
		rendering{&rwp.HWCText{IntegerValue: 5, Scale: &rwp.HWCText_ScaleM{ScaleType: 2, RangeHigh: 9, LimitHigh: 4}}, tg[1]},
	)
	if len(alone) == 0 && ex.InWorker() {
		for i, r := range rs {
			alone[i] = r.hash()
		}
	}
	add := func(bound int, sel ...int) {
		out = append(out, &ex.Scenario{Group: fmt.Sprintf("%d renderings, bound %d", len(sel), bound), Bound: bound, Input: func() any {
			var n []string
			for _, i := range sel {
				n = append(n, rs[i].String())
			}
			return n
		}, Body: func(x *ex.X) string {
			got := make([]string, len(sel))
			var wg sync.WaitGroup
			for k, i := range sel {
				wg.Add(1)
				go func() {
					defer wg.Done()
					got[k] = rs[i].hash()
					x.Log("rendering %d done", k)
				}()
			}
			wg.Wait()
			for k, i := range sel {
				if got[k] != alone[i] {
					return fmt.Sprintf("inputs only: %v beside another call differs from the same call alone", rs[i])
				}
			}
			return ""
		}})
	}
	bound := 1
	if !race {
		bound = 2
	}
	for i := range rs {
		for j := i; j < len(rs); j++ {
			add(bound, i, j)
			for k := j; k < len(rs) && c.Thorough(); k++ {
				add(1, i, j, k)
			}
		}
	}
	return
}
