package ref

import (
	"encoding/base64"
	"fmt"
	"strconv"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
)

// obj is a tiny ordered JSON object writer; keys with zero values are omitted
// unless keep is set (both spellings are legal).
type obj struct {
	parts []string
	keep  bool
}

func (o *obj) raw(k, v string) { o.parts = append(o.parts, strconv.Quote(k)+":"+v) }
func (o *obj) i(k string, v int64) {
	if v != 0 || o.keep {
		o.raw(k, strconv.FormatInt(v, 10))
	}
}
func (o *obj) b(k string, v bool) {
	if v || o.keep {
		o.raw(k, strconv.FormatBool(v))
	}
}
func (o *obj) s(k string, v string) {
	if v != "" || o.keep {
		o.raw(k, jstr(v))
	}
}
func (o *obj) String() string { return "{" + strings.Join(o.parts, ",") + "}" }

func jstr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 32:
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func jlist[T any](xs []T, f func(T) string) string {
	var p []string
	for _, x := range xs {
		p = append(p, f(x))
	}
	return "[" + strings.Join(p, ",") + "]"
}

func colorJSON(rgb *rwp.ColorRGB, idx *rwp.ColorIndex, keep bool) string {
	o := &obj{keep: keep}
	if rgb != nil {
		c := &obj{keep: keep}
		c.i("Red", int64(rgb.Red))
		c.i("Green", int64(rgb.Green))
		c.i("Blue", int64(rgb.Blue))
		o.raw("ColorRGB", c.String())
	}
	if idx != nil {
		c := &obj{keep: keep}
		c.i("Index", int64(idx.Index))
		o.raw("ColorIndex", c.String())
	}
	return o.String()
}

// StateJSON writes a state as the protocol's JSON state line.
func StateJSON(s *rwp.HWCState, keep bool) string {
	o := &obj{keep: keep}
	if len(s.HWCIDs) > 0 || keep {
		o.raw("HWCIDs", jlist(s.HWCIDs, func(n uint32) string { return id(n) }))
	}
	if m := s.HWCMode; m != nil {
		c := &obj{keep: keep}
		c.i("State", int64(m.State))
		c.b("Output", m.Output)
		c.i("BlinkPattern", int64(m.BlinkPattern))
		o.raw("HWCMode", c.String())
	}
	if m := s.HWCColor; m != nil {
		o.raw("HWCColor", colorJSON(m.ColorRGB, m.ColorIndex, keep))
	}
	if m := s.HWCExtended; m != nil {
		c := &obj{keep: keep}
		c.i("Interpretation", int64(m.Interpretation))
		c.i("Value", int64(m.Value))
		o.raw("HWCExtended", c.String())
	}
	if t := s.HWCText; t != nil {
		o.raw("HWCText", textJSON(t, keep))
	}
	if g := s.HWCGfx; g != nil {
		c := &obj{keep: keep}
		c.i("ImageType", int64(g.ImageType))
		c.i("W", int64(g.W))
		c.i("H", int64(g.H))
		c.b("XYoffset", g.XYoffset)
		c.i("X", int64(g.X))
		c.i("Y", int64(g.Y))
		c.s("ImageData", base64.StdEncoding.EncodeToString(g.ImageData))
		o.raw("HWCGfx", c.String())
	}
	if m := s.PublishRawADCValues; m != nil {
		c := &obj{keep: keep}
		c.b("Enabled", m.Enabled)
		o.raw("PublishRawADCValues", c.String())
	}
	return o.String()
}

func fontJSON(f *rwp.HWCText_TextStyle_Font, keep bool) string {
	c := &obj{keep: keep}
	c.i("FontFace", int64(f.FontFace))
	c.i("TextHeight", int64(f.TextHeight))
	c.i("TextWidth", int64(f.TextWidth))
	return c.String()
}

func textJSON(t *rwp.HWCText, keep bool) string {
	c := &obj{keep: keep}
	c.i("IntegerValue", int64(t.IntegerValue))
	c.i("Formatting", int64(t.Formatting))
	c.i("StateIcon", int64(t.StateIcon))
	c.i("ModifierIcon", int64(t.ModifierIcon))
	c.s("Title", t.Title)
	c.b("SolidHeaderBar", t.SolidHeaderBar)
	c.s("Textline1", t.Textline1)
	c.s("Textline2", t.Textline2)
	c.i("IntegerValue2", int64(t.IntegerValue2))
	c.i("PairMode", int64(t.PairMode))
	if x := t.Scale; x != nil {
		d := &obj{keep: keep}
		d.i("ScaleType", int64(x.ScaleType))
		d.i("RangeLow", int64(x.RangeLow))
		d.i("RangeHigh", int64(x.RangeHigh))
		d.i("LimitLow", int64(x.LimitLow))
		d.i("LimitHigh", int64(x.LimitHigh))
		c.raw("Scale", d.String())
	}
	if x := t.TextStyling; x != nil {
		d := &obj{keep: keep}
		if x.TitleFont != nil {
			d.raw("TitleFont", fontJSON(x.TitleFont, keep))
		}
		if x.TextFont != nil {
			d.raw("TextFont", fontJSON(x.TextFont, keep))
		}
		d.b("FixedWidth", x.FixedWidth)
		d.i("TitleBarPadding", int64(x.TitleBarPadding))
		d.i("ExtraCharacterSpacing", int64(x.ExtraCharacterSpacing))
		d.i("UnformattedFontSize", int64(x.UnformattedFontSize))
		c.raw("TextStyling", d.String())
	}
	c.b("Inverted", t.Inverted)
	if x := t.PixelColor; x != nil {
		c.raw("PixelColor", colorJSON(x.ColorRGB, x.ColorIndex, keep))
	}
	if x := t.BackgroundColor; x != nil {
		c.raw("BackgroundColor", colorJSON(x.ColorRGB, x.ColorIndex, keep))
	}
	return c.String()
}

// MsgJSON writes an inbound message (states, registers, flow, numeric and flag commands).
func MsgJSON(m *rwp.InboundMessage, keep bool) string {
	o := &obj{keep: keep}
	o.i("FlowMessage", int64(m.FlowMessage))
	if c := m.Command; c != nil {
		d := &obj{keep: keep}
		d.b("ActivatePanel", c.ActivatePanel)
		d.b("SendPanelInfo", c.SendPanelInfo)
		d.b("SendPanelTopology", c.SendPanelTopology)
		d.b("SendRegisters", c.SendRegisters)
		d.b("ReportHWCavailability", c.ReportHWCavailability)
		d.b("SendBurninProfile", c.SendBurninProfile)
		d.b("SendCalibrationProfile", c.SendCalibrationProfile)
		d.b("SendNetworkConfig", c.SendNetworkConfig)
		d.b("ClearAll", c.ClearAll)
		d.b("ClearLEDs", c.ClearLEDs)
		d.b("ClearDisplays", c.ClearDisplays)
		d.b("WakeUp", c.WakeUp)
		d.b("GetSleepTimeout", c.GetSleepTimeout)
		d.b("GetConnections", c.GetConnections)
		d.b("GetRunTimeStats", c.GetRunTimeStats)
		d.b("Reboot", c.Reboot)
		if x := c.SetHeartBeatTimer; x != nil {
			d.raw("SetHeartBeatTimer", fmt.Sprintf(`{"Value":%d}`, x.Value))
		}
		if x := c.PanelBrightness; x != nil {
			d.raw("PanelBrightness", fmt.Sprintf(`{"OLEDs":%d,"LEDs":%d}`, x.OLEDs, x.LEDs))
		}
		if x := c.SetSleepTimeout; x != nil {
			d.raw("SetSleepTimeout", fmt.Sprintf(`{"Value":%d}`, x.Value))
		}
		o.raw("Command", d.String())
	}
	if len(m.States) > 0 {
		o.raw("States", jlist(m.States, func(s *rwp.HWCState) string { return StateJSON(s, keep) }))
	}
	if len(m.Registers) > 0 {
		o.raw("Registers", jlist(m.Registers, func(r *rwp.Register) string {
			d := &obj{keep: keep}
			d.i("Reg", int64(r.Reg))
			d.s("Id", r.Id)
			d.i("Value", int64(r.Value))
			return d.String()
		}))
	}
	return o.String()
}
