package cl

import (
	"fmt"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

// OutSized is an outbound message whose payload has exactly n bytes.
func OutSized(n int) *rwp.OutboundMessage {
	if n == 0 {
		return &rwp.OutboundMessage{}
	}
	for _, flow := range []rwp.OutboundMessage_FlowMsg{0, rwp.OutboundMessage_PING} {
		for d := 0; d < 16 && n-d >= 0; d++ {
			t := make([]byte, max(0, n-d))
			for i := range t {
				t[i] = "abcdefghij\nklmnop\rqrstuvw\x00"[i%26]
			}
			m := &rwp.OutboundMessage{FlowMessage: flow}
			if len(t) > 0 || d == 3 || d == 5 {
				m.Message = &rwp.Message{Message: string(t)}
			}
			if proto.Size(m) == n {
				return m
			}
		}
	}
	panic(fmt.Sprint("no message of size ", n))
}

// Event is a small outbound message.
func Event(id, v int) *rwp.OutboundMessage {
	switch v % 3 {
	case 0:
		return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(id), Binary: &rwp.BinaryEvent{Pressed: true}}}}
	case 1:
		return &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(id), Pulsed: &rwp.PulsedEvent{Value: -1}}}}
	}
	return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_BSY, Events: []*rwp.HWCEvent{{HWCID: uint32(id), Absolute: &rwp.AbsoluteEvent{Value: 1000}}}}
}
