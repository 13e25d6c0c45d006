// Package keep checks that results belong to the caller: a later call neither
// changes an earlier result nor shares memory with it, and whatever the caller
// does with a result leaves later calls alone.
package keep

import (
	"fmt"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif.local/harness/vk"
)

// Call is one call of the library.
type Call struct {
	Name string
	Do   func() any
}

// Kind is how results are handled.
type Kind struct {
	Snap  func(any) string // complete content
	Spoil func(any)        // changes everything the result consists of; nil: the result may be shared with its argument
}

// Pairs runs all ordered pairs of calls (and depth 3 over the first few).
func Pairs(c *vk.Check, k Kind, calls []Call) {
	want := make([]string, len(calls))
	for i, q := range calls {
		c.Run(q.Name, func() string { want[i] = k.Snap(q.Do()); return "" })
	}
	n := len(calls)
	// One worker: these are histories, not concurrent calls.
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a, b := calls[i], calls[j]
			c.Run(func() any { return []string{a.Name, b.Name, "the caller changes the first result", a.Name} }, func() string {
				ra := a.Do()
				if s := k.Snap(ra); s != want[i] {
					return fmt.Sprintf("kept: %s now yields %.300s, the first time %.300s", a.Name, s, want[i])
				}
				rb := b.Do()
				if s := k.Snap(rb); s != want[j] {
					return fmt.Sprintf("kept: after %s, %s yields %.300s, the first time %.300s", a.Name, b.Name, s, want[j])
				}
				if s := k.Snap(ra); s != want[i] {
					return fmt.Sprintf("kept: %s changed an earlier result of %s to %.300s, it was %.300s", b.Name, a.Name, s, want[i])
				}
				c.Trans(2)
				if k.Spoil != nil {
					k.Spoil(ra)
					if s := k.Snap(rb); s != want[j] {
						return fmt.Sprintf("kept: the result of %s shares memory with an earlier one of %s: %.300s, it was %.300s", b.Name, a.Name, s, want[j])
					}
					if s := k.Snap(b.Do()); s != want[j] {
						return fmt.Sprintf("kept: %s yields %.300s after the caller changed an earlier result of %s; it was %.300s", b.Name, s, a.Name, want[j])
					}
					if s := k.Snap(a.Do()); s != want[i] {
						return fmt.Sprintf("kept: %s yields %.300s after the caller changed its earlier result; it was %.300s", a.Name, s, want[i])
					}
					c.Trans(2)
				}
				c.Trace(1)
				return ""
			})
		}
	}
	c.AddExtra("pairs of calls with results kept", int64(n*n))
}

// Messages handles slices of messages.
func Messages[M proto.Message]() Kind {
	return Kind{Snap: func(r any) string {
		s := ""
		for _, m := range r.([]M) {
			b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
			s += fmt.Sprintf("%x %v; ", b, err)
		}
		return s
	}, Spoil: func(r any) {
		ms := r.([]M)
		for _, m := range ms {
			Spoil(m.ProtoReflect())
		}
		clear(ms)
	}}
}

// Within spoils each message of a result and looks whether another one changes.
func Within[M proto.Message](ms []M) string {
	for i := range ms {
		var before []string
		snap := func(j int) string {
			b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(ms[j])
			return string(b)
		}
		for j := range ms {
			before = append(before, snap(j))
		}
		Spoil(ms[i].ProtoReflect())
		for j := range ms {
			if j != i && snap(j) != before[j] {
				return fmt.Sprintf("kept: messages %d and %d of one result share memory", i, j)
			}
		}
	}
	return ""
}

// Spoil changes every populated field in place.
func Spoil(m protoreflect.Message) {
	if !m.IsValid() {
		return
	}
	type fv struct {
		f protoreflect.FieldDescriptor
		v protoreflect.Value
	}
	var fs []fv
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		fs = append(fs, fv{f, v})
		return true
	})
	for _, x := range fs {
		switch {
		case x.f.IsMap():
			var ks []protoreflect.MapKey
			x.v.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool { ks = append(ks, k); return true })
			for _, k := range ks {
				v := x.v.Map().Get(k)
				if x.f.MapValue().Message() != nil {
					Spoil(v.Message())
				} else {
					x.v.Map().Set(k, other(x.f.MapValue(), v))
				}
			}
		case x.f.IsList():
			for i := 0; i < x.v.List().Len(); i++ {
				v := x.v.List().Get(i)
				if x.f.Message() != nil {
					Spoil(v.Message())
				} else {
					x.v.List().Set(i, other(x.f, v))
				}
			}
		case x.f.Message() != nil:
			Spoil(x.v.Message())
		default:
			m.Set(x.f, other(x.f, x.v))
		}
	}
}

func other(f protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(!v.Bool())
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(v.Enum() + 1)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(v.Int()) + 1)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(v.Uint()) + 1)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(v.Int() + 1)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(v.Uint() + 1)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(v.Float()) + 1)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(v.Float() + 1)
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(v.String() + "~")
	case protoreflect.BytesKind:
		b := v.Bytes()
		for i := range b {
			b[i] ^= 0xff
		}
		return protoreflect.ValueOfBytes(b)
	}
	return v
}

// Decoder checks a function from lines to messages over items of lines: all
// ordered pairs of calls with one item each, and all pairs in one call.
func Decoder[M proto.Message](c *vk.Check, decode func([]string) []M, items [][]string) {
	var calls []Call
	for _, it := range items {
		calls = append(calls, Call{fmt.Sprintf("decoding %.300q", it), func() any { return decode(append([]string{}, it...)) }})
	}
	Pairs(c, Messages[M](), calls)
	for i := range items {
		for j := range items {
			ls := append(append([]string{}, items[i]...), items[j]...)
			c.Run(ls, func() string { return Within(decode(ls)) })
			c.Trans(1)
		}
	}
	c.Trace(len(items) * len(items))
}
