package keep

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"image"
	"image/color"
	"reflect"
	"sort"

	"verif.local/harness/vk"
)

// Lines handles []string.
//
// Their order is left to the checks of the encoders.
func Lines() Kind {
	return Kind{Snap: func(r any) string {
		l := append([]string{}, r.([]string)...)
		sort.Strings(l)
		return fmt.Sprintf("%q", l)
	}, Spoil: func(r any) {
		l := r.([]string)
		for i := range l {
			l[i] += "~"
		}
		_ = append(l, "~")
	}}
}

// Encoder checks a function from messages to lines: all ordered pairs of calls.
func Encoder[M any](c *vk.Check, encode func([]M) []string, items []func() M) {
	var calls []Call
	for i, it := range items {
		calls = append(calls, Call{fmt.Sprintf("encoding message %d, %v", i, it()), func() any { return encode([]M{it()}) }})
	}
	for i := range items {
		j := (i*7 + 3) % len(items)
		calls = append(calls, Call{fmt.Sprintf("encoding messages %d and %d", i, j), func() any { return encode([]M{items[i](), items[j]()}) }})
	}
	Pairs(c, Lines(), calls)
}

func sum(b []byte) string {
	if len(b) <= 40 {
		return fmt.Sprintf("%x", b)
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d bytes, hash %x", len(b), h.Sum64())
}

// Bytes handles []byte.
func Bytes() Kind {
	return Kind{Snap: func(r any) string { return sum(r.([]byte)) }, Spoil: func(r any) {
		for i := range r.([]byte) {
			r.([]byte)[i] ^= 0xff
		}
	}}
}

// Image handles image.Image.
func Image() Kind {
	return Kind{Snap: func(r any) string {
		img := r.(image.Image)
		b := img.Bounds()
		d := []byte{}
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				r, g, bl, a := img.At(x, y).RGBA()
				d = append(d, byte(r>>8), byte(g>>8), byte(bl>>8), byte(a>>8))
			}
		}
		return fmt.Sprint(b, " ", sum(d))
	}, Spoil: func(r any) {
		img, ok := r.(interface {
			image.Image
			Set(x, y int, c color.Color)
		})
		if !ok {
			return
		}
		b := img.Bounds()
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				r, g, bl, _ := img.At(x, y).RGBA()
				img.Set(x, y, color.RGBA{byte(r>>8) ^ 0x80, byte(g>>8) ^ 0x80, byte(bl>>8) ^ 0x80, 255})
			}
		}
	}}
}

// Exports is a bitmap object.
type Exports interface {
	GetImgSlice() []byte
	GetImgSliceRGB() []byte
	GetImgSliceGray() []byte
}

// Mono handles bitmaps.
func Mono() Kind {
	return Kind{Snap: func(r any) string {
		m := r.(Exports)
		return sum(append(append(append([]byte{}, m.GetImgSlice()...), m.GetImgSliceRGB()...), m.GetImgSliceGray()...))
	}, Spoil: func(r any) {
		m := r.(Exports)
		for _, b := range [][]byte{m.GetImgSlice(), m.GetImgSliceRGB(), m.GetImgSliceGray()} {
			for i := range b {
				b[i] ^= 0xff
			}
		}
	}}
}

// Struct handles pointers to structures, by their JSON form. shared: the
// result may share memory with its argument, so it is not spoilt.
func Struct(shared bool) Kind {
	k := Kind{Snap: func(r any) string { b, err := json.Marshal(r); return fmt.Sprint(string(b), " ", err) }, Spoil: func(r any) { spoil(reflect.ValueOf(r)) }}
	if shared {
		k.Spoil = nil
	}
	return k
}

func spoil(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			spoil(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				spoil(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			spoil(e)
			v.SetMapIndex(k, e)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "~")
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 1)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 1)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}
