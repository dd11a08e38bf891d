package mc

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Flat is a message written as path -> value.
type Flat map[string]string

// Flatten writes out every populated field of m; fields named in skip are left out.
func Flatten(m proto.Message, skip ...string) Flat {
	out := Flat{}
	if m == nil || !m.ProtoReflect().IsValid() {
		return out
	}
	flatInto(out, "", m.ProtoReflect(), skip)
	return out
}

// FlattenAt is Flatten with a path prefix.
func FlattenAt(prefix string, m proto.Message, skip ...string) Flat {
	out := Flat{}
	if m == nil || !m.ProtoReflect().IsValid() {
		return out
	}
	out[prefix] = "{}"
	flatInto(out, prefix+".", m.ProtoReflect(), skip)
	return out
}

func flatInto(out Flat, prefix string, m protoreflect.Message, skip []string) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		name := string(fd.Name())
		for _, s := range skip {
			if s == name {
				return true
			}
		}
		p := prefix + name
		switch {
		case fd.IsMap():
			v.Map().Range(func(mk protoreflect.MapKey, mv protoreflect.Value) bool {
				out[p+"["+mk.String()+"]"] = mv.String()
				return true
			})
		case fd.IsList():
			l := v.List()
			out[p+"#"] = strconv.Itoa(l.Len())
			for i := 0; i < l.Len(); i++ {
				one(out, p+"["+strconv.Itoa(i)+"]", fd, l.Get(i), skip)
			}
		default:
			one(out, p, fd, v, skip)
		}
		return true
	})
	if u := m.GetUnknown(); len(u) > 0 {
		out[prefix+"?unknown"] = hex.EncodeToString(u)
	}
}

func one(out Flat, p string, fd protoreflect.FieldDescriptor, v protoreflect.Value, skip []string) {
	switch fd.Kind() {
	case protoreflect.MessageKind, protoreflect.GroupKind:
		m := v.Message()
		if m.Descriptor().FullName() == "google.protobuf.Timestamp" {
			f := m.Descriptor().Fields()
			s := m.Get(f.ByName("seconds")).Int()
			n := m.Get(f.ByName("nanos")).Int()
			if n == 0 {
				out[p] = "@" + strconv.FormatInt(s, 10)
			} else {
				out[p] = fmt.Sprintf("@%d.%09d", s, n)
			}
			return
		}
		out[p] = "{}"
		flatInto(out, p+".", m, skip)
	case protoreflect.EnumKind:
		n := v.Enum()
		if d := fd.Enum().Values().ByNumber(n); d != nil {
			out[p] = string(d.Name())
		} else {
			out[p] = fmt.Sprintf("enum(%d)", n)
		}
	case protoreflect.BytesKind:
		out[p] = "x" + hex.EncodeToString(v.Bytes())
	case protoreflect.StringKind:
		out[p] = strconv.Quote(v.String())
	default:
		out[p] = v.String()
	}
}

// Set stores a value.
func (f Flat) Set(p string, v any) { f[p] = fmt.Sprint(v) }

// zeroish reports whether a value is the same as an absent field.
func zeroish(v string) bool {
	switch v {
	case "", "0", "false", `""`, "x":
		return true
	}
	return strings.HasSuffix(v, "_UNSPECIFIED")
}

// Diff describes the first differences between want and got ("" when equal).
// A scalar field set to its zero value equals an absent one.
func Diff(want, got Flat) (path, detail string) {
	var keys []string
	for k, v := range want {
		g, ok := got[k]
		if g == v || (!ok && zeroish(v)) || (zeroish(g) && zeroish(v)) {
			continue
		}
		keys = append(keys, k)
	}
	for k, g := range got {
		if _, ok := want[k]; !ok && !zeroish(g) {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return "", ""
	}
	sort.Strings(keys)
	var sb strings.Builder
	for i, k := range keys {
		if i == 6 {
			fmt.Fprintf(&sb, "... %d more", len(keys)-6)
			break
		}
		w, wok := want[k]
		g, gok := got[k]
		if !wok {
			w = "(absent)"
		}
		if !gok {
			g = "(absent)"
		}
		fmt.Fprintf(&sb, "%s: want %s got %s; ", k, w, g)
	}
	return Generic(keys[0]), sb.String()
}

// Generic replaces indices in a path by [] so that keys are stable.
func Generic(p string) string {
	var sb strings.Builder
	in := false
	for _, r := range p {
		if r == '[' {
			in = true
			sb.WriteString("[]")
			continue
		}
		if r == ']' {
			in = false
			continue
		}
		if !in {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}
