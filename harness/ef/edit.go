package ef

import (
	"strconv"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/verifmc/mc"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Walk finds the message and field that a dotted path such as
// "tachograph.vehicles_used.records[0].vehicle_registration.number" names.
func Walk(m proto.Message, path string) (protoreflect.Message, protoreflect.FieldDescriptor) {
	cur := m.ProtoReflect()
	parts := strings.Split(path, ".")
	for i, p := range parts {
		idx := -1
		if j := strings.IndexByte(p, '['); j >= 0 {
			idx, _ = strconv.Atoi(p[j+1 : len(p)-1])
			p = p[:j]
		}
		fd := cur.Descriptor().Fields().ByName(protoreflect.Name(p))
		if fd == nil {
			panic("no field " + p + " in " + path)
		}
		if i == len(parts)-1 && idx < 0 {
			return cur, fd
		}
		if idx >= 0 {
			cur = cur.Mutable(fd).List().Get(idx).Message()
		} else {
			cur = cur.Mutable(fd).Message()
		}
		if i == len(parts)-1 {
			panic("path ends in a list element: " + path)
		}
	}
	panic("empty path")
}

// Set stores a scalar, enum or message at a path; nil clears it.
func Set(m proto.Message, path string, v any) {
	o, fd := Walk(m, path)
	switch x := v.(type) {
	case nil:
		o.Clear(fd)
	case proto.Message:
		o.Set(fd, protoreflect.ValueOfMessage(x.ProtoReflect()))
	case int:
		switch fd.Kind() {
		case protoreflect.EnumKind:
			o.Set(fd, protoreflect.ValueOfEnum(protoreflect.EnumNumber(x)))
		case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
			o.Set(fd, protoreflect.ValueOfInt32(int32(x)))
		case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
			o.Set(fd, protoreflect.ValueOfInt64(int64(x)))
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			o.Set(fd, protoreflect.ValueOfUint32(uint32(x)))
		default:
			o.Set(fd, protoreflect.ValueOfUint64(uint64(x)))
		}
	default:
		o.Set(fd, protoreflect.ValueOf(v))
	}
}

// Sub is the submessage at a path.
func Sub(m proto.Message, path string) proto.Message {
	o, fd := Walk(m, path)
	if !o.Has(fd) {
		return nil
	}
	return o.Get(fd).Message().Interface()
}

// Parse parses a driver card that must be accepted.
func Parse(c *mc.Ch, data []byte) (*tachographv1.File, *cardv1.DriverCardFile) {
	f, err := tachograph.UnmarshalFile(data)
	if err != nil {
		c.Fail("refused: "+Class(err), "error", err.Error(), "file", data)
	}
	if f.GetDriverCard() == nil {
		c.Fail("not a driver card: "+f.GetType().String(), "file", data)
	}
	return f, f.GetDriverCard()
}
