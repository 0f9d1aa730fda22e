PR="pretty/pretty.go"; L="types/ssz_list.go"; V="types/ssz_vector.go"; LB="types/ssz_list_basic.go"; U16="types/ssz_uint16.go"; BO="types/ssz_bool.go"; CO="types/ssz_container.go"; BY="types/ssz_bytes.go"; BN="types/ssz_bytes_n.go"; EV="types/elem_var_size_series.go"; Z="zssz.go"; TG="util/tags/read_tag.go"; EN="enc/encoder.go"
E=[
("indent-loop",[(PR,"	pw.Write(strings.Repeat(pw.indent, int(indent)))","	for i := uint32(0); i < indent; i++ {\n		pw.Write(pw.indent)\n	}"),(PR,'	"strings"\n','')]),
("indent-len",[(PR,"	pw.Write(strings.Repeat(pw.indent, int(indent)))","	if len(pw.indent) == 0 || indent == 0 {\n		pw.Write(\"\")\n		return\n	}\n	pw.Write(strings.Repeat(pw.indent, int(indent)))")]),
("write-string",[(PR,"	_, _ = pw.w.Write([]byte(p))","	_, _ = io.WriteString(pw.w, p)")]),
("write-buf",[(PR,"	_, _ = pw.w.Write([]byte(p))","	buf := []byte(p)\n	if _, err := pw.w.Write(buf); err != nil {\n		return\n	}")]),
("sep",[(L,"""		if i == length-1 {
			w.Write("\\n")
		} else {
			w.Write(",\\n")
		}
""","""		sep := ",\\n"
		if i+1 == length {
			sep = "\\n"
		}
		w.Write(sep)
"""),(V,"""		if i == v.length-1 {
			w.Write("\\n")
		} else {
			w.Write(",\\n")
		}
""","""		w.Write(separator(i, v.length))
"""),(V,"func (v *SSZVector) Pretty","func separator(i uint64, n uint64) string {\n	if i < n-1 {\n		return \",\\n\"\n	}\n	return \"\\n\"\n}\n\nfunc (v *SSZVector) Pretty")]),
("list-loop",[(L,"""	CallSeries(func(i uint64, p unsafe.Pointer) {
		v.elemSSZ.Pretty(indent+1, w, p)
		if i == length-1 {
			w.Write("\\n")
		} else {
			w.Write(",\\n")
		}
	}, length, v.elemMemSize, sh.Data)
""","""	for i, elem := uint64(0), sh.Data; i < length; i++ {
		if i > 0 {
			w.Write(",\\n")
		}
		v.elemSSZ.Pretty(indent+1, w, elem)
		elem = unsafe.Pointer(uintptr(elem) + v.elemMemSize)
	}
	if length > 0 {
		w.Write("\\n")
	}
""")]),
("uint-print",[(U16,"""	if *(*uint16)(p) == ^uint16(0) {
		w.Write("0xFFFF")
	} else {
		w.Write(fmt.Sprintf("%d", *(*uint16)(p)))
	}
""","""	switch x := *(*uint16)(p); x {
	case 0xffff:
		w.Write("0xFFFF")
	default:
		w.Write(strconv.FormatUint(uint64(x), 10))
	}
"""),(U16,'	"fmt"\n','	"strconv"\n')]),
("bool-print",[(BO,"""	if *(*bool)(p) {
		w.Write("True")
	} else {
		w.Write("False")
	}
""","""	text := map[bool]string{false: "False", true: "True"}[*(*bool)(p)]
	w.Write(text)
""")]),
("bool-print2",[(BO,"""	if *(*bool)(p) {
		w.Write("True")
	} else {
		w.Write("False")
	}
""","""	text := "False"
	if *(*bool)(p) {
		text = "True"
	}
	w.Write(text)
""")]),
("field-print",[(CO,"""	for i, f := range v.Fields {
		w.WriteIndent(indent + 1)
		w.Write(f.pureName)
		w.Write(":\\n")
		f.ssz.Pretty(indent+3, w, f.ptrFn(p))
		if i == len(v.Fields)-1 {
			w.Write("\\n")
		} else {
			w.Write(",\\n")
		}
	}
""","""	last := len(v.Fields) - 1
	for i := range v.Fields {
		v.Fields[i].print(indent, w, p)
		if i != last {
			w.Write(",")
		}
		w.Write("\\n")
	}
"""),(CO,"func (v *SSZContainer) Pretty","func (f *ContainerField) print(indent uint32, w *PrettyWriter, p unsafe.Pointer) {\n	w.WriteIndent(indent + 1)\n	w.Write(f.pureName + \":\\n\")\n	f.ssz.Pretty(indent+3, w, f.ptrFn(p))\n}\n\nfunc (v *SSZContainer) Pretty")]),
("hex-print",[(BY,'	w.Write(fmt.Sprintf("0x%x", data))','	w.Write("0x" + hex.EncodeToString(data))'),(BY,'import (\n','import (\n	"encoding/hex"\n'),(BN,'	w.Write(fmt.Sprintf("0x%x", data))','	w.Write("0x")\n	w.Write(fmt.Sprintf("%x", data))')]),
("tag-split",[(TG,"""	for tag != "" {
		var next string
		i := strings.Index(tag, ",")
		if i >= 0 {
			tag, next = tag[:i], tag[i+1:]
		}
		if tag == flag {
			return true
		}
		tag = next
	}
""","""	for _, part := range strings.Split(tag, ",") {
		if part == flag {
			return true
		}
	}
""")]),
("fields-early",[(CO,"""	if f.Anonymous || forceSquash {
		if squashable, ok := fieldSSZ.(SquashableFields); ok {
			for _, sq := range squashable.SquashFields() {
				out = append(out, sq.Wrap(f.Name, f.Offset))
			}
			return out, nil
		}
		// anonymous fields can be handled as normal fields. Only error when it was tagged to be squashed.
		if forceSquash {
			return nil, fmt.Errorf("could not squash field %s", f.Name)
		}
	}
""","""	squashable, canSquash := fieldSSZ.(SquashableFields)
	switch {
	case canSquash && (forceSquash || f.Anonymous):
		inner := squashable.SquashFields()
		for i := 0; i < len(inner); i++ {
			out = append(out, inner[i].Wrap(f.Name, f.Offset))
		}
		return out, nil
	case forceSquash:
		return nil, fmt.Errorf("could not squash field %s", f.Name)
	}
""")]),
("scope-helper",[(Z,"""	unscoped := NewDecodingReader(r)
	dr, err := unscoped.Scope(bytesLen)
	if err != nil {
		return err
	}
	p := ptrutil.IfacePtrToPtr(&val)
	if err""","""	dr, err := scoped(r, bytesLen)
	if err != nil {
		return err
	}
	p := ptrutil.IfacePtrToPtr(&val)
	if err"""),(Z,"""	unscoped := NewDecodingReader(r)
	dr, err := unscoped.Scope(bytesLen)
	if err != nil {
		return err
	}
	if err := sszTyp.DryCheck""","""	dr, err := scoped(r, bytesLen)
	if err != nil {
		return err
	}
	if err := sszTyp.DryCheck"""),(Z,"func Decode(","func scoped(r io.Reader, n uint64) (*DecodingReader, error) {\n	return NewDecodingReader(r).Scope(n)\n}\n\nfunc Decode(")]),
("min-div",[(EV,"""	if maxLen, minLen := uint64(dr.Max()), uint64(minElemLen)*uint64(length); minLen > maxLen {
		return nil, fmt.Errorf("cannot fit %d elements of each a minimum size %d (%d total bytes) in %d bytes", length, minElemLen, minLen, maxLen)
	}
""","""	if maxLen := dr.Max(); minElemLen != 0 && length > maxLen/minElemLen {
		return nil, fmt.Errorf("cannot fit %d elements of each a minimum size %d in %d bytes", length, minElemLen, maxLen)
	}
""")]),
("min-var",[(L,"""	if v.elemSSZ.IsFixed() {
		return DryCheckFixedSlice(v.elemSSZ.DryCheck, v.elemSSZ.FixedLen(), dr.GetBytesSpan(), v.limit, dr)
	} else {
		return DryCheckVarSlice(v.elemSSZ.DryCheck, v.elemSSZ.MinLen(), dr.GetBytesSpan(), v.limit, dr)
	}
""","""	elem := v.elemSSZ
	span := dr.GetBytesSpan()
	if !elem.IsFixed() {
		return DryCheckVarSlice(elem.DryCheck, elem.MinLen(), span, v.limit, dr)
	}
	return DryCheckFixedSlice(elem.DryCheck, elem.MinLen(), span, v.limit, dr)
""")]),
("offset-check",[(EN,"""	if prevOffset >= (uint64(1) << 32) {
		panic("cannot write offset with invalid previous offset")
	}
	if elemLen >= (uint64(1) << 32) {
		panic("cannot write offset with invalid element size")
	}
	offset = prevOffset + elemLen
	if offset >= (uint64(1) << 32) {
		panic("offset too large, not uint32")
	}
""","""	const limit = uint64(1) << 32
	if prevOffset >= limit || elemLen >= limit {
		panic("cannot write offset with invalid previous offset or element size")
	}
	if offset = prevOffset + elemLen; offset>>32 != 0 {
		panic("offset too large, not uint32")
	}
""")]),
]
