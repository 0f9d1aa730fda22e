C="types/ssz_container.go"; V="types/ssz_vector.go"; L="types/ssz_list.go"; EV="types/elem_var_size_series.go"; LB="types/ssz_list_basic.go"; DE="dec/decoder.go"; EN="enc/encoder.go"; U16="types/ssz_uint16.go"; U32="types/ssz_uint32.go"; LM="types/limit.go"; EF="types/elem_fixed_size_series.go"; BY="types/ssz_bytes.go"; BV="types/ssz_bitvector.go"; PT="types/ssz_ptr.go"
E=[
("c-scope",[(C,"""		var scope uint64
		{
			currentOffset := offsets[i]
			if next := i + 1; next < len(offsets) {
				if nextOffset := offsets[next]; nextOffset >= currentOffset {
					scope = nextOffset - currentOffset
				} else {
					return fmt.Errorf("offset %d for field %s is invalid", i, f.name)
				}
			} else {
				scope = dr.Max() - currentOffset
			}
		}
		{
			realOffset := dr.Index()
			if expectedOffset := offsets[i]; expectedOffset != realOffset {
				return fmt.Errorf("expected to be at %d bytes, but currently at %d", expectedOffset, realOffset)
			}
			scoped, err := dr.Scope(scope)
			if err != nil {
				return err
			}
			if err := fieldHandler(scoped, f); err != nil {
				return err
			}
			dr.UpdateIndexFromScoped(scoped)
		}
		// go to next offset
		i++
""","""		start, end := offsets[i], dr.Max()
		// go to next offset
		i++
		if i < len(offsets) {
			end = offsets[i]
			if end < start {
				return fmt.Errorf("offset %d for field %s is invalid", i-1, f.name)
			}
		}
		if realOffset := dr.Index(); start != realOffset {
			return fmt.Errorf("expected to be at %d bytes, but currently at %d", start, realOffset)
		}
		scoped, err := dr.Scope(end - start)
		if err == nil {
			err = fieldHandler(scoped, f)
		}
		if err != nil {
			return err
		}
		dr.UpdateIndexFromScoped(scoped)
""")]),
("c-consume",[(C,"""	i := 0
	for fi := range v.Fields {
		f := &v.Fields[fi]
		// ignore""","""	for fi := range v.Fields {
		f := &v.Fields[fi]
		// ignore"""),
 (C,"			currentOffset := offsets[i]\n			if next := i + 1; next < len(offsets) {\n				if nextOffset := offsets[next]; nextOffset","			currentOffset := offsets[0]\n			if len(offsets) > 1 {\n				if nextOffset := offsets[1]; nextOffset"),
 (C,'fmt.Errorf("offset %d for field %s is invalid", i, f.name)','fmt.Errorf("offset for field %s is invalid", f.name)'),
 (C,"if expectedOffset := offsets[i]; expected","if expectedOffset := offsets[0]; expected"),
 (C,"		i++\n	}\n	return nil\n}\n\nfunc (v *SSZContainer) processFixedPart","		offsets = offsets[1:]\n	}\n	return nil\n}\n\nfunc (v *SSZContainer) processFixedPart")]),
("c-varfields",[(C,"	isFixedLen  bool","	varFields   []int // indices of the variable-size fields\n	isFixedLen  bool"),
 (C,"	for _, field := range res.Fields {\n","	for i, field := range res.Fields {\n		if !field.isFixed {\n			res.varFields = append(res.varFields, i)\n		}\n"),
 (C,"""		for i := range v.Fields {
			f := &v.Fields[i]
			if !f.isFixed {
				if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {
					return err
				}
			}
		}
""","""		for _, i := range v.varFields {
			f := &v.Fields[i]
			if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {
				return err
			}
		}
""")]),
("c-single",[(C,"""	// hot-path for common case of fixed-size container
	if v.isFixedLen {
		for i := range v.Fields {
			f := &v.Fields[i]
			if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {
				return err
			}
		}
		return nil
	}
""","")]),
("c-fixedpart",[(C,"	fixedI := dr.Index()\n","	fixedI := startIndex\n"),(C,"		if i := dr.Index(); i != fixedI {\n			return nil, fmt.Errorf(\"fixed part had different size than expected, now at %d, expected to be at %d\", i, fixedI)\n		}\n","")]),
("c-getfields",[(C,"""	if f.Anonymous || forceSquash {
		if squashable, ok := fieldSSZ.(SquashableFields); ok {
			for _, sq := range squashable.SquashFields() {
				out = append(out, sq.Wrap(f.Name, f.Offset))
			}
			return out, nil
		}
		// anonymous fields can be handled as normal fields. Only error when it was tagged to be squashed.
		if forceSquash {
			return nil, fmt.Errorf("could not squash field %s", f.Name)
		}
	}
""","""	squashable, canSquash := fieldSSZ.(SquashableFields)
	switch {
	case canSquash && (forceSquash || f.Anonymous):
		inner := squashable.SquashFields()
		out = make([]ContainerField, 0, len(inner))
		for i := range inner {
			out = append(out, inner[i].Wrap(f.Name, f.Offset))
		}
		return out, nil
	case forceSquash:
		// anonymous fields can be handled as normal fields. Only error when it was tagged to be squashed.
		return nil, fmt.Errorf("could not squash field %s", f.Name)
	}
""")]),
("c-new",[(C,"	for i, c := 0, typ.NumField(); i < c; i++ {\n","	count := typ.NumField()\n	res.Fields = make([]ContainerField, 0, count)\n	for i := 0; i < count; i++ {\n"),
 (C,"			res.fixedLen += fixed\n			res.minLen += fixed\n			res.maxLen += fixed\n","			res.addFixed(fixed)\n"),
 (C,"func NewSSZContainer","func (v *SSZContainer) addFixed(n uint64) {\n	v.fixedLen += n\n	v.minLen += n\n	v.maxLen += n\n}\n\nfunc NewSSZContainer"),
 (C,"			res.fixedLen += BYTES_PER_LENGTH_OFFSET\n			res.minLen += BYTES_PER_LENGTH_OFFSET + field.ssz.MinLen()\n			res.maxLen += BYTES_PER_LENGTH_OFFSET + field.ssz.MaxLen()\n","			res.addFixed(BYTES_PER_LENGTH_OFFSET)\n			res.minLen += field.ssz.MinLen()\n			res.maxLen += field.ssz.MaxLen()\n")]),
("c-visit",[(C,"func (v *SSZContainer) SizeOf(","func (v *SSZContainer) eachVar(fn func(f *ContainerField) error) error {\n	for i := range v.Fields {\n		if f := &v.Fields[i]; !f.isFixed {\n			if err := fn(f); err != nil {\n				return err\n			}\n		}\n	}\n	return nil\n}\n\nfunc (v *SSZContainer) SizeOf("),
 (C,"	// Only iterate over and write dynamic parts if we need to.\n	if !v.isFixedLen {\n		for i := range v.Fields {\n			f := &v.Fields[i]\n			if !f.isFixed {\n				if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {\n					return err\n				}\n			}\n		}\n	}\n	return nil\n","	return v.eachVar(func(f *ContainerField) error {\n		return f.ssz.Encode(eb, f.ptrFn(p))\n	})\n"),
 (C,"	for _, f := range v.Fields {\n		if !f.ssz.IsFixed() {\n			out += f.ssz.SizeOf(f.ptrFn(p))\n		}\n	}\n	return out","	_ = v.eachVar(func(f *ContainerField) error {\n		out += f.ssz.SizeOf(f.ptrFn(p))\n		return nil\n	})\n	return out")]),
("c-leaf",[(C,"""	leaf := func(i uint64) []byte {
		f := v.Fields[i]
		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))
		return r[:]
	}
	leafCount := uint64(len(v.Fields))
	return""","""	leaf := v.leafFn(h, p)
	leafCount := uint64(len(v.Fields))
	return"""),(C,"""	leaf := func(i uint64) []byte {
		f := v.Fields[i]
		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))
		return r[:]
	}
	// truncate""","""	leaf := v.leafFn(h, p)
	// truncate"""),(C,"func (v *SSZContainer) SigningRoot","func (v *SSZContainer) leafFn(h MerkleFn, p unsafe.Pointer) func(i uint64) []byte {\n	return func(i uint64) []byte {\n		f := &v.Fields[i]\n		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))\n		return r[:]\n	}\n}\n\nfunc (v *SSZContainer) SigningRoot"),
 (C,"	if leafCount != 0 {\n		leafCount--\n	}\n","	if leafCount > 0 {\n		leafCount -= 1\n	}\n")]),
("v-leaf",[(V,"	elemHtr := v.elemSSZ.HashTreeRoot\n	elemSize := v.elemMemSize\n",""),(V,"		v := elemHtr(h, unsafe.Pointer(uintptr(p)+(elemSize*uintptr(i))))\n		return v[:]","		root := v.elemSSZ.HashTreeRoot(h, unsafe.Pointer(uintptr(p)+uintptr(i)*v.elemMemSize))\n		return root[:]")]),
("ev-index",[(EV,"	offsets := make([]uint64, 0, length)\n\n	// add the first offset used in the length check\n	offsets = append(offsets, firstOffset)\n\n	// add the remaining offsets\n	for i := uint64(1); i < length; i++ {\n		offset, err := dr.ReadOffset()\n		if err != nil {\n			return nil, err\n		}\n		offsets = append(offsets, offset)\n	}\n\n	if","	offsets := make([]uint64, length)\n	if length > 0 {\n		offsets[0] = firstOffset\n	}\n	for i := uint64(1); i < length; i++ {\n		if offsets[i], err = dr.ReadOffset(); err != nil {\n			return nil, err\n		}\n	}\n\n	if")]),
("ev-shared",[(EV,"""	offsets := make([]uint64, 0, length)

	// add the first offset used in the length check
	offsets = append(offsets, firstOffset)

	// add the remaining offsets
	for i := uint64(1); i < length; i++ {
		offset, err := dr.ReadOffset()
		if err != nil {
			return nil, err
		}
		offsets = append(offsets, offset)
	}
	return offsets, nil
""","""	return readRemainingOffsets(firstOffset, length, dr)
"""),(EV,"""	offsets := make([]uint64, 0, length)

	// add the first offset used in the length check
	offsets = append(offsets, firstOffset)

	// add the remaining offsets
	for i := uint64(1); i < length; i++ {
		offset, err := dr.ReadOffset()
		if err != nil {
			return nil, err
		}
		offsets = append(offsets, offset)
	}
""","""	offsets, err := readRemainingOffsets(firstOffset, length, dr)
	if err != nil {
		return nil, err
	}
"""),(EV,"func ReadVarSeriesOffsets","""func readRemainingOffsets(first uint64, length uint64, dr *DecodingReader) ([]uint64, error) {
	if length == 0 {
		return nil, nil
	}
	offsets := make([]uint64, 1, length)
	offsets[0] = first
	for uint64(len(offsets)) < length {
		offset, err := dr.ReadOffset()
		if err != nil {
			return nil, err
		}
		offsets = append(offsets, offset)
	}
	return offsets, nil
}

func ReadVarSeriesOffsets""")]),
("ev-enc",[(EV,"""		if offset, err := eb.WriteOffset(prevOffset, prevSize); err != nil {
			return err
		} else {
			prevOffset = offset
		}

		prevSize = sizeFn(elemPtr)
""","""		offset, err := eb.WriteOffset(prevOffset, prevSize)
		if err != nil {
			return err
		}
		prevOffset, prevSize = offset, sizeFn(elemPtr)
""")]),
("ev-fuzz",[(EV,"	for i := uint64(0); i < length; i++ {\n		lengthLeftOver -= elemFuzzReqLen\n","	for i := uint64(0); i < length; i++ {\n		lengthLeftOver = (length - i - 1) * elemFuzzReqLen\n")]),
("lb-embed",[(LB,"	elemKind  reflect.Kind\n	elemSSZ   SSZ\n","	basicElem\n"),(LB,"type SSZBasicList struct","type basicElem struct {\n	elemKind reflect.Kind\n	elemSSZ  SSZ\n}\n\ntype SSZBasicList struct"),(LB,"		elemKind:  elemKind,\n		elemSSZ:   elemSSZ,\n","		basicElem: basicElem{elemKind: elemKind, elemSSZ: elemSSZ},\n")]),
("l-fuzz",[(L,"	if span != 0 {\n		length = (x % span) / v.elemSSZ.FuzzMinLen()\n	}\n	if length > v.limit {\n		length = v.limit\n	}\n","	if span > 0 {\n		length = x % span / v.elemSSZ.FuzzMinLen()\n		if v.limit < length {\n			length = v.limit\n		}\n	}\n")]),
("l-switch",[(L,"""	if v.elemSSZ.IsFixed() {
		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), dr.GetBytesSpan(), v.limit, v.alloc, v.elemMemSize, dr, p)
	} else {
		// pass""","""	span, decode := dr.GetBytesSpan(), v.elemSSZ.Decode
	if v.elemSSZ.IsFixed() {
		return DecodeFixedSlice(decode, v.elemSSZ.FixedLen(), span, v.limit, v.alloc, v.elemMemSize, dr, p)
	} else {
		// pass""")]),
("de-limited",[(DE,"io.LimitReader(dr.input, int64(count))","&io.LimitedReader{R: dr.input, N: int64(count)}")]),
("de-atleast",[(DE,"	return io.ReadFull(dr.input, p)\n","	return io.ReadAtLeast(dr.input, p, len(p))\n")]),
("de-skip",[(DE,"	n, err := io.CopyN(ioutil.Discard, dr.input, int64(count))\n	return int(n), err","	n, err := io.Copy(ioutil.Discard, io.LimitReader(dr.input, int64(count)))\n	if err == nil && uint64(n) < count {\n		err = io.EOF\n	}\n	return int(n), err")]),
("de-byte",[(DE,"	_, err := dr.Read(dr.scratch[0:1])\n	return dr.scratch[0], err","	b := dr.scratch[:1]\n	if _, err := dr.Read(b); err != nil {\n		return 0, err\n	}\n	return b[0], nil")]),
("de-u32",[(DE,"	_, err := dr.Read(dr.scratch[0:4])\n	return binary.LittleEndian.Uint32(dr.scratch[0:4]), err","	b := dr.scratch[0:4]\n	if _, err := dr.Read(b); err != nil {\n		return 0, err\n	}\n	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, nil")]),
("en-wfn",[(EN,"	w       io.Writer\n	wfn     func(p []byte) (n int, err error)\n","	w       io.Writer\n"),(EN,"w: w, wfn: w.Write, n: 0","w: w"),(EN,"ew.wfn(p)","ew.w.Write(p)")]),
("en-offset",[(EN,"	binary.LittleEndian.PutUint32(ew.Scratch[0:4], uint32(offset))\n","	for i := uint(0); i < 4; i++ {\n		ew.Scratch[i] = byte(offset >> (8 * i))\n	}\n"),(EN,'	"encoding/binary"\n','')]),
("u16-htr",[(U16,"	binary.LittleEndian.PutUint16(out[:], *(*uint16)(p))\n	return","	v := *(*uint16)(p)\n	out[0], out[1] = byte(v), byte(v>>8)\n	return out")]),
("u32-write",[(U32,"	binary.LittleEndian.PutUint32(eb.Scratch[0:4], *(*uint32)(p))\n	return eb.Write(eb.Scratch[0:4])","	var buf [4]byte\n	binary.LittleEndian.PutUint32(buf[:], *(*uint32)(p))\n	return eb.Write(buf[:])")]),
("limit",[(LM,"	ptrTyp := reflect.PtrTo(typ)\n	if !ptrTyp.Implements(listType) {\n","	ptrTyp := reflect.PtrTo(typ)\n	if isList := ptrTyp.Implements(listType); !isList {\n"),(LM,"	typedNil := reflect.New(ptrTyp).Elem().Interface().(lists.List)\n	return typedNil.Limit(), nil","	list, ok := reflect.Zero(ptrTyp).Interface().(lists.List)\n	if !ok {\n		return 0, fmt.Errorf(\"not a ssz list\")\n	}\n	return list.Limit(), nil")]),
("by-read",[(BY,"	ptrutil.BytesAllocFn(p, length)\n	data := *(*[]byte)(p)\n	_, err := dr.Read(data)\n	return err","	data := make([]byte, length)\n	if _, err := dr.Read(data); err != nil {\n		return err\n	}\n	*(*[]byte)(p) = data\n	return nil")]),
("bv-dry",[(BV,"	if v.byteLen > 1 {\n		_, err := dr.Skip(v.byteLen - 1)\n		if err != nil {\n			return err\n		}\n	}\n","	if _, err := dr.Skip(v.byteLen - 1); err != nil {\n		return err\n	}\n")]),
("ptr-nil",[(PT,"	if *(*uintptr)(p) == uintptr(0) {\n		contentsPtr := v.alloc(p)\n		return v.elemSSZ.Decode(dr, contentsPtr)\n	} else {\n		return v.elemSSZ.Decode(dr, unsafe.Pointer(*(*uintptr)(p)))\n	}\n","	contentsPtr := *(*unsafe.Pointer)(p)\n	if contentsPtr == nil {\n		contentsPtr = v.alloc(p)\n	}\n	return v.elemSSZ.Decode(dr, contentsPtr)\n")]),
("ef-mem",[(EF,"	memOffset := uintptr(0)\n	for i := uint64(0); i < length; i++ {\n		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)\n		memOffset += elemMemSize\n		if err := encFn(eb, elemPtr); err != nil {","	for i := uint64(0); i < length; i++ {\n		if err := encFn(eb, elemAt(p, i, elemMemSize)); err != nil {"),(EF,"func EncodeFixedSeries","func elemAt(p unsafe.Pointer, i uint64, size uintptr) unsafe.Pointer {\n	return unsafe.Pointer(uintptr(p) + uintptr(i)*size)\n}\n\nfunc EncodeFixedSeries")]),
]
