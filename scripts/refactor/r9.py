C="types/ssz_container.go"; V="types/ssz_vector.go"; BL="types/ssz_bitlist.go"; BVM="bitfields/bitvector.go"; BV="types/ssz_bitvector.go"; BO="types/ssz_bool.go"; FA="types/factory.go"; LB="types/ssz_list_basic.go"; VB="types/ssz_vector_basic.go"; BS="types/basic_series.go"; TG="util/tags/read_tag.go"
import re
src=open("/repo/"+C).read()
n=src.count("f.ptrFn(p)")
off=[(C,"	ptrFn    FieldPtrFn\n","	memOff   uintptr\n"),(C,"		ptrFn:    c.ptrFn.WrapOffset(memOffset),\n","		memOff:   memOffset + c.memOff,\n"),
 (C,"ptrFn: GetOffsetPtrFn(f.Offset),","memOff: f.Offset,"),
 (C,"type SquashableFields","func (c *ContainerField) ptr(p unsafe.Pointer) unsafe.Pointer {\n	return unsafe.Pointer(uintptr(p) + c.memOff)\n}\n\ntype SquashableFields")]+[(C,"f.ptrFn(p)","f.ptr(p)")]*n
E=[
("field-off",off),
("field-closure",[(C,"	return func(p unsafe.Pointer) unsafe.Pointer {\n		return fn(unsafe.Pointer(uintptr(p) + memOffset))\n	}","	wrap := GetOffsetPtrFn(memOffset)\n	return func(p unsafe.Pointer) unsafe.Pointer {\n		return fn(wrap(p))\n	}")]),
("field-copy",[(C,"	return ContainerField{\n		ssz:      c.ssz,\n		name:     name + \">\" + c.name,\n		pureName: c.name,\n		ptrFn:    c.ptrFn.WrapOffset(memOffset),\n		isFixed:  c.ssz.IsFixed(),\n	}","	out := *c\n	out.pureName = c.name\n	out.name = name + \">\" + c.name\n	out.ptrFn = c.ptrFn.WrapOffset(memOffset)\n	return out")]),
("vec-lens",[(V,"""	var fixedElemLen, minElemLen, maxElemLen uint64
	if elemSSZ.IsFixed() {
		fixedElemLen = elemSSZ.FixedLen()
		minElemLen = elemSSZ.MinLen()
		maxElemLen = elemSSZ.MaxLen()
		if fixedElemLen != minElemLen || fixedElemLen != maxElemLen {
			return nil, fmt""","""	fixedElemLen, minElemLen, maxElemLen := elemLens(elemSSZ)
	if elemSSZ.IsFixed() {
		if fixedElemLen != minElemLen || fixedElemLen != maxElemLen {
			return nil, fmt"""),(V,"""	} else {
		fixedElemLen = BYTES_PER_LENGTH_OFFSET
		minElemLen = BYTES_PER_LENGTH_OFFSET + elemSSZ.MinLen()
		maxElemLen = BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen()
	}
""","	}\n"),(V,"func NewSSZVector","""func elemLens(elem SSZ) (fixed, min, max uint64) {
	min, max = elem.MinLen(), elem.MaxLen()
	if elem.IsFixed() {
		return elem.FixedLen(), min, max
	}
	const o = BYTES_PER_LENGTH_OFFSET
	return o, o + min, o + max
}

func NewSSZVector""")]),
("bl-split",[(BL,"""	var byteLen uint64
	if dr.IsFuzzMode() {
		x, err := dr.ReadUint64()
		if err != nil {
			return err
		}
		// get span to fill with available space
		span := dr.GetBytesSpan() - 1
		// respect type limit
		if span > v.byteLimit {
			span = v.byteLimit
		}
		if span != 0 {
			byteLen = x % span
		}
		// completely empty bitlists are invalid. Need a leading 1 bit.
		byteLen += 1
	} else {
		byteLen = dr.GetBytesSpan()
		// check before allocating any space
		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
			return err
		}
	}
	ptrutil""","""	if dr.IsFuzzMode() {
		return v.decodeFuzzmode(dr, p)
	}
	byteLen := dr.GetBytesSpan()
	// check before allocating any space
	if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
		return err
	}
	data, err := v.read(dr, p, byteLen)
	if err != nil {
		return err
	}
	return bitfields.BitlistCheck(data, v.bitLimit)
}

func (v *SSZBitlist) read(dr *DecodingReader, p unsafe.Pointer, byteLen uint64) ([]byte, error) {
	ptrutil.BytesAllocFn(p, byteLen)
	data := *(*[]byte)(p)
	_, err := dr.Read(data)
	return data, err
}

func (v *SSZBitlist) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
	x, err := dr.ReadUint64()
	if err != nil {
		return err
	}
	byteLen := uint64(1)
	// get span to fill with available space
	span := dr.GetBytesSpan() - 1
	// respect type limit
	if span > v.byteLimit {
		span = v.byteLimit
	}
	if span != 0 {
		byteLen += x % span
	}
	data, err := v.read(dr, p, byteLen)
	if err != nil {
		return err
	}
	last := &data[byteLen-1]
	// mask last byte to stay within bit-limit
	if bitsLeft := v.bitLimit - ((byteLen - 1) << 3); bitsLeft < 7 {
		*last &= (byte(2) << bitsLeft) - 1
	}
	if *last == 0 {
		*last = 1
	}
	return bitfields.BitlistCheck(data, v.bitLimit)
}
//DEL
	ptrutil""")]),
("bv-mask",[(BVM,"	if expectedBitsLen := n & 7; (last >> expectedBitsLen) != 0 {\n","	expectedBitsLen := n % 8\n	if mask := byte(1)<<expectedBitsLen - 1; last&^mask != 0 {\n")]),
("bv-calc",[(BV,"	bitLen  uint64\n	byteLen uint64\n","	bitLen uint64\n"),(BV,"&SSZBitvector{bitLen: bitLen, byteLen: byteLen}","&SSZBitvector{bitLen: bitLen}"),(BV,"// in bytes (rounded up), not bits\n","func (v *SSZBitvector) size() uint64 {\n	return (v.bitLen + 7) / 8\n}\n\n// in bytes (rounded up), not bits\n")]+[(BV,"v.byteLen","v.size()")]*open("/repo/"+BV).read().count("v.byteLen")),
("bo-byte",[(BO,"""	if b == 0x00 {
		*(*bool)(p) = false
		return nil
	} else if b == 0x01 {
		*(*bool)(p) = true
		return nil
	} else {
		if dr.IsFuzzMode() {
			// just make a valid random bool
			*(*bool)(p) = b&1 != 0
			return nil
		} else {
			return fmt.Errorf("bool value is invalid")
		}
	}
""","""	if b > 1 {
		if !dr.IsFuzzMode() {
			return fmt.Errorf("bool value is invalid")
		}
		// just make a valid random bool
		b &= 1
	}
	*(*byte)(p) = b
	return nil
""")]),
("fa-split",[(FA,"""	case reflect.Slice:
		switch typ.Elem().Kind() {
		case reflect.Uint8:
			ptrTyp := reflect.PtrTo(typ)
			if ptrTyp.Implements(bitlistMeta) {
				return NewSSZBitlist(typ)
			} else {
				return NewSSZBytes(typ)
			}
		case reflect.Bool, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return NewSSZBasicList(typ)
		default:
			return NewSSZList(factory, typ)
		}
""","""	case reflect.Slice:
		return sliceFactory(factory, typ)
"""),(FA,"func DefaultSSZFactory","""func isBasic(kind reflect.Kind) bool {
	_, err := GetBasicSSZElemType(kind)
	return err == nil
}

func sliceFactory(factory SSZFactoryFn, typ reflect.Type) (SSZ, error) {
	elem := typ.Elem().Kind()
	if elem == reflect.Uint8 {
		if reflect.PtrTo(typ).Implements(bitlistMeta) {
			return NewSSZBitlist(typ)
		}
		return NewSSZBytes(typ)
	}
	if isBasic(elem) {
		return NewSSZBasicList(typ)
	}
	return NewSSZList(factory, typ)
}

func DefaultSSZFactory""")]),
("fa-basic",[(FA,"""	case reflect.Bool:
		return SSZBool{}, nil
	case reflect.Uint8:
		return SSZUint8{}, nil
	case reflect.Uint16:
		return SSZUint16{}, nil
	case reflect.Uint32:
		return SSZUint32{}, nil
	case reflect.Uint64:
		return SSZUint64{}, nil
""","""	case reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return GetBasicSSZElemType(typ.Kind())
""")]),
("bs-pad",[(BS,"""	leaf := func(i uint64) []byte {
		s := i << 5
		e := (i + 1) << 5
		// pad the data
		if e > bytesLen {
			d := [32]byte{}
			copy(d[:], data[s:bytesLen])
			return d[:]
		}
		return data[s:e]
	}
""","""	leaf := func(i uint64) []byte {
		rest := data[i*32:]
		if len(rest) >= 32 {
			return rest[:32]
		}
		// pad the data
		return append(rest[:len(rest):len(rest)], make([]byte, 32-len(rest))...)
	}
""")]),
("bs-dry",[(BS,"			if v, err := dr.ReadByte(); err != nil {\n				return err\n			} else if v > 1 {\n","			v, err := dr.ReadByte()\n			if err != nil {\n				return err\n			}\n			if v != 0 && v != 1 {\n")]),
("cs-index",[(BS,"	memOffset := uintptr(0)\n	for i := uint64(0); i < length; i++ {\n		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)\n		memOffset += elemMemSize\n		fn(i, elemPtr)\n	}","	for i := uint64(0); i != length; i++ {\n		fn(i, p)\n		p = unsafe.Pointer(uintptr(p) + elemMemSize)\n	}")]),
]
for e in E:
    if e[0]=="bl-split":
        t=open("/repo/"+BL).read()
        i=t.index("	ptrutil.BytesAllocFn(p, byteLen)"); j=t.index("func (v *SSZBitlist) DryCheck")
        o=e[1][0][1][:-len("	ptrutil")]; nw=e[1][0][2].split("//DEL")[0]
        e[1][0]=(BL,o+t[i:j],nw+"\n")
