LB="types/ssz_list_basic.go"; VB="types/ssz_vector_basic.go"; BN="types/ssz_bytes_n.go"; BV="types/ssz_bitvector.go"; BL="types/ssz_bitlist.go"
CT="types/ssz_container.go"; LI="types/ssz_list.go"; VE="types/ssz_vector.go"; EV="types/elem_var_size_series.go"; EF="types/elem_fixed_size_series.go"; BS="types/basic_series.go"
DE="dec/decoder.go"; EN="enc/encoder.go"; ZZ="zssz.go"; MK="merkle/merkleize.go"; AL="util/ptrutil/allocation.go"
E=[
("lb-native",[(LB,"	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {\n		return LittleEndianBasicSeriesEncode","	if v.asBytes() {\n		return LittleEndianBasicSeriesEncode"),
 (LB,"	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {\n		return h.MixIn","	if v.asBytes() {\n		return h.MixIn"),
 (LB,"func (v *SSZBasicList) Pretty(","// asBytes: the memory of the elements is their encoding\nfunc (v *SSZBasicList) asBytes() bool {\n	return endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1\n}\n\nfunc (v *SSZBasicList) Pretty(")]),
("lb-contents",[(LB,"""	bytesLen -= bytesLen % v.elemSSZ.FixedLen()

	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
		bytesLimit := v.limit * v.elemSSZ.FixedLen()
		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
	} else {
		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
	}
}
""","""	bytesLen -= bytesLen % v.elemSSZ.FixedLen()
	return v.decodeContents(dr, p, bytesLen)
}

func (v *SSZBasicList) decodeContents(dr *DecodingReader, p unsafe.Pointer, bytesLen uint64) error {
	elemLen := v.elemSSZ.FixedLen()
	if !endianness.IsLittleEndian && elemLen != 1 {
		return DecodeFixedSlice(v.elemSSZ.Decode, elemLen, bytesLen, v.limit, v.alloc, uintptr(elemLen), dr, p)
	}
	contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/elemLen)
	return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
}
"""),(LB,"""
	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
	} else {
		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
	}
}""","""
	return v.decodeContents(dr, p, bytesLen)
}""")]),
("vb-switch",[(VB,"""	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
		return LittleEndianBasicSeriesDecode(dr, p, v.byteLen, v.byteLen, v.elemKind == reflect.Bool)
	} else {
		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, uintptr(v.elemSSZ.FixedLen()), dr, p)
	}""","""	switch elemLen := v.elemSSZ.FixedLen(); {
	case endianness.IsLittleEndian, elemLen == 1:
		isBool := v.elemKind == reflect.Bool
		return LittleEndianBasicSeriesDecode(dr, p, v.byteLen, v.byteLen, isBool)
	default:
		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, uintptr(elemLen), dr, p)
	}"""),(VB,"""	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
		return LittleEndianBasicSeriesHTR(h, p, v.byteLen, v.byteLen)
	} else {
		return BigEndianBasicSeriesHTR(h, p, v.byteLen, v.byteLen, uint8(v.elemSSZ.FixedLen()))
	}""","""	if elemLen := v.elemSSZ.FixedLen(); !endianness.IsLittleEndian && elemLen > 1 {
		return BigEndianBasicSeriesHTR(h, p, v.byteLen, v.byteLen, uint8(elemLen))
	}
	return LittleEndianBasicSeriesHTR(h, p, v.byteLen, v.byteLen)""")]),
("bn-data",[(BN,"""	sh := ptrutil.GetSliceHeader(p, v.length)
	data := *(*[]byte)(unsafe.Pointer(sh))
	return eb.Write(data)
}
""","""	return eb.Write(v.data(p))
}

// data is the byte array at p, as a slice
func (v *SSZBytesN) data(p unsafe.Pointer) []byte {
	sh := ptrutil.GetSliceHeader(p, v.length)
	return *(*[]byte)(unsafe.Pointer(sh))
}
"""),(BN,"""	sh := ptrutil.GetSliceHeader(p, v.length)
	data := *(*[]byte)(unsafe.Pointer(sh))
	_, err := dr.Read(data)
	return err""","""	_, err := dr.Read(v.data(p))
	return err"""),(BN,"""	sh := ptrutil.GetSliceHeader(p, v.length)
	data := *(*[]byte)(unsafe.Pointer(sh))
	leafCount := (v.length + 31) >> 5
	leaf := func(i uint64) []byte {
		s := i << 5
		e := (i + 1) << 5
		// pad the data
		if e > v.length {
			x := [32]byte{}
			copy(x[:], data[s:v.length])
			return x[:]
		}
		return data[s:e]
	}
""","""	data := v.data(p)
	leafCount := (v.length + 31) / 32
	leaf := func(i uint64) []byte {
		var chunk [32]byte
		// what is beyond the end of the data stays zero
		copy(chunk[:], data[i*32:])
		return chunk[:]
	}
""")]),
("bv-mask",[(BV,"		data[len(data)-1] &= (byte(1) << (v.bitLen & 7)) - 1\n","		data[v.byteLen-1] &^= byte(0xff) << (v.bitLen % 8)\n"),
 (BV,"""	if v.byteLen > 1 {
		_, err := dr.Skip(v.byteLen - 1)
		if err != nil {
			return err
		}
	}
""","""	if _, err := dr.Skip(v.byteLen - 1); err != nil {
		return err
	}
"""),(BV,"	if (bitLen+7)>>3 != byteLen {","	expected := (bitLen + 7) / 8\n	if byteLen != expected {")]),
("u16-shift",[("types/ssz_uint16.go","	binary.LittleEndian.PutUint16(eb.Scratch[0:2], *(*uint16)(p))\n	return eb.Write(eb.Scratch[0:2])","	x := *(*uint16)(p)\n	out := eb.Scratch[:2]\n	out[0] = byte(x)\n	out[1] = byte(x >> 8)\n	return eb.Write(out)"),
 ("types/ssz_uint16.go","	v, err := dr.ReadUint16()\n	if err != nil {\n		return err\n	}\n	*(*uint16)(p) = v\n	return nil","	v, err := dr.ReadUint16()\n	if err == nil {\n		*(*uint16)(p) = v\n	}\n	return err"),
 ("types/ssz_uint32.go","	v, err := dr.ReadUint32()\n	if err != nil {\n		return err\n	}\n	*(*uint32)(p) = v\n	return nil","	dst := (*uint32)(p)\n	v, err := dr.ReadUint32()\n	if err != nil {\n		return err\n	}\n	*dst = v\n	return nil"),
 ("types/ssz_uint64.go","	binary.LittleEndian.PutUint64(out[:], *(*uint64)(p))\n	return","	v := *(*uint64)(p)\n	for i := range out[:8] {\n		out[i] = byte(v)\n		v >>= 8\n	}\n	return out")]),
("bool-switch",[("types/ssz_bool.go","""	if b == 0x00 {
		*(*bool)(p) = false
		return nil
	} else if b == 0x01 {
		*(*bool)(p) = true
		return nil
	} else {
		if dr.IsFuzzMode() {
			// just make a valid random bool
			*(*bool)(p) = b&1 != 0
			return nil
		} else {
			return fmt.Errorf("bool value is invalid")
		}
	}""","""	if b > 1 && !dr.IsFuzzMode() {
		return fmt.Errorf("bool value is invalid")
	}
	// when fuzzing: just make a valid random bool
	*(*bool)(p) = b&1 == 1
	return nil"""),("types/ssz_bool.go","	if b > 1 {\n		return fmt.Errorf(\"bool value is invalid\")\n	}\n	return nil\n}\n\nfunc (v SSZBool) HashTreeRoot","	switch b {\n	case 0, 1:\n		return nil\n	default:\n		return fmt.Errorf(\"bool value is invalid\")\n	}\n}\n\nfunc (v SSZBool) HashTreeRoot")]),
("ptr-deref",[("types/ssz_ptr.go","	innerPtr := unsafe.Pointer(*(*uintptr)(p))\n	return v.elemSSZ.SizeOf(innerPtr)","	return v.elemSSZ.SizeOf(deref(p))"),
 ("types/ssz_ptr.go","	innerPtr := unsafe.Pointer(*(*uintptr)(p))\n	return v.elemSSZ.Encode(eb, innerPtr)","	return v.elemSSZ.Encode(eb, deref(p))"),
 ("types/ssz_ptr.go","	innerPtr := unsafe.Pointer(*(*uintptr)(p))\n	return v.elemSSZ.HashTreeRoot(h, innerPtr)","	return v.elemSSZ.HashTreeRoot(h, deref(p))"),
 ("types/ssz_ptr.go","	if *(*uintptr)(p) == uintptr(0) {\n		contentsPtr := v.alloc(p)\n		return v.elemSSZ.Decode(dr, contentsPtr)\n	} else {\n		return v.elemSSZ.Decode(dr, unsafe.Pointer(*(*uintptr)(p)))\n	}","	target := deref(p)\n	if target == nil {\n		target = v.alloc(p)\n	}\n	return v.elemSSZ.Decode(dr, target)"),
 ("types/ssz_ptr.go","func (v *SSZPtr) DryCheck(","func deref(p unsafe.Pointer) unsafe.Pointer {\n	return *(*unsafe.Pointer)(p)\n}\n\nfunc (v *SSZPtr) DryCheck(")]),
("endian",[("util/endianness/endianness.go","""	buf := [2]byte{}
	*(*uint16)(unsafe.Pointer(&buf[0])) = uint16(0xABCD)

	switch buf {
	case [2]byte{0xCD, 0xAB}:
		IsLittleEndian = true
	case [2]byte{0xAB, 0xCD}:
		IsLittleEndian = false
	default:
		panic("Could not determine native endianness.")
	}
""","""	x := uint16(1)
	IsLittleEndian = *(*byte)(unsafe.Pointer(&x)) == 1
""")]),
("alloc-lit",[(AL,"""	pSh := (*SliceHeader)(p)
	pSh.Len = 0
	pSh.Data = contentsPtr
	pSh.Cap = l
	pSh.Len = l
	runtime""","""	*(*SliceHeader)(p) = SliceHeader{Data: contentsPtr, Len: l, Cap: l}
	runtime"""),(AL,"""	if uint64(header.Cap) < length {
		// We don't want elements to be put in the slice header memory,
		// instead, we allocate the slice data with the allocation function,
		// and change the contents-pointer in the header.
		return f(p, length)
	} else {
		header.Len = int(length)
		return header.Data
	}""","""	if length <= uint64(header.Cap) {
		header.Len = int(length)
		return header.Data
	}
	// We don't want elements to be put in the slice header memory,
	// instead, we allocate the slice data with the allocation function,
	// and change the contents-pointer in the header.
	return f(p, length)"""),(AL,"	v := reflect.New(typ)\n	ptr := unsafe.Pointer(v.Pointer())\n	*(*unsafe.Pointer)(p) = ptr\n	runtime.KeepAlive(&v)\n	return ptr","	dst := (*unsafe.Pointer)(p)\n	v := reflect.New(typ)\n	*dst = unsafe.Pointer(v.Pointer())\n	runtime.KeepAlive(&v)\n	return *dst")]),
("zssz-scope",[(ZZ,"""	if bytesLen < sszTyp.MinLen() {
		return fmt.Errorf("expected object length is larger than given bytesLen")
	}
	unscoped := NewDecodingReader(r)
	dr, err := unscoped.Scope(bytesLen)
	if err != nil {
		return err
	}
	p := ptrutil""","""	dr, err := open(r, bytesLen, sszTyp.MinLen())
	if err != nil {
		return err
	}
	p := ptrutil"""),(ZZ,"""	if bytesLen < sszTyp.MinLen() {
		return fmt.Errorf("expected object length is larger than given bytesLen")
	}
	unscoped := NewDecodingReader(r)
	dr, err := unscoped.Scope(bytesLen)
	if err != nil {
		return err
	}
	if err :=""","""	dr, err := open(r, bytesLen, sszTyp.MinLen())
	if err != nil {
		return err
	}
	if err :="""),(ZZ,"""	if readCount := dr.Index(); readCount != bytesLen {
		return fmt.Errorf("read total of %d bytes, but expected %d", readCount, bytesLen)
	}
	return nil
}

func DryCheck""","""	return checkRead(dr, bytesLen)
}

func open(r io.Reader, bytesLen uint64, minLen uint64) (*DecodingReader, error) {
	if bytesLen < minLen {
		return nil, fmt.Errorf("expected object length is larger than given bytesLen")
	}
	return NewDecodingReader(r).Scope(bytesLen)
}

func checkRead(dr *DecodingReader, bytesLen uint64) error {
	if readCount := dr.Index(); readCount != bytesLen {
		return fmt.Errorf("read total of %d bytes, but expected %d", readCount, bytesLen)
	}
	return nil
}

func DryCheck"""),(ZZ,"""	if readCount := dr.Index(); readCount != bytesLen {
		return fmt.Errorf("read total of %d bytes, but expected %d", readCount, bytesLen)
	}
	return nil
}

// 1:""","""	return checkRead(dr, bytesLen)
}

// 1:"""),(ZZ,"""	p := ptrutil.IfacePtrToPtr(&val)
	out := sszTyp.HashTreeRoot(h, p)
	// make sure the data of the object is kept around up to this point.
	runtime.KeepAlive(&val)
	return out""","""	// make sure the data of the object is kept around up to the return
	defer runtime.KeepAlive(&val)
	return sszTyp.HashTreeRoot(h, ptrutil.IfacePtrToPtr(&val))"""),(ZZ,"	ew := NewEncodingWriter(w)\n\n	p := ptrutil.IfacePtrToPtr(&val)\n	err = sszTyp.Encode(ew, p)\n","	p := ptrutil.IfacePtrToPtr(&val)\n	ew := NewEncodingWriter(w)\n	err = sszTyp.Encode(ew, p)\n	n = ew.Written()\n"),(ZZ,"	return ew.Written(), err","	return")]),
("dec-scratch",[(DE,"""	_, err := dr.Read(dr.scratch[0:1])
	return dr.scratch[0], err
""","""	b, err := dr.readScratch(1)
	return b[0], err
"""),(DE,"""	_, err := dr.Read(dr.scratch[0:2])
	return binary.LittleEndian.Uint16(dr.scratch[0:2]), err
""","""	b, err := dr.readScratch(2)
	return binary.LittleEndian.Uint16(b), err
"""),(DE,"""	_, err := dr.Read(dr.scratch[0:4])
	return binary.LittleEndian.Uint32(dr.scratch[0:4]), err
""","""	b, err := dr.readScratch(4)
	if err != nil {
		return 0, err
	}
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, nil
"""),(DE,"""	_, err := dr.Read(dr.scratch[0:8])
	return binary.LittleEndian.Uint64(dr.scratch[0:8]), err
}
""","""	b, err := dr.readScratch(8)
	return binary.LittleEndian.Uint64(b), err
}

// the next n bytes, in the scratchpad
func (dr *DecodingReader) readScratch(n int) ([]byte, error) {
	b := dr.scratch[:n]
	_, err := dr.Read(b)
	return b, err
}
"""),(DE,"	return dr.Max() - dr.Index()","	return dr.max - dr.i")]),
("dec-scope",[(DE,"""	if span := dr.GetBytesSpan(); span < count {
		return nil, fmt.Errorf("cannot create scoped decoding reader, scope of %d bytes is bigger than parent scope has available space %d", count, span)
	}
	return &DecodingReader{input: io.LimitReader(dr.input, int64(count)), i: 0, max: count}, nil""","""	span := dr.GetBytesSpan()
	if count > span {
		return nil, fmt.Errorf("cannot create scoped decoding reader, scope of %d bytes is bigger than parent scope has available space %d", count, span)
	}
	scoped := new(DecodingReader)
	scoped.input = &io.LimitedReader{R: dr.input, N: int64(count)}
	scoped.max = count
	return scoped, nil"""),(DE,"""	if span := dr.GetBytesSpan(); x > span {
		return 0, fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
	}
	dr.i += x
	return int(x), nil""","""	next := dr.i + x
	if next < dr.i || next > dr.max {
		return 0, fmt.Errorf("cannot read %d bytes, scope ends at %d", x, dr.max)
	}
	dr.i = next
	return int(x), nil""")]),
("enc-offset",[(EN,"""	if prevOffset >= (uint64(1) << 32) {
		panic("cannot write offset with invalid previous offset")
	}
	if elemLen >= (uint64(1) << 32) {
		panic("cannot write offset with invalid element size")
	}
	offset = prevOffset + elemLen
	if offset >= (uint64(1) << 32) {
		panic("offset too large, not uint32")
	}
	binary.LittleEndian.PutUint32(ew.Scratch[0:4], uint32(offset))
	err = ew.Write(ew.Scratch[0:4])
	return
""","""	const maxOffset = uint64(1)<<32 - 1
	if prevOffset > maxOffset {
		panic("cannot write offset with invalid previous offset")
	}
	if elemLen > maxOffset-prevOffset {
		panic("offset too large, not uint32")
	}
	offset = prevOffset + elemLen
	out := ew.Scratch[:4]
	binary.LittleEndian.PutUint32(out, uint32(offset))
	return offset, ew.Write(out)
"""),(EN,"	n, err := ew.wfn(p)\n	ew.n += n\n	return err","	n, err := ew.w.Write(p)\n	ew.n += n\n	if err != nil {\n		return err\n	}\n	return nil")]),
("htr-mix",[("htr/hash_tree_root.go","	v := [64]byte{}\n	copy(v[:32], a[:])\n	copy(v[32:], make([]byte, 32, 32))\n	binary","	var v [64]byte\n	copy(v[:], a[:])\n	binary"),
 ("htr/hash_tree_root.go","	v := [64]byte{}\n	copy(v[:32], a[:])\n	copy(v[32:], b[:])\n	return h(v[:])","	v := make([]byte, 0, 64)\n	v = append(v, a[:]...)\n	v = append(v, b[:]...)\n	return h(v)"),
 ("htr/hash_tree_root.go","""	ZeroHashes = make([][32]byte, zeroHashesLevels+1)
	v := [64]byte{}
	for i := 0; i < zeroHashesLevels; i++ {
		copy(v[:32], ZeroHashes[i][:])
		copy(v[32:], ZeroHashes[i][:])
		ZeroHashes[i+1] = hFn(v[:])
	}""","""	hashes := make([][32]byte, zeroHashesLevels+1)
	for i := 1; i < len(hashes); i++ {
		hashes[i] = hFn.Combi(hashes[i-1], hashes[i-1])
	}
	ZeroHashes = hashes""")]),
("factory-split",[("types/factory.go","""	case reflect.Array:
		switch typ.Elem().Kind() {
		case reflect.Uint8:
			ptrTyp := reflect.PtrTo(typ)
			if ptrTyp.Implements(bitvectorMeta) {
				return NewSSZBitvector(typ)
			} else {
				return NewSSZBytesN(typ)
			}
		case reflect.Bool, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return NewSSZBasicVector(typ)
		default:
			return NewSSZVector(factory, typ)
		}
	case""","""	case reflect.Array:
		return arraySSZ(factory, typ)
	case"""),("types/factory.go","""func DefaultSSZFactory(""","""func isBasic(kind reflect.Kind) bool {
	return kind == reflect.Bool || kind == reflect.Uint16 || kind == reflect.Uint32 || kind == reflect.Uint64
}

func arraySSZ(factory SSZFactoryFn, typ reflect.Type) (SSZ, error) {
	elemKind := typ.Elem().Kind()
	if elemKind == reflect.Uint8 {
		if reflect.PtrTo(typ).Implements(bitvectorMeta) {
			return NewSSZBitvector(typ)
		}
		return NewSSZBytesN(typ)
	}
	if isBasic(elemKind) {
		return NewSSZBasicVector(typ)
	}
	return NewSSZVector(factory, typ)
}

func DefaultSSZFactory(""")]),
("list-local",[(LI,"""	sh := ptrutil.ReadSliceHeader(p)
	if v.elemSSZ.IsFixed() {
		return EncodeFixedSeries(v.elemSSZ.Encode, uint64(sh.Len), v.elemMemSize, eb, sh.Data)
	} else {
		return EncodeVarSeries(v.elemSSZ.Encode, v.elemSSZ.SizeOf, uint64(sh.Len), v.elemMemSize, eb, sh.Data)
	}""","""	sh := ptrutil.ReadSliceHeader(p)
	length, elem := uint64(sh.Len), v.elemSSZ
	if !elem.IsFixed() {
		return EncodeVarSeries(elem.Encode, elem.SizeOf, length, v.elemMemSize, eb, sh.Data)
	}
	return EncodeFixedSeries(elem.Encode, length, v.elemMemSize, eb, sh.Data)"""),(LI,"""		for i := 0; i < sh.Len; i++ {
			elemPtr := unsafe.Pointer(uintptr(sh.Data) + memOffset)
			memOffset += v.elemMemSize
			out += v.elemSSZ.SizeOf(elemPtr)
		}""","""		for n := sh.Len; n > 0; n-- {
			out += v.elemSSZ.SizeOf(unsafe.Pointer(uintptr(sh.Data) + memOffset))
			memOffset += v.elemMemSize
		}""")]),
("list-fuzz",[(LI,"""	span := dr.GetBytesSpan()
	if span > v.maxFuzzLen-8 {
		span = v.maxFuzzLen - 8
	}
	length := uint64(0)
	if span != 0 {
		length = (x % span) / v.elemSSZ.FuzzMinLen()
	}
	if length > v.limit {
		length = v.limit
	}
""","""	span := minU64(dr.GetBytesSpan(), v.maxFuzzLen-8)
	length := uint64(0)
	if span > 0 {
		length = minU64((x%span)/v.elemSSZ.FuzzMinLen(), v.limit)
	}
"""),(LI,"func (v *SSZList) decode(","func minU64(a, b uint64) uint64 {\n	if a < b {\n		return a\n	}\n	return b\n}\n\nfunc (v *SSZList) decode("),(LI,"""	elemHtr := v.elemSSZ.HashTreeRoot
	elemSize := v.elemMemSize
	sh := ptrutil.ReadSliceHeader(p)
	leaf := func(i uint64) []byte {
		r := elemHtr(h, unsafe.Pointer(uintptr(sh.Data)+(elemSize*uintptr(i))))
		return r[:]
	}
	return h.MixIn(merkle.Merkleize(h, uint64(sh.Len), v.limit, leaf), uint64(sh.Len))""","""	sh := ptrutil.ReadSliceHeader(p)
	length, contents := uint64(sh.Len), sh.Data
	leaf := func(i uint64) []byte {
		elemPtr := unsafe.Pointer(uintptr(contents) + uintptr(i)*v.elemMemSize)
		r := v.elemSSZ.HashTreeRoot(h, elemPtr)
		return r[:]
	}
	root := merkle.Merkleize(h, length, v.limit, leaf)
	return h.MixIn(root, length)""")]),
("vector-flat",[(VE,"""	if v.IsFixed() {
		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, v.elemMemSize, dr, p)
	} else {
		if dr.IsFuzzMode() {
			return DecodeVarSeriesFuzzMode(v.elemSSZ, v.length, v.elemMemSize, dr, p)
		} else {
			return DecodeVarSeries(v.elemSSZ.Decode, v.length, v.elemMemSize, dr, p)
		}
	}""","""	switch {
	case v.isFixedLen:
		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, v.elemMemSize, dr, p)
	case dr.IsFuzzMode():
		return DecodeVarSeriesFuzzMode(v.elemSSZ, v.length, v.elemMemSize, dr, p)
	}
	return DecodeVarSeries(v.elemSSZ.Decode, v.length, v.elemMemSize, dr, p)"""),(VE,"""	if v.IsFixed() {
		return v.fixedLen
	} else {
		out := v.fixedLen
		memOffset := uintptr(0)
		for i := uint64(0); i < v.length; i++ {
			elemPtr := unsafe.Pointer(uintptr(p) + memOffset)
			memOffset += v.elemMemSize
			out += v.elemSSZ.SizeOf(elemPtr)
		}
		return out
	}""","""	size := v.fixedLen
	if v.isFixedLen {
		return size
	}
	CallSeries(func(_ uint64, elemPtr unsafe.Pointer) {
		size += v.elemSSZ.SizeOf(elemPtr)
	}, v.length, v.elemMemSize, p)
	return size""")]),
("scope-helper",[(EV,"""		// calculate the scope based on next offset, and max. value of this scope for the last value
		var scope uint64
		if next := i + 1; next < len(offsets) {
			if nextOffset := offsets[next]; nextOffset >= currentOffset {
				scope = nextOffset - currentOffset
			} else {
				return fmt.Errorf("offset %d is invalid", i)
			}
		} else {
			scope = dr.Max() - currentOffset
		}
		scoped, err := dr.Scope(scope)
		if err != nil {
			return err
		}
		if err := dryCheckFn(scoped); err != nil {""","""		scoped, err := elemScope(offsets, i, dr)
		if err != nil {
			return err
		}
		if err := dryCheckFn(scoped); err != nil {"""),(EV,"""		// calculate the scope based on next offset, and max. value of this scope for the last value
		var scope uint64
		if next := i + 1; next < len(offsets) {
			if nextOffset := offsets[next]; nextOffset >= currentOffset {
				scope = nextOffset - currentOffset
			} else {
				return fmt.Errorf("offset %d is invalid", i)
			}
		} else {
			scope = dr.Max() - currentOffset
		}
		scoped, err := dr.Scope(scope)
		if err != nil {
			return err
		}
		if err := decFn(""","""		scoped, err := elemScope(offsets, i, dr)
		if err != nil {
			return err
		}
		if err := decFn("""),(EV,"func DryCheckVarSeries(","""// elemScope is the scope of element i: up to the next offset, or the end for the last element.
func elemScope(offsets []uint64, i int, dr *DecodingReader) (*DecodingReader, error) {
	end := dr.Max()
	if i+1 < len(offsets) {
		end = offsets[i+1]
	}
	if end < offsets[i] {
		return nil, fmt.Errorf("offset %d is invalid", i)
	}
	return dr.Scope(end - offsets[i])
}

func DryCheckVarSeries(""")]),
("offset-check",[(EV,"	if firstOffset > bytesLen || (firstOffset%BYTES_PER_LENGTH_OFFSET) != 0 {\n		return nil, fmt.Errorf(\"non-empty dynamic-length series has invalid first offset: %d\", firstOffset)\n	}\n","	if firstOffset%BYTES_PER_LENGTH_OFFSET != 0 {\n		return nil, fmt.Errorf(\"non-empty dynamic-length series has unaligned first offset: %d\", firstOffset)\n	}\n	if firstOffset > bytesLen {\n		return nil, fmt.Errorf(\"non-empty dynamic-length series has invalid first offset: %d\", firstOffset)\n	}\n"),
 (EV,"	offsets := make([]uint64, 0, length)\n\n	// add the first offset used in the length check\n	offsets = append(offsets, firstOffset)\n\n	// add the remaining offsets\n	for i := uint64(1); i < length; i++ {\n		offset, err := dr.ReadOffset()\n		if err != nil {\n			return nil, err\n		}\n		offsets = append(offsets, offset)\n	}\n\n	if","	offsets := append(make([]uint64, 0, length), firstOffset)\n\n	// add the remaining offsets\n	for uint64(len(offsets)) < length {\n		offset, err := dr.ReadOffset()\n		if err != nil {\n			return nil, err\n		}\n		offsets = append(offsets, offset)\n	}\n\n	if")]),
("fuzz-helper",[(EV,"""		span := dr.GetBytesSpan()
		if span < lengthLeftOver {
			return fmt.Errorf("under estimated length requirements for fuzzing input, not enough data available to fuzz")
		}
		available := span - lengthLeftOver

		scoped, err := dr.Scope(available)
		if err != nil {
			return err
		}
		scoped.EnableFuzzMode()
""","""		scoped, err := fuzzScope(dr, lengthLeftOver)
		if err != nil {
			return err
		}
"""),(EV,"func ReadVarSliceOffsets(","""// fuzzScope is a scope with all but the last bytes of dr.
func fuzzScope(dr *DecodingReader, keep uint64) (*DecodingReader, error) {
	span := dr.GetBytesSpan()
	if span < keep {
		return nil, fmt.Errorf("under estimated length requirements for fuzzing input, not enough data available to fuzz")
	}
	scoped, err := dr.Scope(span - keep)
	if err != nil {
		return nil, err
	}
	scoped.EnableFuzzMode()
	return scoped, nil
}

func ReadVarSliceOffsets("""),(CT,"""		span := dr.GetBytesSpan()
		if span < lengthLeftOver {
			return fmt.Errorf("under estimated length requirements for fuzzing input, not enough data available to fuzz")
		}
		available := span - lengthLeftOver

		scoped, err := dr.Scope(available)
		if err != nil {
			return err
		}
		scoped.EnableFuzzMode()
""","""		scoped, err := fuzzScope(dr, lengthLeftOver)
		if err != nil {
			return err
		}
""")]),
("ct-encode",[(CT,"""	// Only iterate over and write dynamic parts if we need to.
	if !v.isFixedLen {
		for i := range v.Fields {
			f := &v.Fields[i]
			if !f.isFixed {
				if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {
					return err
				}
			}
		}
	}
	return nil""","""	for i := range v.Fields {
		f := &v.Fields[i]
		if f.isFixed {
			continue
		}
		if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {
			return err
		}
	}
	return nil"""),(CT,"""	// hot-path for common case of fixed-size container
	if v.isFixedLen {
		for i := range v.Fields {
			f := &v.Fields[i]
			if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {
				return err
			}
		}
		return nil
	}
	// the""","""	// the""")]),
("ct-htr",[(CT,"""	leaf := func(i uint64) []byte {
		f := v.Fields[i]
		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))
		return r[:]
	}
	leafCount := uint64(len(v.Fields))
	return merkle.Merkleize(h, leafCount, leafCount, leaf)
}
""","""	return v.rootOf(h, p, uint64(len(v.Fields)))
}

// rootOf is the root of the first count fields
func (v *SSZContainer) rootOf(h MerkleFn, p unsafe.Pointer, count uint64) [32]byte {
	return merkle.Merkleize(h, count, count, func(i uint64) []byte {
		f := &v.Fields[i]
		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))
		return r[:]
	})
}
"""),(CT,"""	leaf := func(i uint64) []byte {
		f := v.Fields[i]
		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))
		return r[:]
	}
	// truncate last field
	leafCount := uint64(len(v.Fields))
	if leafCount != 0 {
		leafCount--
	}
	return merkle.Merkleize(h, leafCount, leafCount, leaf)""","""	count := len(v.Fields)
	if count == 0 {
		return v.rootOf(h, p, 0)
	}
	// truncate last field
	return v.rootOf(h, p, uint64(count-1))""")]),
("ct-closure",[(CT,"""	offsets, err := v.processFixedPart(dr, func(f *ContainerField) error {
		return f.ssz.Decode(dr, f.ptrFn(p))
	})
	if err != nil {
		return err
	}
	return v.decodeDynamicPart(dr, offsets, func(scopedDr *DecodingReader, f *ContainerField) error {
		return f.ssz.Decode(scopedDr, f.ptrFn(p))
	})""","""	decode := func(dr *DecodingReader, f *ContainerField) error {
		return f.ssz.Decode(dr, f.ptrFn(p))
	}
	offsets, err := v.processFixedPart(dr, func(f *ContainerField) error { return decode(dr, f) })
	if err != nil {
		return err
	}
	return v.decodeDynamicPart(dr, offsets, decode)"""),(CT,"""		var scope uint64
		{
			currentOffset := offsets[i]
			if next := i + 1; next < len(offsets) {
				if nextOffset := offsets[next]; nextOffset >= currentOffset {
					scope = nextOffset - currentOffset
				} else {
					return fmt.Errorf("offset %d for field %s is invalid", i, f.name)
				}
			} else {
				scope = dr.Max() - currentOffset
			}
		}
		{
			realOffset := dr.Index()
			if expectedOffset := offsets[i]; expectedOffset != realOffset {
				return fmt.Errorf("expected to be at %d bytes, but currently at %d", expectedOffset, realOffset)
			}
			scoped, err := dr.Scope(scope)
			if err != nil {
				return err
			}
			if err := fieldHandler(scoped, f); err != nil {
				return err
			}
			dr.UpdateIndexFromScoped(scoped)
		}
""","""		start, end := offsets[i], dr.Max()
		if i+1 < len(offsets) {
			end = offsets[i+1]
		}
		if end < start {
			return fmt.Errorf("offset %d for field %s is invalid", i, f.name)
		}
		if index := dr.Index(); start != index {
			return fmt.Errorf("expected to be at %d bytes, but currently at %d", start, index)
		}
		scoped, err := dr.Scope(end - start)
		if err != nil {
			return err
		}
		if err := fieldHandler(scoped, f); err != nil {
			return err
		}
		dr.UpdateIndexFromScoped(scoped)
""")]),
("bs-leaf",[(BS,"""	leaf := func(i uint64) []byte {
		s := i << 5
		e := (i + 1) << 5
		// pad the data
		if e > bytesLen {
			d := [32]byte{}
			copy(d[:], data[s:bytesLen])
			return d[:]
		}
		return data[s:e]
	}
	leafCount := (bytesLen + 31) >> 5
	leafLimit := (bytesLimit + 31) >> 5
	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
}
""","""	leaf := func(i uint64) []byte {
		if e := (i + 1) << 5; e <= bytesLen {
			return data[e-32 : e]
		}
		// pad the data
		return padChunk(data[i<<5:])
	}
	return merkle.Merkleize(h, chunks(bytesLen), chunks(bytesLimit), leaf)
}

func chunks(n uint64) uint64 {
	return (n + 31) >> 5
}

func padChunk(b []byte) []byte {
	d := make([]byte, 32)
	copy(d, b)
	return d
}
"""),(BS,"""		d := [32]byte{}
		if e > bytesLen {
			copy(d[:], data[s:bytesLen])
		} else {
			copy(d[:], data[s:e])
		}
		d = BigToLittleEndianChunk(d, elemSize)
		return d[:]""","""		if e > bytesLen {
			e = bytesLen
		}
		var d [32]byte
		copy(d[:], data[s:e])
		d = BigToLittleEndianChunk(d, elemSize)
		return d[:]""")]),
("bs-bool",[(BS,"""		if dr.IsFuzzMode() {
			// just make it correct where necessary
			for i := 0; i < len(data); i++ {
				if data[i] > 1 {
					data[i] = 1
				}
			}
		} else {
			for i := 0; i < len(data); i++ {
				if data[i] > 1 {
					return fmt.Errorf("byte %d in bool list is not a valid bool value: %d", i, data[i])
				}
			}
		}""","""		fuzz := dr.IsFuzzMode()
		for i, b := range data {
			if b <= 1 {
				continue
			}
			if !fuzz {
				return fmt.Errorf("byte %d in bool list is not a valid bool value: %d", i, b)
			}
			// just make it correct where necessary
			data[i] = 1
		}"""),(BS,"""			if v, err := dr.ReadByte(); err != nil {
				return err
			} else if v > 1 {
				return fmt.Errorf("byte %d in bool list is not a valid bool value: %d", i, v)
			}""","""			v, err := dr.ReadByte()
			if err != nil {
				return err
			}
			if v != 0 && v != 1 {
				return fmt.Errorf("byte %d in bool list is not a valid bool value: %d", i, v)
			}""")]),
("ef-len",[(EF,"""	length := bytesLen / elemLen

	if length > limit {
		return 0, fmt.Errorf("got %d elements, expected no more than %d elements", length, limit)
	}
	return length, nil""","""	if length := bytesLen / elemLen; length <= limit {
		return length, nil
	} else {
		return 0, fmt.Errorf("got %d elements, expected no more than %d elements", length, limit)
	}"""),(EF,"""	memOffset := uintptr(0)
	for i := uint64(0); i < length; i++ {
		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)
		memOffset += elemMemSize
		if err := decFn(dr, elemPtr); err != nil {
			return err
		}
	}
	return nil""","""	elemPtr := p
	for i := uint64(0); i < length; i++ {
		if err := decFn(dr, elemPtr); err != nil {
			return err
		}
		elemPtr = unsafe.Pointer(uintptr(elemPtr) + elemMemSize)
	}
	return nil""")]),
("bl-fuzz",[(BL,"""		if bitsLeft := v.bitLimit - ((byteLen - 1) << 3); bitsLeft < 7 {
			data[len(data)-1] &= (byte(2) << bitsLeft) - 1
		}
		if data[len(data)-1] == 0 {
			// last byte must not be 0 for bitlist to be valid
			data[len(data)-1] = 1
		}""","""		last := data[byteLen-1]
		if bitsLeft := v.bitLimit - 8*(byteLen-1); bitsLeft < 7 {
			last &= byte(1)<<(bitsLeft+1) - 1
		}
		if last == 0 {
			// last byte must not be 0 for bitlist to be valid
			last = 1
		}
		data[byteLen-1] = last"""),(BL,"""	// 0 span is already checked by BitlistCheckByteLen
	if _, err := dr.Skip(span - 1); err != nil {
		return err
	}
	last, err := dr.ReadByte()
	if err != nil {
		return err
	}
	return bitfields.BitlistCheckLastByte(last, v.bitLimit-((span-1)<<3))""","""	// 0 span is already checked by BitlistCheckByteLen
	fullBytes := span - 1
	if _, err := dr.Skip(fullBytes); err != nil {
		return err
	}
	if last, err := dr.ReadByte(); err != nil {
		return err
	} else {
		return bitfields.BitlistCheckLastByte(last, v.bitLimit-fullBytes*8)
	}""")]),
("bl-chunk",[(BL,"""			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
				// find the index of the length-determining 1 bit (bitlist length == index of this bit)
				delimitByteIndex := (byteLen - 1) & 31
				mask := ^(byte(1) << bitfields.BitIndex(x[delimitByteIndex]))
				// zero out the length bit.
				x[delimitByteIndex] &= mask
			}
""","""			if bitLen%8 != 0 { // if we not already cut off the delimiting bit with a bytes boundary
				// zero out the length bit.
				x[(bitLen/8)%32] &^= byte(1) << (bitLen % 8)
			}
""")]),
("bits-get",[("bitfields/bitfield.go","	return (b[i>>3]>>(i&7))&1 == 1","	mask := byte(1) << (i % 8)\n	return b[i/8]&mask != 0"),
 ("bitfields/bitfield.go","	if bit := byte(1) << (i & 7); v {\n		b[i>>3] |= bit\n	} else {\n		b[i>>3] &^= bit\n	}","	target := &b[i/8]\n	bit := byte(1) << (i % 8)\n	*target &^= bit\n	if v {\n		*target |= bit\n	}")]),
("mk-depth",[(MK,"	v--\n	if v&mask5","	// the bit-length of v-1, with a minimum of 1\n	v--\n	if v == 0 {\n		return 1\n	}\n	return uint8(bits.Len64(v))\n}\n\nfunc getDepthBits(v uint64) (out uint8) {\n	if v&mask5"),(MK,"import (","import (\n	\"math/bits\"\n")]),
("mk-merge",[(MK,"""			// stop merging when we are in the left side of the next combi
			if i&(uint64(1)<<j) == 0 {
				// if we are at the count, we want to merge in zero-hashes for padding
				if i == count && j < depth {
					v := hasher.Combi(hArr, ZeroHashes[j])
					copy(h, v[:])
				} else {
					break
				}
			} else {
				// keep merging up if we are the right side
				v := hasher.Combi(tmp[j], hArr)
				copy(h, v[:])
			}
		}
		// store the merge result (may be no merge, i.e. bottom leaf node)
		copy(tmp[j][:], h)
	}
""","""			if (i>>j)&1 == 1 {
				// keep merging up if we are the right side
				hArr = hasher.Combi(tmp[j], hArr)
				continue
			}
			// stop merging when we are in the left side of the next combi,
			// unless we are at the count: then we want to merge in zero-hashes for padding
			if i != count || j >= depth {
				break
			}
			hArr = hasher.Combi(hArr, ZeroHashes[j])
		}
		// store the merge result (may be no merge, i.e. bottom leaf node)
		tmp[j] = hArr
	}
""")]),
("mk-proof",[(MK,"	branch = append(branch, ZeroHashes[:limitDepth]...)\n","	branch = make([][32]byte, limitDepth)\n	copy(branch, ZeroHashes)\n"),
 (MK,"			if (i>>j)^1 == (index>>j) && ((((1<<j)-1)&i) == ((1<<j)-1) || i == count) {","			last := uint64(1)<<j - 1\n			if sibling := (index >> j) ^ 1; i>>j == sibling && (i&last == last || i == count) {"),
 (MK,"		if index>>j == 1 {\n			branch[j] = tmp[j]\n		}\n		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])","		node := tmp[j]\n		if index>>j == 1 {\n			branch[j] = node\n		}\n		tmp[j+1] = hasher.Combi(node, ZeroHashes[j])")]),
]
