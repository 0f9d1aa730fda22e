# round 10: standard-library substitutions, error values and types, methods for closures, maps for switches
E = [
("map-kinds", [("types/basic_series.go", '''func GetBasicSSZElemType(kind reflect.Kind) (SSZ, error) {
	switch kind {
	case reflect.Bool:
		return SSZBool{}, nil
	case reflect.Uint8:
		return SSZUint8{}, nil
	case reflect.Uint16:
		return SSZUint16{}, nil
	case reflect.Uint32:
		return SSZUint32{}, nil
	case reflect.Uint64:
		return SSZUint64{}, nil
	default:
		return nil, fmt.Errorf("kind %d is not a basic type", kind)
	}
}''', '''var basicElemTypes = map[reflect.Kind]SSZ{
	reflect.Bool:   SSZBool{},
	reflect.Uint8:  SSZUint8{},
	reflect.Uint16: SSZUint16{},
	reflect.Uint32: SSZUint32{},
	reflect.Uint64: SSZUint64{},
}

func GetBasicSSZElemType(kind reflect.Kind) (SSZ, error) {
	if elem, ok := basicElemTypes[kind]; ok {
		return elem, nil
	}
	return nil, fmt.Errorf("kind %d is not a basic type", kind)
}''')]),
("tag-cut", [("util/tags/read_tag.go", '''		var next string
		i := strings.Index(tag, ",")
		if i >= 0 {
			tag, next = tag[:i], tag[i+1:]
		}
		if tag == flag {
			return true
		}
		tag = next
''', '''		var part string
		part, tag, _ = strings.Cut(tag, ",")
		if part == flag {
			return true
		}
''')]),
("tag-byte", [("util/tags/read_tag.go", '''strings.Index(tag, ",")''', '''strings.IndexByte(tag, ',')''')]),
("err-var", [("types/ssz_bool.go", '''type SSZBool struct{}''', '''var errInvalidBool = fmt.Errorf("bool value is invalid")

type SSZBool struct{}'''),
 ("types/ssz_bool.go", '''			return fmt.Errorf("bool value is invalid")
''', '''			return errInvalidBool
'''), ("types/ssz_bool.go", '''		return fmt.Errorf("bool value is invalid")
''', '''		return errInvalidBool
''')]),
("err-type", [("dec/decoder.go", '''func (dr *DecodingReader) checkedIndexUpdate(''', '''type scopeError struct {
	count, span uint64
}

func (e *scopeError) Error() string {
	return fmt.Sprintf("cannot read %d bytes, %d beyond scope", e.count, e.count-e.span)
}

func (dr *DecodingReader) checkedIndexUpdate('''),
 ("dec/decoder.go", '''fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)''', '''&scopeError{count: x, span: span}''')]),
("leaf-method", [("types/basic_series.go", '''	leaf := func(i uint64) []byte {
		s := i << 5
		e := (i + 1) << 5
		// pad the data
		if e > bytesLen {
			d := [32]byte{}
			copy(d[:], data[s:bytesLen])
			return d[:]
		}
		return data[s:e]
	}
''', '''	leaf := chunks{data}.at
'''), ("types/basic_series.go", '''// WARNING: for little-endian architectures only, or the elem-length has to be 1 byte
func LittleEndianBasicSeriesHTR(''', '''type chunks struct{ data []byte }

func (c chunks) at(i uint64) []byte {
	s := i << 5
	if e := s + 32; e <= uint64(len(c.data)) {
		return c.data[s:e]
	}
	// pad the data
	d := make([]byte, 32)
	copy(d, c.data[s:])
	return d
}

// WARNING: for little-endian architectures only, or the elem-length has to be 1 byte
func LittleEndianBasicSeriesHTR(''')]),
("bl-split", [("types/ssz_bitlist.go", '''func (v *SSZBitlist) DryCheck(''', '''func (v *SSZBitlist) fuzzLen(dr *DecodingReader) (uint64, error) {
	x, err := dr.ReadUint64()
	if err != nil {
		return 0, err
	}
	span := dr.GetBytesSpan() - 1
	if v.byteLimit < span {
		span = v.byteLimit
	}
	if span == 0 {
		return 1, nil
	}
	return x%span + 1, nil
}

func (v *SSZBitlist) exactLen(dr *DecodingReader) (uint64, error) {
	n := dr.GetBytesSpan()
	return n, bitfields.BitlistCheckByteLen(n, v.bitLimit)
}

func (v *SSZBitlist) DryCheck('''), ("types/ssz_bitlist.go", '''	var byteLen uint64
	if dr.IsFuzzMode() {
		x, err := dr.ReadUint64()
		if err != nil {
			return err
		}
		// get span to fill with available space
		span := dr.GetBytesSpan() - 1
		// respect type limit
		if span > v.byteLimit {
			span = v.byteLimit
		}
		if span != 0 {
			byteLen = x % span
		}
		// completely empty bitlists are invalid. Need a leading 1 bit.
		byteLen += 1
	} else {
		byteLen = dr.GetBytesSpan()
		// check before allocating any space
		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
			return err
		}
	}
''', '''	readLen := v.exactLen
	if dr.IsFuzzMode() {
		readLen = v.fuzzLen
	}
	byteLen, err := readLen(dr)
	if err != nil {
		return err
	}
''')]),
("bl-htr", [("types/ssz_bitlist.go", '''			x := [32]byte{}
			copy(x[:], data[s:byteLen])
			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
				// find the index of the length-determining 1 bit (bitlist length == index of this bit)
				delimitByteIndex := (byteLen - 1) & 31
				mask := ^(byte(1) << bitfields.BitIndex(x[delimitByteIndex]))
				// zero out the length bit.
				x[delimitByteIndex] &= mask
			}
			return x[:]
''', '''			x := [32]byte{}
			n := copy(x[:], data[s:byteLen])
			if n > 0 && bitLen%8 != 0 {
				last := &x[n-1]
				*last &^= 1 << bitfields.BitIndex(*last)
			}
			return x[:]
''')]),
("mk-struct", [("merkle/merkleize.go", '''	tmp := make([][32]byte, limitDepth+1, limitDepth+1)

	j := uint8(0)
	hArr := [32]byte{}
	h := hArr[:]

	merge := func(i uint64) {
		// merge back up from bottom to top, as far as we can
		for j = 0; ; j++ {
			// stop merging when we are in the left side of the next combi
			if i&(uint64(1)<<j) == 0 {
				// if we are at the count, we want to merge in zero-hashes for padding
				if i == count && j < depth {
					v := hasher.Combi(hArr, ZeroHashes[j])
					copy(h, v[:])
				} else {
					break
				}
			} else {
				// keep merging up if we are the right side
				v := hasher.Combi(tmp[j], hArr)
				copy(h, v[:])
			}
		}
		// store the merge result (may be no merge, i.e. bottom leaf node)
		copy(tmp[j][:], h)
	}

	// merge in leaf by leaf.
	for i := uint64(0); i < count; i++ {
		copy(h[:], leaf(i))
		merge(i)
	}

	// complement with 0 if empty, or if not the right power of 2
	if (uint64(1) << depth) != count {
		copy(h[:], ZeroHashes[0][:])
		merge(count)
	}
''', '''	tmp := make([][32]byte, limitDepth+1)
	m := merger{hasher: hasher, tmp: tmp, count: count, depth: depth}

	// merge in leaf by leaf.
	for i := uint64(0); i < count; i++ {
		copy(m.h[:], leaf(i))
		m.merge(i)
	}

	// complement with 0 if empty, or if not the right power of 2
	if (uint64(1) << depth) != count {
		m.h = ZeroHashes[0]
		m.merge(count)
	}
'''), ("merkle/merkleize.go", '''// Merkleize with log(N) space allocation
''', '''type merger struct {
	hasher MerkleFn
	tmp    [][32]byte
	count  uint64
	depth  uint8
	h      [32]byte
}

func (m *merger) merge(i uint64) {
	j := uint8(0)
	// merge back up from bottom to top, as far as we can
	for ; ; j++ {
		if (i>>j)&1 != 0 {
			// keep merging up if we are the right side
			m.h = m.hasher.Combi(m.tmp[j], m.h)
			continue
		}
		// if we are at the count, we want to merge in zero-hashes for padding
		if i != m.count || j >= m.depth {
			break
		}
		m.h = m.hasher.Combi(m.h, ZeroHashes[j])
	}
	m.tmp[j] = m.h
}

// Merkleize with log(N) space allocation
''')]),
("bool-switch", [("types/ssz_bool.go", '''	if b == 0x00 {
		*(*bool)(p) = false
		return nil
	} else if b == 0x01 {
		*(*bool)(p) = true
		return nil
	} else {
		if dr.IsFuzzMode() {
			// just make a valid random bool
			*(*bool)(p) = b&1 != 0
			return nil
		} else {
			return fmt.Errorf("bool value is invalid")
		}
	}
''', '''	if b > 1 && !dr.IsFuzzMode() {
		return fmt.Errorf("bool value is not valid: %d", b)
	}
	// just make a valid random bool when fuzzing
	*(*byte)(p) = b & 1
	return nil
''')]),
("bas-native", [("types/ssz_list_basic.go", '''func (v *SSZBasicList) SizeOf(''', '''// native: is the encoding the same as the memory?
func (v *SSZBasicList) native() bool {
	return v.elemLen() == 1 || endianness.IsLittleEndian
}

func (v *SSZBasicList) elemLen() uint64 {
	return v.elemSSZ.FixedLen()
}

func (v *SSZBasicList) decodeContents(dr *DecodingReader, p unsafe.Pointer, bytesLen uint64) error {
	if !v.native() {
		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemLen()), dr, p)
	}
	contents := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemLen())
	return LittleEndianBasicSeriesDecode(dr, contents, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
}

func (v *SSZBasicList) SizeOf('''),
 ("types/ssz_list_basic.go", '''	bytesLen -= bytesLen % v.elemSSZ.FixedLen()

	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
		bytesLimit := v.limit * v.elemSSZ.FixedLen()
		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
	} else {
		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
	}
''', '''	return v.decodeContents(dr, p, bytesLen-bytesLen%v.elemLen())
'''), ("types/ssz_list_basic.go", '''	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
	} else {
		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
	}
''', '''	return v.decodeContents(dr, p, bytesLen)
''')]),
("fx-ptr", [("types/elem_fixed_size_series.go", '''	memOffset := uintptr(0)
	for i := uint64(0); i < length; i++ {
		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)
		memOffset += elemMemSize
		if err := decFn(dr, elemPtr); err != nil {
			return err
		}
	}
	return nil
''', '''	for ; length > 0; length-- {
		if err := decFn(dr, p); err != nil {
			return err
		}
		if length > 1 {
			p = unsafe.Pointer(uintptr(p) + elemMemSize)
		}
	}
	return nil
''')]),
("fx-each", [("types/elem_fixed_size_series.go", '''	memOffset := uintptr(0)
	for i := uint64(0); i < length; i++ {
		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)
		memOffset += elemMemSize
		if err := encFn(eb, elemPtr); err != nil {
			return err
		}
	}
	return nil
''', '''	return eachElem(length, elemMemSize, p, func(elem unsafe.Pointer) error {
		return encFn(eb, elem)
	})
'''), ("types/elem_fixed_size_series.go", '''func EncodeFixedSeries(''', '''func eachElem(length uint64, elemMemSize uintptr, p unsafe.Pointer, fn func(elem unsafe.Pointer) error) error {
	for i := uint64(0); i < length; i++ {
		if err := fn(unsafe.Pointer(uintptr(p) + uintptr(i)*elemMemSize)); err != nil {
			return err
		}
	}
	return nil
}

func EncodeFixedSeries(''')]),
("scope-new", [("dec/decoder.go", '''	return &DecodingReader{input: io.LimitReader(dr.input, int64(count)), i: 0, max: count}, nil
''', '''	sub := NewDecodingReader(&io.LimitedReader{R: dr.input, N: int64(count)})
	sub.max = count
	return sub, nil
''')]),
("api-iface", [("zssz.go", '''	p := ptrutil.IfacePtrToPtr(&val)
	out := sszTyp.SizeOf(p)
	// make sure the data of the object is kept around up to this point.
	runtime.KeepAlive(&val)
	return out
''', '''	defer runtime.KeepAlive(&val)
	return sszTyp.SizeOf(ptrutil.IfacePtrToPtr(&val))
''')]),
]
