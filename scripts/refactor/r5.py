EV="types/elem_var_size_series.go"; EF="types/elem_fixed_size_series.go"; BS="types/basic_series.go"; BL="types/ssz_bitlist.go"; PT="types/ssz_ptr.go"; LB="types/ssz_list_basic.go"; DE="dec/decoder.go"; Z="zssz.go"; BO="types/ssz_bool.go"; U16="types/ssz_uint16.go"
E=[
("elem-at",[(EF,"""	memOffset := uintptr(0)
	for i := uint64(0); i < length; i++ {
		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)
		memOffset += elemMemSize
		if err := encFn(eb, elemPtr); err != nil {
			return err
		}
	}
	return nil
""","""	for i := uint64(0); i < length; i++ {
		if err := encFn(eb, elemAt(p, elemMemSize, i)); err != nil {
			return err
		}
	}
	return nil
"""),(EF,"""	memOffset := uintptr(0)
	for i := uint64(0); i < length; i++ {
		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)
		memOffset += elemMemSize
		if err := decFn(dr, elemPtr); err != nil {
			return err
		}
	}
	return nil
""","""	var err error
	for i := uint64(0); i < length && err == nil; i++ {
		err = decFn(dr, elemAt(p, elemMemSize, i))
	}
	return err
"""),(EF,"func DecodeFixedSeries(","""// elemAt is the i-th element of the series at p
func elemAt(p unsafe.Pointer, elemMemSize uintptr, i uint64) unsafe.Pointer {
	return unsafe.Pointer(uintptr(p) + uintptr(i)*elemMemSize)
}

func DecodeFixedSeries("""),(EF,"""	length := bytesLen / elemLen

	if length > limit {
		return 0, fmt.Errorf("got %d elements, expected no more than %d elements", length, limit)
	}
	return length, nil
""","""	if length := bytesLen / elemLen; length <= limit {
		return length, nil
	} else {
		return 0, fmt.Errorf("got %d elements, expected no more than %d elements", length, limit)
	}
"""),(EF,"""	length, err := calcFixedSliceLength(elemLen, bytesLen, limit)
	if err != nil {
		return err
	}
	return DryCheckFixedSeries(dryCheckFn, length, dr)
""","""	length, err := calcFixedSliceLength(elemLen, bytesLen, limit)
	if err == nil {
		err = DryCheckFixedSeries(dryCheckFn, length, dr)
	}
	return err
""")]),
("var-shared",[(EV,"""	for i := 0; i < len(offsets); i++ {
		currentOffset := dr.Index()
		if currentOffset != offsets[i] {
			return fmt.Errorf("expected to read to data %d bytes, got to %d", offsets[i], currentOffset)
		}
		// calculate the scope based on next offset, and max. value of this scope for the last value
		var scope uint64
		if next := i + 1; next < len(offsets) {
			if nextOffset := offsets[next]; nextOffset >= currentOffset {
				scope = nextOffset - currentOffset
			} else {
				return fmt.Errorf("offset %d is invalid", i)
			}
		} else {
			scope = dr.Max() - currentOffset
		}
		scoped, err := dr.Scope(scope)
		if err != nil {
			return err
		}
		if err := dryCheckFn(scoped); err != nil {
			return err
		}
		dr.UpdateIndexFromScoped(scoped)
	}
	if i, m := dr.Index(), dr.Max(); i != m {
		return fmt.Errorf("expected to finish reading the scope to max %d, got to %d", i, m)
	}
	return nil
}
""","""	return eachVarElem(offsets, dr, func(_ int, scoped *DecodingReader) error {
		return dryCheckFn(scoped)
	})
}

// eachVarElem calls handle with the scope of each element.
func eachVarElem(offsets []uint64, dr *DecodingReader, handle func(i int, scoped *DecodingReader) error) error {
	for i := range offsets {
		scope, err := elemScope(offsets, i, dr)
		if err != nil {
			return err
		}
		scoped, err := dr.Scope(scope)
		if err != nil {
			return err
		}
		if err := handle(i, scoped); err != nil {
			return err
		}
		dr.UpdateIndexFromScoped(scoped)
	}
	if i, m := dr.Index(), dr.Max(); i != m {
		return fmt.Errorf("expected to finish reading the scope to max %d, got to %d", i, m)
	}
	return nil
}

// elemScope is the space of the i-th element, based on next offset, and max. value of this scope for the last value
func elemScope(offsets []uint64, i int, dr *DecodingReader) (uint64, error) {
	current := dr.Index()
	if expected := offsets[i]; current != expected {
		return 0, fmt.Errorf("expected to read to data %d bytes, got to %d", expected, current)
	}
	if i == len(offsets)-1 {
		return dr.Max() - current, nil
	}
	next := offsets[i+1]
	if next < current {
		return 0, fmt.Errorf("offset %d is invalid", i)
	}
	return next - current, nil
}
"""),(EV,"""	memOffset := uintptr(0)
	for i := 0; i < len(offsets); i++ {
		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)
		memOffset += elemMemSize
		currentOffset := dr.Index()
		if currentOffset != offsets[i] {
			return fmt.Errorf("expected to read to data %d bytes, got to %d", offsets[i], currentOffset)
		}
		// calculate the scope based on next offset, and max. value of this scope for the last value
		var scope uint64
		if next := i + 1; next < len(offsets) {
			if nextOffset := offsets[next]; nextOffset >= currentOffset {
				scope = nextOffset - currentOffset
			} else {
				return fmt.Errorf("offset %d is invalid", i)
			}
		} else {
			scope = dr.Max() - currentOffset
		}
		scoped, err := dr.Scope(scope)
		if err != nil {
			return err
		}
		if err := decFn(scoped, elemPtr); err != nil {
			return err
		}
		dr.UpdateIndexFromScoped(scoped)
	}
	if i, m := dr.Index(), dr.Max(); i != m {
		return fmt.Errorf("expected to finish reading the scope to max %d, got to %d", i, m)
	}
	return nil
}
""","""	return eachVarElem(offsets, dr, func(i int, scoped *DecodingReader) error {
		return decFn(scoped, unsafe.Pointer(uintptr(p)+elemMemSize*uintptr(i)))
	})
}
""")]),
("var-fuzz",[(EV,"""	memOffset := uintptr(0)
	elemFuzzReqLen := elem.FuzzMinLen()
	lengthLeftOver := length * elemFuzzReqLen

	for i := uint64(0); i < length; i++ {
		lengthLeftOver -= elemFuzzReqLen
		span := dr.GetBytesSpan()
""","""	memOffset := uintptr(0)
	elemFuzzReqLen := elem.FuzzMinLen()

	for i := uint64(0); i < length; i++ {
		lengthLeftOver := (length - 1 - i) * elemFuzzReqLen
		span := dr.GetBytesSpan()
""")]),
("var-enc",[(EV,"""		if offset, err := eb.WriteOffset(prevOffset, prevSize); err != nil {
			return err
		} else {
			prevOffset = offset
		}

		prevSize = sizeFn(elemPtr)
	}
""","""		offset, err := eb.WriteOffset(prevOffset, prevSize)
		if err != nil {
			return err
		}
		prevOffset, prevSize = offset, sizeFn(elemPtr)
	}
"""),(EV,"""	memOffset = uintptr(0)
	for i := uint64(0); i < length; i++ {
		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)
		memOffset += elemMemSize

		if err := encFn(eb, elemPtr); err != nil {
			return err
		}
	}
	return nil
}
""","""	return EncodeFixedSeries(encFn, length, elemMemSize, eb, p)
}
""")]),
("bitlist-split",[(BL,"""	var byteLen uint64
	if dr.IsFuzzMode() {
		x, err := dr.ReadUint64()
		if err != nil {
			return err
		}
		// get span to fill with available space
		span := dr.GetBytesSpan() - 1
		// respect type limit
		if span > v.byteLimit {
			span = v.byteLimit
		}
		if span != 0 {
			byteLen = x % span
		}
		// completely empty bitlists are invalid. Need a leading 1 bit.
		byteLen += 1
	} else {
		byteLen = dr.GetBytesSpan()
		// check before allocating any space
		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
			return err
		}
	}
	ptrutil.BytesAllocFn(p, byteLen)
	data := *(*[]byte)(p)
	if _, err := dr.Read(data); err != nil {
		return err
	}
	if dr.IsFuzzMode() {
		// mask last byte to stay within bit-limit
		if bitsLeft := v.bitLimit - ((byteLen - 1) << 3); bitsLeft < 7 {
			data[len(data)-1] &= (byte(2) << bitsLeft) - 1
		}
		if data[len(data)-1] == 0 {
			// last byte must not be 0 for bitlist to be valid
			data[len(data)-1] = 1
		}
	}
	// check if the data is a valid bitvector value (0 bits for unused bits)
	return bitfields.BitlistCheck(data, v.bitLimit)
}
""","""	if dr.IsFuzzMode() {
		return v.decodeFuzzMode(dr, p)
	}
	byteLen := dr.GetBytesSpan()
	// check before allocating any space
	if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
		return err
	}
	data, err := readNewBytes(dr, p, byteLen)
	if err != nil {
		return err
	}
	// check if the data is a valid bitvector value (0 bits for unused bits)
	return bitfields.BitlistCheck(data, v.bitLimit)
}

// readNewBytes binds length new bytes to the slice at p, and fills them
func readNewBytes(dr *DecodingReader, p unsafe.Pointer, length uint64) ([]byte, error) {
	ptrutil.BytesAllocFn(p, length)
	data := *(*[]byte)(p)
	_, err := dr.Read(data)
	return data, err
}

func (v *SSZBitlist) decodeFuzzMode(dr *DecodingReader, p unsafe.Pointer) error {
	x, err := dr.ReadUint64()
	if err != nil {
		return err
	}
	// get span to fill with available space
	span := dr.GetBytesSpan() - 1
	// respect type limit
	if v.byteLimit < span {
		span = v.byteLimit
	}
	// completely empty bitlists are invalid. Need a leading 1 bit.
	byteLen := uint64(1)
	if span > 0 {
		byteLen += x % span
	}
	data, err := readNewBytes(dr, p, byteLen)
	if err != nil {
		return err
	}
	last := &data[byteLen-1]
	// mask last byte to stay within bit-limit
	if bitsLeft := v.bitLimit - (byteLen-1)*8; bitsLeft <= 6 {
		*last &= byte(1)<<(bitsLeft+1) - 1
	}
	if *last == 0 {
		// last byte must not be 0 for bitlist to be valid
		*last |= 1
	}
	return bitfields.BitlistCheck(data, v.bitLimit)
}
"""),(BL,"""	span := dr.GetBytesSpan()
	if err := bitfields.BitlistCheckByteLen(span, v.bitLimit); err != nil {
		return err
	}
	// 0 span is already checked by BitlistCheckByteLen
	if _, err := dr.Skip(span - 1); err != nil {
		return err
	}
	last, err := dr.ReadByte()
	if err != nil {
		return err
	}
	return bitfields.BitlistCheckLastByte(last, v.bitLimit-((span-1)<<3))
""","""	span := dr.GetBytesSpan()
	if err := bitfields.BitlistCheckByteLen(span, v.bitLimit); err != nil {
		return err
	}
	// 0 span is already checked by BitlistCheckByteLen
	full := span - 1
	if _, err := dr.Skip(full); err != nil {
		return err
	}
	last, err := dr.ReadByte()
	if err == nil {
		err = bitfields.BitlistCheckLastByte(last, v.bitLimit-full*8)
	}
	return err
""")]),
("bitlist-htr",[(BL,"""	leaf := func(i uint64) []byte {
		s := i << 5
		e := (i + 1) << 5
		// pad the data
		if e >= byteLen {
			x := [32]byte{}
			copy(x[:], data[s:byteLen])
			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
				// find the index of the length-determining 1 bit (bitlist length == index of this bit)
				delimitByteIndex := (byteLen - 1) & 31
				mask := ^(byte(1) << bitfields.BitIndex(x[delimitByteIndex]))
				// zero out the length bit.
				x[delimitByteIndex] &= mask
			}
			return x[:]
		}
		// the length-determining bitlist bit is in the last leaf, or already cut off,
		// i.e. as sole bit in next (ignored) chunk of data.
		return data[s:e]
	}
""","""	leaf := func(i uint64) []byte {
		start, end := i*32, (i+1)*32
		// the length-determining bitlist bit is in the last leaf, or already cut off,
		// i.e. as sole bit in next (ignored) chunk of data.
		if end < byteLen {
			return data[start:end]
		}
		// pad the data
		var x [32]byte
		n := copy(x[:], data[start:byteLen])
		if bitLen%8 != 0 && n > 0 { // if we not already cut off the delimiting bit with a bytes boundary
			// zero out the length bit: 1 at the index of the bit after the last
			x[n-1] &^= 1 << (bitLen % 8)
		}
		return x[:]
	}
""")]),
("ptr",[(PT,"""	if *(*uintptr)(p) == uintptr(0) {
		contentsPtr := v.alloc(p)
		return v.elemSSZ.Decode(dr, contentsPtr)
	} else {
		return v.elemSSZ.Decode(dr, unsafe.Pointer(*(*uintptr)(p)))
	}
""","""	contentsPtr := *(*unsafe.Pointer)(p)
	if contentsPtr == nil {
		contentsPtr = v.alloc(p)
	}
	return v.elemSSZ.Decode(dr, contentsPtr)
"""),(PT,"""	innerPtr := unsafe.Pointer(*(*uintptr)(p))
	return v.elemSSZ.SizeOf(innerPtr)
""","""	return v.elemSSZ.SizeOf(v.inner(p))
"""),(PT,"""	innerPtr := unsafe.Pointer(*(*uintptr)(p))
	return v.elemSSZ.HashTreeRoot(h, innerPtr)
}
""","""	return v.elemSSZ.HashTreeRoot(h, v.inner(p))
}

func (v *SSZPtr) inner(p unsafe.Pointer) unsafe.Pointer {
	return *(*unsafe.Pointer)(p)
}
""")]),
("lb-elemlen",[(LB,"""	span := dr.GetBytesSpan()
	if span > v.byteLimit {
		span = v.byteLimit
	}
	bytesLen := uint64(0)
	if span != 0 {
		bytesLen = x % span
	}
	bytesLen -= bytesLen % v.elemSSZ.FixedLen()
""","""	elemLen := v.elemSSZ.FixedLen()
	span := dr.GetBytesSpan()
	if span > v.byteLimit {
		span = v.byteLimit
	}
	length := uint64(0)
	if span != 0 {
		length = (x % span) / elemLen
	}
	bytesLen := length * elemLen
"""),(LB,"""		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
		bytesLimit := v.limit * v.elemSSZ.FixedLen()
		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
""","""		contentsPtr := v.alloc.MutateLenOrAllocNew(p, length)
		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
""")]),
("bs-bools",[(BS,"""		if dr.IsFuzzMode() {
			// just make it correct where necessary
			for i := 0; i < len(data); i++ {
				if data[i] > 1 {
					data[i] = 1
				}
			}
		} else {
			for i := 0; i < len(data); i++ {
				if data[i] > 1 {
					return fmt.Errorf("byte %d in bool list is not a valid bool value: %d", i, data[i])
				}
			}
		}
	}
	return nil
}
""","""		if !dr.IsFuzzMode() {
			return checkBools(data)
		}
		// just make it correct where necessary
		for i, b := range data {
			if b > 1 {
				data[i] = 1
			}
		}
	}
	return nil
}

func checkBools(data []byte) error {
	for i, b := range data {
		switch b {
		case 0, 1:
		default:
			return fmt.Errorf("byte %d in bool list is not a valid bool value: %d", i, b)
		}
	}
	return nil
}
"""),(BS,"""	x := 0
	for i := uint8(0); i < 32; i += elemSize {
		for j := elemSize - 1; j >= 1; j-- {
			out[x] = data[i|j]
			x++
		}
		out[x] = data[i]
		x++
	}
	return
""","""	size := int(elemSize)
	for i := 0; i < 32; i += size {
		for j := 0; j < size; j++ {
			out[i+j] = data[i+size-1-j]
		}
	}
	return
""")]),
("dec-fill",[(DE,"""	_, err := dr.Read(dr.scratch[0:2])
	return binary.LittleEndian.Uint16(dr.scratch[0:2]), err
}
""","""	data, err := dr.fill(2)
	return binary.LittleEndian.Uint16(data), err
}

// fill reads the first n bytes of the scratchpad
func (dr *DecodingReader) fill(n int) ([]byte, error) {
	data := dr.scratch[:n]
	_, err := dr.Read(data)
	return data, err
}
"""),(DE,"""	_, err := dr.Read(dr.scratch[0:4])
	return binary.LittleEndian.Uint32(dr.scratch[0:4]), err
""","""	data, err := dr.fill(4)
	return binary.LittleEndian.Uint32(data), err
"""),(DE,"""	_, err := dr.Read(dr.scratch[0:8])
	return binary.LittleEndian.Uint64(dr.scratch[0:8]), err
""","""	data, err := dr.fill(8)
	if err != nil {
		return 0, err
	}
	return binary.LittleEndian.Uint64(data), nil
"""),(DE,"""	if n, err := dr.checkedIndexUpdate(uint64(len(p))); err != nil {
		return n, err
	}
	// accepts""","""	want := uint64(len(p))
	if want > dr.max-dr.i {
		return 0, fmt.Errorf("cannot read %d bytes, %d beyond scope", want, want-(dr.max-dr.i))
	}
	dr.i += want
	// accepts""")]),
("zssz-scoped",[(Z,"""	unscoped := NewDecodingReader(r)
	dr, err := unscoped.Scope(bytesLen)
	if err != nil {
		return err
	}
	if err := sszTyp.DryCheck(dr); err != nil {
		return err
	}
	if readCount := dr.Index(); readCount != bytesLen {
		return fmt.Errorf("read total of %d bytes, but expected %d", readCount, bytesLen)
	}
	return nil
}
""","""	return readAll(r, bytesLen, sszTyp.DryCheck)
}

// readAll reads with fn, which has to read exactly bytesLen bytes.
func readAll(r io.Reader, bytesLen uint64, fn func(dr *DecodingReader) error) error {
	dr, err := NewDecodingReader(r).Scope(bytesLen)
	if err != nil {
		return err
	}
	if err = fn(dr); err != nil {
		return err
	}
	if readCount := dr.Index(); readCount != bytesLen {
		return fmt.Errorf("read total of %d bytes, but expected %d", readCount, bytesLen)
	}
	return nil
}
"""),(Z,"""	unscoped := NewDecodingReader(r)
	dr, err := unscoped.Scope(bytesLen)
	if err != nil {
		return err
	}
	p := ptrutil.IfacePtrToPtr(&val)
	if err := sszTyp.Decode(dr, p); err != nil {
		return err
	}
	// make sure the data of the object is kept around up to this point.
	runtime.KeepAlive(&val)
	if readCount := dr.Index(); readCount != bytesLen {
		return fmt.Errorf("read total of %d bytes, but expected %d", readCount, bytesLen)
	}
	return nil
""","""	p := ptrutil.IfacePtrToPtr(&val)
	err := readAll(r, bytesLen, func(dr *DecodingReader) error {
		return sszTyp.Decode(dr, p)
	})
	// make sure the data of the object is kept around up to this point.
	runtime.KeepAlive(&val)
	return err
""")]),
("small",[(BO,"""	if b == 0x00 {
		*(*bool)(p) = false
		return nil
	} else if b == 0x01 {
		*(*bool)(p) = true
		return nil
	} else {
		if dr.IsFuzzMode() {
			// just make a valid random bool
			*(*bool)(p) = b&1 != 0
			return nil
		} else {
			return fmt.Errorf("bool value is invalid")
		}
	}
""","""	if b > 1 {
		if !dr.IsFuzzMode() {
			return fmt.Errorf("bool value is invalid")
		}
		// just make a valid random bool
		b &= 1
	}
	*(*bool)(p) = b == 1
	return nil
"""),(U16,"""	binary.LittleEndian.PutUint16(eb.Scratch[0:2], *(*uint16)(p))
	return eb.Write(eb.Scratch[0:2])
""","""	x := *(*uint16)(p)
	data := eb.Scratch[:2]
	data[0], data[1] = byte(x), byte(x>>8)
	return eb.Write(data)
"""),(U16,"""	v, err := dr.ReadUint16()
	if err != nil {
		return err
	}
	*(*uint16)(p) = v
	return nil
""","""	v, err := dr.ReadUint16()
	if err == nil {
		*(*uint16)(p) = v
	}
	return err
""")]),
]
