E=[
("enc-write",[("enc/encoder.go","	n, err := ew.wfn(p)\n	ew.n += n\n	return err","	written, err := ew.w.Write(p)\n	ew.n = ew.n + written\n	if err != nil {\n		return err\n	}\n	return nil")]),
("enc-offset",[("enc/encoder.go","	if prevOffset >= (uint64(1) << 32) {\n		panic(\"cannot write offset with invalid previous offset\")\n	}\n	if elemLen >= (uint64(1) << 32) {\n		panic(\"cannot write offset with invalid element size\")\n	}\n	offset = prevOffset + elemLen\n	if offset >= (uint64(1) << 32) {\n		panic(\"offset too large, not uint32\")\n	}\n","	mustFit(elemLen, \"cannot write offset with invalid element size\")\n	mustFit(prevOffset, \"cannot write offset with invalid previous offset\")\n	offset = prevOffset + elemLen\n	mustFit(offset, \"offset too large, not uint32\")\n"),
 ("enc/encoder.go","// Writes an offset","func mustFit(v uint64, msg string) {\n	if v > maxOffset {\n		panic(msg)\n	}\n}\n\nconst maxOffset = 1<<32 - 1\n\n// Writes an offset")]),
("dec-read",[("dec/decoder.go","	_, err := dr.Read(dr.scratch[0:2])\n	return binary.LittleEndian.Uint16(dr.scratch[0:2]), err","	b, err := dr.readScratch(2)\n	return binary.LittleEndian.Uint16(b), err"),
 ("dec/decoder.go","	_, err := dr.Read(dr.scratch[0:4])\n	return binary.LittleEndian.Uint32(dr.scratch[0:4]), err","	b, err := dr.readScratch(4)\n	return binary.LittleEndian.Uint32(b), err"),
 ("dec/decoder.go","	_, err := dr.Read(dr.scratch[0:8])\n	return binary.LittleEndian.Uint64(dr.scratch[0:8]), err","	b, err := dr.readScratch(8)\n	if err != nil {\n		return 0, err\n	}\n	return binary.LittleEndian.Uint64(b), nil"),
 ("dec/decoder.go","// returns the remaining span","func (dr *DecodingReader) readScratch(n int) ([]byte, error) {\n	b := dr.scratch[:n]\n	_, err := dr.Read(b)\n	return b, err\n}\n\n// returns the remaining span")]),
("dec-scope",[("dec/decoder.go","	if span := dr.GetBytesSpan(); span < count {\n		return nil, fmt","	if span := dr.max - dr.i; count > span {\n		return nil, fmt"),
 ("dec/decoder.go","	return &DecodingReader{input: io.LimitReader(dr.input, int64(count)), i: 0, max: count}, nil","	limited := io.LimitReader(dr.input, int64(count))\n	sub := NewDecodingReader(limited)\n	sub.max = count\n	return sub, nil")]),
("bits-zero",[("bitfields/bitfield.go","	if end > 0 {\n		// bytes up to the end byte can be checked efficiently. No need for bit-magic.\n		for i := 0; i < end; i++ {\n			if b[i] != 0 {\n				return false\n			}\n		}\n	}\n","	for _, x := range b[:end] {\n		if x != 0 {\n			return false\n		}\n	}\n")]),
("bits-get",[("bitfields/bitfield.go","	return (b[i>>3]>>(i&7))&1 == 1","	mask := byte(1) << (i % 8)\n	return b[i/8]&mask != 0"),
 ("bitfields/bitfield.go","	if bit := byte(1) << (i & 7); v {\n		b[i>>3] |= bit\n	} else {\n		b[i>>3] &^= bit\n	}","	idx, bit := i/8, byte(1)<<(i%8)\n	if !v {\n		b[idx] &^= bit\n		return\n	}\n	b[idx] |= bit")]),
("bits-check",[("bitfields/bitlist.go","	last := b[byteLen-1]\n	return BitlistCheckLastByte(last, limit-((byteLen-1)<<3))","	lastIndex := byteLen - 1\n	return BitlistCheckLastByte(b[lastIndex], limit-lastIndex*8)"),
 ("bitfields/bitlist.go","	return ((byteLen - 1) << 3) | BitIndex(last)","	return (byteLen-1)*8 + BitIndex(last)"),
 ("bitfields/bitvector.go","	if n == 0 {\n		return fmt.Errorf(\"empty bitvector can not have a last byte\")\n	}\n	if n&7 == 0 {\n		// n is a multiple of 8, so last byte fits\n		return nil\n	}\n	// check if it is big enough to hold any non-zero contents in the last byte.\n	if expectedBitsLen := n & 7; (last >> expectedBitsLen) != 0 {\n		return fmt.Errorf(\"bitvector last byte 0b%b has not expected %d bits in last byte\", last, expectedBitsLen)\n	}\n	return nil","	switch rem := n % 8; {\n	case n == 0:\n		return fmt.Errorf(\"empty bitvector can not have a last byte\")\n	case rem == 0:\n		return nil\n	case last>>rem != 0:\n		return fmt.Errorf(\"bitvector last byte 0b%b has not expected %d bits in last byte\", last, rem)\n	default:\n		return nil\n	}")]),
("series-leaf",[("types/basic_series.go","	leaf := func(i uint64) []byte {\n		s := i << 5\n		e := (i + 1) << 5\n		// pad the data\n		if e > bytesLen {\n			d := [32]byte{}\n			copy(d[:], data[s:bytesLen])\n			return d[:]\n		}\n		return data[s:e]\n	}\n	leafCount := (bytesLen + 31) >> 5\n	leafLimit := (bytesLimit + 31) >> 5\n	return merkle.Merkleize(h, leafCount, leafLimit, leaf)","	return merkle.Merkleize(h, chunkCount(bytesLen), chunkCount(bytesLimit), func(i uint64) []byte {\n		return chunkAt(data, bytesLen, i)\n	})"),
 ("types/basic_series.go","func BigToLittle","func chunkCount(n uint64) uint64 {\n	return (n + 31) / 32\n}\n\nfunc chunkAt(data []byte, n uint64, i uint64) []byte {\n	start := i * 32\n	end := start + 32\n	if end <= n {\n		return data[start:end]\n	}\n	// pad the data\n	var d [32]byte\n	copy(d[:], data[start:n])\n	return d[:]\n}\n\nfunc BigToLittle"),
 ("types/ssz_bytes.go","	leafCount := (dataLen + 31) >> 5\n	leafLimit := (v.limit + 31) >> 5\n	leaf := func(i uint64) []byte {\n		s := i << 5\n		e := (i + 1) << 5\n		// pad the data\n		if e > dataLen {\n			x := [32]byte{}\n			copy(x[:], data[s:dataLen])\n			return x[:]\n		}\n		return data[s:e]\n	}\n	return h.MixIn(merkle.Merkleize(h, leafCount, leafLimit, leaf), dataLen)","	leaf := func(i uint64) []byte { return chunkAt(data, dataLen, i) }\n	root := merkle.Merkleize(h, chunkCount(dataLen), chunkCount(v.limit), leaf)\n	return h.MixIn(root, dataLen)"),
 ("types/ssz_bitvector.go","	leafCount := (v.byteLen + 31) >> 5\n	leaf := func(i uint64) []byte {\n		s := i << 5\n		e := (i + 1) << 5\n		// pad the data\n		if e > v.byteLen {\n			x := [32]byte{}\n			copy(x[:], data[s:v.byteLen])\n			return x[:]\n		}\n		return data[s:e]\n	}\n","	leafCount := chunkCount(v.byteLen)\n	leaf := func(i uint64) []byte {\n		return chunkAt(data, v.byteLen, i)\n	}\n")]),
("be-chunk",[("types/basic_series.go","	x := 0\n	for i := uint8(0); i < 32; i += elemSize {\n		for j := elemSize - 1; j >= 1; j-- {\n			out[x] = data[i|j]\n			x++\n		}\n		out[x] = data[i]\n		x++\n	}\n	return","	for i := uint8(0); i < 32; i += elemSize {\n		for j := uint8(0); j < elemSize; j++ {\n			out[i+j] = data[i+elemSize-1-j]\n		}\n	}\n	return"),
 ("types/basic_series.go","		d := [32]byte{}\n		if e > bytesLen {\n			copy(d[:], data[s:bytesLen])\n		} else {\n			copy(d[:], data[s:e])\n		}\n		d = BigTo","		if e > bytesLen {\n			e = bytesLen\n		}\n		var d [32]byte\n		copy(d[:], data[s:e])\n		d = BigTo")]),
("bool-loop",[("types/basic_series.go","			for i := 0; i < len(data); i++ {\n				if data[i] > 1 {\n					return fmt.Errorf(\"byte %d in bool list is not a valid bool value: %d\", i, data[i])\n				}\n			}\n","			for i, b := range data {\n				if b > 1 {\n					return fmt.Errorf(\"byte %d in bool list is not a valid bool value: %d\", i, b)\n				}\n			}\n"),
 ("types/basic_series.go","	if isBoolElem {\n		for i := uint64(0); i < bytesLen; i++ {\n			if v, err := dr.ReadByte(); err != nil {\n				return err\n			} else if v > 1 {\n				return fmt.Errorf(\"byte %d in bool list is not a valid bool value: %d\", i, v)\n			}\n		}\n	} else {\n		if _, err := dr.Skip(bytesLen); err != nil {\n			return err\n		}\n	}\n	return nil","	if !isBoolElem {\n		_, err := dr.Skip(bytesLen)\n		return err\n	}\n	for i := uint64(0); i < bytesLen; i++ {\n		v, err := dr.ReadByte()\n		if err != nil {\n			return err\n		}\n		if v > 1 {\n			return fmt.Errorf(\"byte %d in bool list is not a valid bool value: %d\", i, v)\n		}\n	}\n	return nil")]),
("fixed-series",[("types/elem_fixed_size_series.go","	memOffset := uintptr(0)\n	for i := uint64(0); i < length; i++ {\n		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)\n		memOffset += elemMemSize\n		if err := encFn(eb, elemPtr); err != nil {\n			return err\n		}\n	}\n	return nil","	for i := uint64(0); i < length; i++ {\n		elemPtr := unsafe.Pointer(uintptr(p) + uintptr(i)*elemMemSize)\n		if err := encFn(eb, elemPtr); err != nil {\n			return err\n		}\n	}\n	return nil"),
 ("types/elem_fixed_size_series.go","	memOffset := uintptr(0)\n	for i := uint64(0); i < length; i++ {\n		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)\n		memOffset += elemMemSize\n		if err := decFn(dr, elemPtr); err != nil {\n			return err\n		}\n	}\n	return nil","	elemPtr := p\n	for left := length; left > 0; left-- {\n		if err := decFn(dr, elemPtr); err != nil {\n			return err\n		}\n		elemPtr = unsafe.Pointer(uintptr(elemPtr) + elemMemSize)\n	}\n	return nil")]),
("var-scope",[("types/elem_var_size_series.go","		// calculate the scope based on next offset, and max. value of this scope for the last value\n		var scope uint64\n		if next := i + 1; next < len(offsets) {\n			if nextOffset := offsets[next]; nextOffset >= currentOffset {\n				scope = nextOffset - currentOffset\n			} else {\n				return fmt.Errorf(\"offset %d is invalid\", i)\n			}\n		} else {\n			scope = dr.Max() - currentOffset\n		}\n		scoped, err := dr.Scope(scope)\n		if err != nil {\n			return err\n		}\n		if err := dryCheckFn(scoped)","		scoped, err := scopeAt(dr, offsets, i)\n		if err != nil {\n			return err\n		}\n		if err := dryCheckFn(scoped)"),
 ("types/elem_var_size_series.go","		// calculate the scope based on next offset, and max. value of this scope for the last value\n		var scope uint64\n		if next := i + 1; next < len(offsets) {\n			if nextOffset := offsets[next]; nextOffset >= currentOffset {\n				scope = nextOffset - currentOffset\n			} else {\n				return fmt.Errorf(\"offset %d is invalid\", i)\n			}\n		} else {\n			scope = dr.Max() - currentOffset\n		}\n		scoped, err := dr.Scope(scope)\n","		scoped, err := scopeAt(dr, offsets, i)\n"),
 ("types/elem_var_size_series.go","func DryCheckVarSeries(","func scopeAt(dr *DecodingReader, offsets []uint64, i int) (*DecodingReader, error) {\n	start, end := offsets[i], dr.Max()\n	if i != len(offsets)-1 {\n		end = offsets[i+1]\n		if end < start {\n			return nil, fmt.Errorf(\"offset %d is invalid\", i)\n		}\n	}\n	return dr.Scope(end - start)\n}\n\nfunc DryCheckVarSeries(")]),
("container-enc",[("types/ssz_container.go","	// Only iterate over and write dynamic parts if we need to.\n	if !v.isFixedLen {\n		for i := range v.Fields {\n			f := &v.Fields[i]\n			if !f.isFixed {\n				if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {\n					return err\n				}\n			}\n		}\n	}\n	return nil\n}","	for i := range v.Fields {\n		f := &v.Fields[i]\n		if f.isFixed {\n			continue\n		}\n		if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {\n			return err\n		}\n	}\n	return nil\n}"),
 ("types/ssz_container.go","		if f.isFixed {\n			if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {\n				return err\n			}\n		} else {\n			if offset, err := eb.WriteOffset(prevOffset, prevSize); err != nil {\n				return err\n			} else {\n				prevOffset = offset\n			}\n			prevSize = f.ssz.SizeOf(f.ptrFn(p))\n		}","		fieldPtr := f.ptrFn(p)\n		if f.isFixed {\n			if err := f.ssz.Encode(eb, fieldPtr); err != nil {\n				return err\n			}\n			continue\n		}\n		offset, err := eb.WriteOffset(prevOffset, prevSize)\n		if err != nil {\n			return err\n		}\n		prevOffset, prevSize = offset, f.ssz.SizeOf(fieldPtr)")]),
("container-dec",[("types/ssz_container.go","		var scope uint64\n		{\n			currentOffset := offsets[i]\n			if next := i + 1; next < len(offsets) {\n				if nextOffset := offsets[next]; nextOffset >= currentOffset {\n					scope = nextOffset - currentOffset\n				} else {\n					return fmt.Errorf(\"offset %d for field %s is invalid\", i, f.name)\n				}\n			} else {\n				scope = dr.Max() - currentOffset\n			}\n		}\n		{\n			realOffset := dr.Index()\n			if expectedOffset := offsets[i]; expectedOffset != realOffset {\n				return fmt.Errorf(\"expected to be at %d bytes, but currently at %d\", expectedOffset, realOffset)\n			}\n			scoped, err := dr.Scope(scope)\n			if err != nil {\n				return err\n			}\n			if err := fieldHandler(scoped, f); err != nil {\n				return err\n			}\n			dr.UpdateIndexFromScoped(scoped)\n		}\n","		if realOffset := dr.Index(); offsets[i] != realOffset {\n			return fmt.Errorf(\"expected to be at %d bytes, but currently at %d\", offsets[i], realOffset)\n		}\n		scoped, err := scopeAt(dr, offsets, i)\n		if err != nil {\n			return err\n		}\n		if err := fieldHandler(scoped, f); err != nil {\n			return err\n		}\n		dr.UpdateIndexFromScoped(scoped)\n")]),
("container-new",[("types/ssz_container.go","	for _, field := range res.Fields {\n		if field.ssz.IsFixed() {\n			fixed,","	for i := range res.Fields {\n		field := &res.Fields[i]\n		if field.ssz.IsFixed() {\n			fixed,")]),
("container-htr",[("types/ssz_container.go","	leaf := func(i uint64) []byte {\n		f := v.Fields[i]\n		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))\n		return r[:]\n	}\n	leafCount := uint64(len(v.Fields))\n	return merkle.Merkleize(h, leafCount, leafCount, leaf)\n}\n","	return v.rootOf(h, p, uint64(len(v.Fields)))\n}\n\nfunc (v *SSZContainer) rootOf(h MerkleFn, p unsafe.Pointer, leafCount uint64) [32]byte {\n	return merkle.Merkleize(h, leafCount, leafCount, func(i uint64) []byte {\n		f := &v.Fields[i]\n		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))\n		return r[:]\n	})\n}\n"),
 ("types/ssz_container.go","	leaf := func(i uint64) []byte {\n		f := v.Fields[i]\n		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))\n		return r[:]\n	}\n	// truncate last field\n	leafCount := uint64(len(v.Fields))\n	if leafCount != 0 {\n		leafCount--\n	}\n	return merkle.Merkleize(h, leafCount, leafCount, leaf)","	leafCount := uint64(len(v.Fields))\n	if leafCount == 0 {\n		return v.rootOf(h, p, 0)\n	}\n	// truncate last field\n	return v.rootOf(h, p, leafCount-1)")]),
("merkle-pad",[("merkle/merkleize.go","	for j := depth; j < limitDepth; j++ {\n		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])\n	}\n\n	return tmp[limitDepth]\n","	root := tmp[depth]\n	for j := depth; j < limitDepth; j++ {\n		root = hasher.Combi(root, ZeroHashes[j])\n	}\n\n	return root\n")]),
("list-fuzz",[("types/ssz_list.go","	span := dr.GetBytesSpan()\n	if span > v.maxFuzzLen-8 {\n		span = v.maxFuzzLen - 8\n	}\n	length := uint64(0)\n	if span != 0 {\n		length = (x % span) / v.elemSSZ.FuzzMinLen()\n	}\n	if length > v.limit {\n		length = v.limit\n	}\n","	length := v.fuzzLength(x, dr.GetBytesSpan())\n"),
 ("types/ssz_list.go","func (v *SSZList) decodeFuzzmode","func (v *SSZList) fuzzLength(x, span uint64) (length uint64) {\n	if limit := v.maxFuzzLen - 8; limit < span {\n		span = limit\n	}\n	if span == 0 {\n		return 0\n	}\n	length = (x % span) / v.elemSSZ.FuzzMinLen()\n	if length > v.limit {\n		return v.limit\n	}\n	return length\n}\n\nfunc (v *SSZList) decodeFuzzmode")]),
("bitlist-htr",[("types/ssz_bitlist.go","			x := [32]byte{}\n			copy(x[:], data[s:byteLen])\n			if bitLen&7 != 0 && byteLen != 0 {","			var x [32]byte\n			n := copy(x[:], data[s:byteLen])\n			_ = n\n			if byteLen != 0 && bitLen%8 != 0 {"),
 ("types/ssz_bitlist.go","				mask := ^(byte(1) << bitfields.BitIndex(x[delimitByteIndex]))\n				// zero out the length bit.\n				x[delimitByteIndex] &= mask","				// zero out the length bit.\n				x[delimitByteIndex] &^= 1 << bitfields.BitIndex(x[delimitByteIndex])")]),
("bitlist-dry",[("types/ssz_bitlist.go","	// 0 span is already checked by BitlistCheckByteLen\n	if _, err := dr.Skip(span - 1); err != nil {\n		return err\n	}\n	last, err := dr.ReadByte()\n	if err != nil {\n		return err\n	}\n	return bitfields.BitlistCheckLastByte(last, v.bitLimit-((span-1)<<3))","	// 0 span is already checked by BitlistCheckByteLen\n	lead := span - 1\n	if _, err := dr.Skip(lead); err != nil {\n		return err\n	}\n	last, err := dr.ReadByte()\n	if err == nil {\n		err = bitfields.BitlistCheckLastByte(last, v.bitLimit-lead*8)\n	}\n	return err")]),
("zssz-decode",[("zssz.go","	unscoped := NewDecodingReader(r)\n	dr, err := unscoped.Scope(bytesLen)\n	if err != nil {\n		return err\n	}\n	p := ptrutil","	dr, err := NewDecodingReader(r).Scope(bytesLen)\n	if err != nil {\n		return err\n	}\n	p := ptrutil"),
 ("zssz.go","	runtime.KeepAlive(&val)\n	if readCount := dr.Index(); readCount != bytesLen {\n		return fmt.Errorf(\"read total of %d bytes, but expected %d\", readCount, bytesLen)\n	}\n	return nil\n}","	runtime.KeepAlive(&val)\n	return checkRead(dr, bytesLen)\n}\n\nfunc checkRead(dr *DecodingReader, bytesLen uint64) error {\n	readCount := dr.Index()\n	if readCount == bytesLen {\n		return nil\n	}\n	return fmt.Errorf(\"read total of %d bytes, but expected %d\", readCount, bytesLen)\n}"),
 ("zssz.go","	if readCount := dr.Index(); readCount != bytesLen {\n		return fmt.Errorf(\"read total of %d bytes, but expected %d\", readCount, bytesLen)\n	}\n	return nil\n}","	return checkRead(dr, bytesLen)\n}")]),
("ptr",[("types/ssz_ptr.go","	innerPtr := unsafe.Pointer(*(*uintptr)(p))\n	return v.elemSSZ.SizeOf(innerPtr)","	return v.elemSSZ.SizeOf(*(*unsafe.Pointer)(p))")]),
("alloc",[("util/ptrutil/allocation.go","	l := int(length)\n	newData := reflect.MakeSlice(typ, l, l)\n	contentsPtr := unsafe.Pointer(newData.Pointer())\n	pSh := (*SliceHeader)(p)\n	pSh.Len = 0\n	pSh.Data = contentsPtr\n	pSh.Cap = l\n	pSh.Len = l\n","	pSh := (*SliceHeader)(p)\n	l := int(length)\n	newData := reflect.MakeSlice(typ, l, l)\n	contentsPtr := unsafe.Pointer(newData.Pointer())\n	pSh.Len, pSh.Data, pSh.Cap = 0, contentsPtr, l\n	pSh.Len = l\n")]),
("factory",[("types/factory.go","	case reflect.Slice:\n		switch typ.Elem().Kind() {\n		case reflect.Uint8:\n			ptrTyp := reflect.PtrTo(typ)\n			if ptrTyp.Implements(bitlistMeta) {\n				return NewSSZBitlist(typ)\n			} else {\n				return NewSSZBytes(typ)\n			}\n		case reflect.Bool, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n			return NewSSZBasicList(typ)\n		default:\n			return NewSSZList(factory, typ)\n		}\n","	case reflect.Slice:\n		elemKind := typ.Elem().Kind()\n		if elemKind == reflect.Uint8 {\n			if reflect.PtrTo(typ).Implements(bitlistMeta) {\n				return NewSSZBitlist(typ)\n			}\n			return NewSSZBytes(typ)\n		}\n		if elemKind == reflect.Bool || elemKind == reflect.Uint16 || elemKind == reflect.Uint32 || elemKind == reflect.Uint64 {\n			return NewSSZBasicList(typ)\n		}\n		return NewSSZList(factory, typ)\n")]),
]
