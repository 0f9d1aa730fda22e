# other ways to write the same functions
E=[
("enc-write",[("enc/encoder.go","func (ew *EncodingWriter) Write(p []byte) error {\n	n, err := ew.wfn(p)\n	ew.n += n\n	return err\n}","func (ew *EncodingWriter) Write(p []byte) (err error) {\n	var n int\n	defer func() { ew.n += n }()\n	n, err = ew.wfn(p)\n	return\n}")]),
("enc-offset",[("enc/encoder.go","	if prevOffset >= (uint64(1) << 32) {","	if prevOffset>>32 != 0 {"),("enc/encoder.go","	if elemLen >= (uint64(1) << 32) {","	if elemLen > math.MaxUint32 {"),("enc/encoder.go","	if offset >= (uint64(1) << 32) {","	if uint64(uint32(offset)) != offset {"),("enc/encoder.go","	\"io\"\n","	\"io\"\n	\"math\"\n"),
 ("enc/encoder.go","	binary.LittleEndian.PutUint32(ew.Scratch[0:4], uint32(offset))\n	err = ew.Write(ew.Scratch[0:4])\n	return\n","	buf := ew.Scratch[:4]\n	binary.LittleEndian.PutUint32(buf, uint32(offset))\n	return offset, ew.Write(buf)\n")]),
("dec-index",[("dec/decoder.go","	if span := dr.GetBytesSpan(); x > span {\n		return 0, fmt.Errorf(\"cannot read %d bytes, %d beyond scope\", x, x-span)\n	}\n	dr.i += x\n	return int(x), nil","	span := dr.GetBytesSpan()\n	if x <= span {\n		dr.i += x\n		return int(x), nil\n	}\n	return 0, fmt.Errorf(\"cannot read %d bytes, %d beyond scope\", x, x-span)")]),
("dec-read",[("dec/decoder.go","	_, err := dr.Read(dr.scratch[0:4])\n	return binary.LittleEndian.Uint32(dr.scratch[0:4]), err","	b := dr.scratch[0:4]\n	if _, err := dr.Read(b); err != nil {\n		return 0, err\n	}\n	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, nil"),
 ("dec/decoder.go","	return dr.scratch[0], err","	if err != nil {\n		return 0, err\n	}\n	return dr.scratch[0], nil"),
 ("dec/decoder.go","	v, err := dr.ReadUint32()\n	return uint64(v), err","	v, err := dr.ReadUint32()\n	if err != nil {\n		return 0, err\n	}\n	return uint64(v), nil")]),
("bits-zero",[("bitfields/bitfield.go","		for i := 0; i < end; i++ {\n			if b[i] != 0 {\n				return false\n			}\n		}\n","		i := 0\n		for ; i+8 <= end; i += 8 {\n			if b[i]|b[i+1]|b[i+2]|b[i+3]|b[i+4]|b[i+5]|b[i+6]|b[i+7] != 0 {\n				return false\n			}\n		}\n		for ; i < end; i++ {\n			if b[i] != 0 {\n				return false\n			}\n		}\n"),
 ("bitfields/bitfield.go","	// now check the last bit, but ignore the delimiter 1 bit.\n	last ^= byte(1) << BitIndex(last)\n	return last == 0","	// only the delimiter bit may be set\n	return last&(last-1) == 0")]),
("bits-index",[("bitfields/bitfield.go","	if v&0xf0 != 0 { // 11110000\n		out |= 4\n		v >>= 4\n	}\n	if v&0x0c != 0 { // 00001100\n		out |= 2\n		v >>= 2\n	}\n	if v&0x02 != 0 { // 00000010\n		out |= 1\n		v >>= 1\n	}\n	return","	if v == 0 {\n		return 0\n	}\n	return uint64(bits.Len8(v)) - 1"),("bitfields/bitfield.go","package bitfields\n","package bitfields\n\nimport \"math/bits\"\n")]),
("bits-last",[("bitfields/bitlist.go","	if last == 0 {\n		return errors.New(\"bitlist is invalid, trailing 0 byte\")\n	}\n	if BitIndex(last) > limit {\n		return errors.New(\"bitlist is invalid, too many bits\")\n	}\n	return nil","	var err error\n	if last == 0 {\n		err = errors.New(\"bitlist is invalid, trailing 0 byte\")\n	} else if BitIndex(last) > limit {\n		err = errors.New(\"bitlist is invalid, too many bits\")\n	}\n	return err"),
 ("bitfields/bitlist.go","byteLimitWithDelimiter := (bitLimit >> 3) + 1; byteLen > byteLimitWithDelimiter {","byteLimitWithDelimiter := bitLimit/8 + 1; byteLimitWithDelimiter < byteLen {"),
 ("bitfields/bitvector.go","	if byteLen == 0 {\n		// empty bitvector\n		return nil\n	}\n	last := b[byteLen-1]\n	return BitvectorCheckLastByte(last, n)","	if byteLen != 0 {\n		return BitvectorCheckLastByte(b[byteLen-1], n)\n	}\n	return nil"),
 ("bitfields/bitvector.go","	if expected := (bitLength + 7) >> 3; byteLen != expected {","	expected := bitLength / 8\n	if bitLength%8 != 0 {\n		expected++\n	}\n	if byteLen != expected {")]),
("series-leaf",[("types/basic_series.go","	leaf := func(i uint64) []byte {\n		s := i << 5\n		e := (i + 1) << 5\n		// pad the data\n		if e > bytesLen {\n			d := [32]byte{}\n			copy(d[:], data[s:bytesLen])\n			return d[:]\n		}\n		return data[s:e]\n	}","	var last [32]byte\n	leaf := func(i uint64) []byte {\n		chunk := data[i<<5:]\n		if len(chunk) >= 32 {\n			return chunk[:32]\n		}\n		// pad the data\n		copy(last[:], chunk)\n		return last[:]\n	}"),
 ("types/basic_series.go","	leafCount := (bytesLen + 31) >> 5\n	leafLimit := (bytesLimit + 31) >> 5\n	return merkle","	leafCount, leafLimit := (bytesLen+31)/32, (bytesLimit+31)/32\n	return merkle")]),
("be-chunk",[("types/basic_series.go","		for j := elemSize - 1; j >= 1; j-- {\n			out[x] = data[i|j]\n			x++\n		}\n		out[x] = data[i]\n		x++\n","		for j := elemSize; j > 0; j-- {\n			out[x] = data[i+j-1]\n			x++\n		}\n")]),
("bool-loop",[("types/basic_series.go","				if data[i] > 1 {\n					data[i] = 1\n				}","				if data[i] <= 1 {\n					continue\n				}\n				data[i] = 1")]),
("fixed-series",[("types/elem_fixed_size_series.go","	memOffset := uintptr(0)\n	for i := uint64(0); i < length; i++ {\n		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)\n		memOffset += elemMemSize\n		if err := decFn(dr, elemPtr); err != nil {\n			return err\n		}\n	}\n	return nil","	for i, memOffset := uint64(0), uintptr(0); i < length; i, memOffset = i+1, memOffset+elemMemSize {\n		if err := decFn(dr, unsafe.Pointer(uintptr(p)+memOffset)); err != nil {\n			return err\n		}\n	}\n	return nil"),
 ("types/elem_fixed_size_series.go","	for i := uint64(0); i < length; i++ {\n		if err := dryCheckFn(dr); err != nil {\n			return err\n		}\n	}\n	return nil","	for length > 0 {\n		if err := dryCheckFn(dr); err != nil {\n			return err\n		}\n		length--\n	}\n	return nil"),
 ("types/elem_fixed_size_series.go","	memOffset := uintptr(0)\n	for i := uint64(0); i < length; i++ {\n		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)\n		memOffset += elemMemSize\n		if err := encFn(eb, elemPtr); err != nil {\n			return err\n		}\n	}\n	return nil","	var err error\n	for i := uint64(0); i < length && err == nil; i++ {\n		err = encFn(eb, p)\n		p = unsafe.Pointer(uintptr(p) + elemMemSize)\n	}\n	return err")]),
("var-enc",[("types/elem_var_size_series.go","	// first, write all the offsets\n	memOffset := uintptr(0)\n	for i := uint64(0); i < length; i++ {\n		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)\n		memOffset += elemMemSize\n\n		if offset, err := eb.WriteOffset(prevOffset, prevSize); err != nil {\n			return err\n		} else {\n			prevOffset = offset\n		}\n\n		prevSize = sizeFn(elemPtr)\n	}\n\n	// write all the data contents referenced by the offsets.\n	memOffset = uintptr(0)\n	for i := uint64(0); i < length; i++ {\n		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)\n		memOffset += elemMemSize\n\n		if err := encFn(eb, elemPtr); err != nil {\n			return err\n		}\n	}\n	return nil\n","	elemAt := func(i uint64) unsafe.Pointer {\n		return unsafe.Pointer(uintptr(p) + uintptr(i)*elemMemSize)\n	}\n	// first, write all the offsets\n	for i := uint64(0); i < length; i++ {\n		offset, err := eb.WriteOffset(prevOffset, prevSize)\n		if err != nil {\n			return err\n		}\n		prevOffset = offset\n		prevSize = sizeFn(elemAt(i))\n	}\n\n	// write all the data contents referenced by the offsets.\n	return EncodeFixedSeries(encFn, length, elemMemSize, eb, p)\n")]),
("var-offsets",[("types/elem_var_size_series.go","	offsets := make([]uint64, 0, length)\n\n	// add the first offset used in the length check\n	offsets = append(offsets, firstOffset)\n\n	// add the remaining offsets\n	for i := uint64(1); i < length; i++ {\n		offset, err := dr.ReadOffset()\n		if err != nil {\n			return nil, err\n		}\n		offsets = append(offsets, offset)\n	}\n	return offsets, nil","	return readOffsets(firstOffset, length, dr)"),
 ("types/elem_var_size_series.go","	offsets := make([]uint64, 0, length)\n\n	// add the first offset used in the length check\n	offsets = append(offsets, firstOffset)\n\n	// add the remaining offsets\n	for i := uint64(1); i < length; i++ {\n		offset, err := dr.ReadOffset()\n		if err != nil {\n			return nil, err\n		}\n		offsets = append(offsets, offset)\n	}\n","	offsets, err := readOffsets(firstOffset, length, dr)\n	if err != nil {\n		return nil, err\n	}\n"),
 ("types/elem_var_size_series.go","func ReadVarSeriesOffsets(","func readOffsets(first uint64, length uint64, dr *DecodingReader) ([]uint64, error) {\n	offsets := append(make([]uint64, 0, length), first)\n	// add the remaining offsets\n	for i := uint64(1); i < length; i++ {\n		offset, err := dr.ReadOffset()\n		if err != nil {\n			return nil, err\n		}\n		offsets = append(offsets, offset)\n	}\n	return offsets, nil\n}\n\nfunc ReadVarSeriesOffsets(")]),
("var-dec",[("types/elem_var_size_series.go","	memOffset := uintptr(0)\n	for i := 0; i < len(offsets); i++ {\n		elemPtr := unsafe.Pointer(uintptr(p) + memOffset)\n		memOffset += elemMemSize\n		currentOffset := dr.Index()\n		if currentOffset != offsets[i] {\n			return fmt.Errorf(\"expected to read to data %d bytes, got to %d\", offsets[i], currentOffset)\n		}","	for i, expected := range offsets {\n		elemPtr := unsafe.Pointer(uintptr(p) + uintptr(i)*elemMemSize)\n		currentOffset := dr.Index()\n		if currentOffset != expected {\n			return fmt.Errorf(\"expected to read to data %d bytes, got to %d\", expected, currentOffset)\n		}"),
 ("types/elem_var_size_series.go","	if i, m := dr.Index(), dr.Max(); i != m {\n		return fmt.Errorf(\"expected to finish reading the scope to max %d, got to %d\", i, m)\n	}\n	return nil\n}\n\nfunc DryCheckVarSeries","	return checkEnd(dr)\n}\n\nfunc checkEnd(dr *DecodingReader) error {\n	i, m := dr.Index(), dr.Max()\n	if i == m {\n		return nil\n	}\n	return fmt.Errorf(\"expected to finish reading the scope to max %d, got to %d\", i, m)\n}\n\nfunc DryCheckVarSeries"),
 ("types/elem_var_size_series.go","	if i, m := dr.Index(), dr.Max(); i != m {\n		return fmt.Errorf(\"expected to finish reading the scope to max %d, got to %d\", i, m)\n	}\n	return nil\n}","	return checkEnd(dr)\n}")]),
("var-fuzz",[("types/elem_var_size_series.go","	lengthLeftOver := length * elemFuzzReqLen\n\n	for i := uint64(0); i < length; i++ {\n		lengthLeftOver -= elemFuzzReqLen\n		span := dr.GetBytesSpan()\n","	for i := uint64(0); i < length; i++ {\n		lengthLeftOver := (length - 1 - i) * elemFuzzReqLen\n		span := dr.GetBytesSpan()\n")]),
("container-fixed",[("types/ssz_container.go","		if f.ssz.IsFixed() {\n			fixedI += f.ssz.FixedLen()\n			// No need to redefine the scope for fixed-length SSZ objects.\n			if err := fieldHandler(f); err != nil {\n				return nil, err\n			}\n		} else {\n			fixedI += BYTES_PER_LENGTH_OFFSET\n			// write an offset to the fixed data, to find the dynamic data with as a reader\n			offset, err := dr.ReadOffset()\n			if err != nil {\n				return nil, err\n			}\n			offsets = append(offsets, offset)\n		}","		if !f.isFixed {\n			fixedI += BYTES_PER_LENGTH_OFFSET\n			// write an offset to the fixed data, to find the dynamic data with as a reader\n			if offset, err := dr.ReadOffset(); err != nil {\n				return nil, err\n			} else {\n				offsets = append(offsets, offset)\n			}\n		} else {\n			// No need to redefine the scope for fixed-length SSZ objects.\n			if err := fieldHandler(f); err != nil {\n				return nil, err\n			}\n			fixedI += f.ssz.FixedLen()\n		}"),
 ("types/ssz_container.go","	startIndex := dr.Index()\n	fixedI := dr.Index()\n","	startIndex := dr.Index()\n	fixedI := startIndex\n"),
 ("types/ssz_container.go","	offsets := make([]uint64, 0, v.offsetCount)\n","	var offsets []uint64\n")]),
("container-dyn",[("types/ssz_container.go","	i := 0\n	for fi := range v.Fields {\n		f := &v.Fields[fi]\n		// ignore fixed-size fields\n		if f.ssz.IsFixed() {\n			continue\n		}\n","	i := -1\n	for fi := range v.Fields {\n		f := &v.Fields[fi]\n		// ignore fixed-size fields\n		if f.isFixed {\n			continue\n		}\n		i++\n"),("types/ssz_container.go","		// go to next offset\n		i++\n","")]),
("container-size",[("types/ssz_container.go","	out := v.fixedLen\n	for _, f := range v.Fields {\n		if !f.ssz.IsFixed() {\n			out += f.ssz.SizeOf(f.ptrFn(p))\n		}\n	}\n	return out","	if v.isFixedLen {\n		return v.fixedLen\n	}\n	out := v.fixedLen\n	for i := range v.Fields {\n		f := &v.Fields[i]\n		if f.isFixed {\n			continue\n		}\n		out += f.ssz.SizeOf(f.ptrFn(p))\n	}\n	return out")]),
("container-new",[("types/ssz_container.go","			res.fixedLen += fixed\n			res.minLen += fixed\n			res.maxLen += fixed\n		} else {\n			res.fixedLen += BYTES_PER_LENGTH_OFFSET\n			res.minLen += BYTES_PER_LENGTH_OFFSET + field.ssz.MinLen()\n			res.maxLen += BYTES_PER_LENGTH_OFFSET + field.ssz.MaxLen()\n			res.offsetCount++\n		}\n","			res.addLen(fixed, fixed, fixed)\n		} else {\n			res.addLen(BYTES_PER_LENGTH_OFFSET, BYTES_PER_LENGTH_OFFSET+field.ssz.MinLen(), BYTES_PER_LENGTH_OFFSET+field.ssz.MaxLen())\n			res.offsetCount++\n		}\n"),
 ("types/ssz_container.go","func (v *SSZContainer) FuzzMinLen()","func (v *SSZContainer) addLen(fixed, min, max uint64) {\n	v.fixedLen += fixed\n	v.minLen += min\n	v.maxLen += max\n}\n\nfunc (v *SSZContainer) FuzzMinLen()")]),
("container-fields",[("types/ssz_container.go","	if f.Anonymous || forceSquash {\n		if squashable, ok := fieldSSZ.(SquashableFields); ok {\n			for _, sq := range squashable.SquashFields() {\n				out = append(out, sq.Wrap(f.Name, f.Offset))\n			}\n			return out, nil\n		}\n		// anonymous fields can be handled as normal fields. Only error when it was tagged to be squashed.\n		if forceSquash {\n			return nil, fmt.Errorf(\"could not squash field %s\", f.Name)\n		}\n	}\n","	squashable, ok := fieldSSZ.(SquashableFields)\n	if ok && (forceSquash || f.Anonymous) {\n		inner := squashable.SquashFields()\n		out = make([]ContainerField, 0, len(inner))\n		for i := range inner {\n			out = append(out, inner[i].Wrap(f.Name, f.Offset))\n		}\n		return out, nil\n	}\n	if forceSquash {\n		return nil, fmt.Errorf(\"could not squash field %s\", f.Name)\n	}\n")]),
("list-size",[("types/ssz_list.go","		out := uint64(sh.Len) * BYTES_PER_LENGTH_OFFSET\n		memOffset := uintptr(0)\n		for i := 0; i < sh.Len; i++ {\n			elemPtr := unsafe.Pointer(uintptr(sh.Data) + memOffset)\n			memOffset += v.elemMemSize\n			out += v.elemSSZ.SizeOf(elemPtr)\n		}\n		return out","		out := uint64(0)\n		CallSeries(func(_ uint64, elemPtr unsafe.Pointer) {\n			out += BYTES_PER_LENGTH_OFFSET + v.elemSSZ.SizeOf(elemPtr)\n		}, uint64(sh.Len), v.elemMemSize, sh.Data)\n		return out")]),
("bitlist-htr",[("types/ssz_bitlist.go","	bitLen := bitfields.BitlistLen(data)\n	byteLen := (bitLen + 7) >> 3\n	leafCount := (byteLen + 31) >> 5\n","	bitLen := bitfields.BitlistLen(data)\n	leafCount := (bitLen + 255) >> 8\n	byteLen := (bitLen + 7) / 8\n")]),
("bitlist-dec",[("types/ssz_bitlist.go","		if data[len(data)-1] == 0 {\n			// last byte must not be 0 for bitlist to be valid\n			data[len(data)-1] = 1\n		}\n","		if last := &data[len(data)-1]; *last == 0 {\n			// last byte must not be 0 for bitlist to be valid\n			*last = 1\n		}\n")]),
("bytes-dec",[("types/ssz_bytes.go","	var length uint64\n	if dr.IsFuzzMode() {\n		x, err := dr.ReadUint64()\n		if err != nil {\n			return err\n		}\n		span := dr.GetBytesSpan()\n		if span > v.limit {\n			span = v.limit\n		}\n		if span != 0 {\n			length = x % span\n		}\n	} else {\n		length = dr.GetBytesSpan()\n	}\n	if length > v.limit {","	length, err := v.readLength(dr)\n	if err != nil {\n		return err\n	}\n	if length > v.limit {"),
 ("types/ssz_bytes.go","	_, err := dr.Read(data)\n	return err\n}\n","	_, err = dr.Read(data)\n	return err\n}\n\nfunc (v *SSZBytes) readLength(dr *DecodingReader) (uint64, error) {\n	if !dr.IsFuzzMode() {\n		return dr.GetBytesSpan(), nil\n	}\n	x, err := dr.ReadUint64()\n	if err != nil {\n		return 0, err\n	}\n	span := dr.GetBytesSpan()\n	if span > v.limit {\n		span = v.limit\n	}\n	if span == 0 {\n		return 0, nil\n	}\n	return x % span, nil\n}\n")]),
("alloc",[("util/ptrutil/allocation.go","	if length == 0 {\n		pSh := (*SliceHeader)(p)\n		pSh.Len = 0\n		pSh.Cap = 0\n		pSh.Data = unsafe.Pointer(nil)\n		return pSh.Data\n	}\n","	if length == 0 {\n		*(*SliceHeader)(p) = SliceHeader{}\n		return nil\n	}\n")]),
("factory",[("types/factory.go","			ptrTyp := reflect.PtrTo(typ)\n			if ptrTyp.Implements(bitvectorMeta) {\n				return NewSSZBitvector(typ)\n			} else {\n				return NewSSZBytesN(typ)\n			}\n","			if isBitvector := reflect.PtrTo(typ).Implements(bitvectorMeta); !isBitvector {\n				return NewSSZBytesN(typ)\n			}\n			return NewSSZBitvector(typ)\n")]),
("tags",[("util/tags/read_tag.go","	for tag != \"\" {\n		var next string\n		i := strings.Index(tag, \",\")\n		if i >= 0 {\n			tag, next = tag[:i], tag[i+1:]\n		}\n		if tag == flag {\n			return true\n		}\n		tag = next\n	}\n","	for _, part := range strings.Split(tag, \",\") {\n		if part == flag {\n			return true\n		}\n	}\n")]),
("merkle",[("merkle/merkleize.go","	if limit == 1 {\n		if count == 1 {\n			copy(out[:], leaf(0))\n		}\n		return\n	}\n	depth","	if limit == 1 && count == 0 {\n		return out\n	}\n	if limit == 1 {\n		copy(out[:], leaf(0))\n		return out\n	}\n	depth"),
 ("merkle/merkleize.go","	if (uint64(1) << depth) != count {","	if count <= 1 || count&(count-1) != 0 {")]),
("vector-htr",[("types/ssz_vector.go","	for i := uint64(0); i < v.length; i++ {","	for i := uint64(0); i != v.length; i++ {")]),
]
