CT="types/ssz_container.go"; LI="types/ssz_list.go"; VE="types/ssz_vector.go"; BV="types/ssz_bitvector.go"; FA="types/factory.go"; ME="merkle/merkleize.go"; HT="htr/hash_tree_root.go"; BY="types/ssz_bytes.go"; AL="util/ptrutil/allocation.go"; TG="util/tags/read_tag.go"; LM="types/limit.go"
E=[
("vec-build",[(VE,"""	var fixedElemLen, minElemLen, maxElemLen uint64
	if elemSSZ.IsFixed() {
		fixedElemLen = elemSSZ.FixedLen()
		minElemLen = elemSSZ.MinLen()
		maxElemLen = elemSSZ.MaxLen()
		if fixedElemLen != minElemLen || fixedElemLen != maxElemLen {
			return nil, fmt.Errorf("fixed-size element vector has invalid element min/max length:"+
				" fixed: %d min: %d max: %d ", fixedElemLen, minElemLen, maxElemLen)
		}
	} else {
		fixedElemLen = BYTES_PER_LENGTH_OFFSET
		minElemLen = BYTES_PER_LENGTH_OFFSET + elemSSZ.MinLen()
		maxElemLen = BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen()
	}
	res := &SSZVector{
		length:      length,
		elemMemSize: elemTyp.Size(),
		elemSSZ:     elemSSZ,
		isFixedLen:  elemSSZ.IsFixed(),
		fixedLen:    fixedElemLen * length,
		minLen:      minElemLen * length,
		maxLen:      maxElemLen * length,
		fuzzMinLen:  elemSSZ.FuzzMinLen() * length,
		fuzzMaxLen:  elemSSZ.FuzzMaxLen() * length,
	}
	return res, nil
}
""","""	fixed, min, max, err := elemBounds(elemSSZ)
	if err != nil {
		return nil, err
	}
	res := new(SSZVector)
	res.length = length
	res.elemMemSize = elemTyp.Size()
	res.elemSSZ = elemSSZ
	res.isFixedLen = elemSSZ.IsFixed()
	res.fixedLen = length * fixed
	res.minLen, res.maxLen = length*min, length*max
	res.fuzzMinLen, res.fuzzMaxLen = length*elemSSZ.FuzzMinLen(), length*elemSSZ.FuzzMaxLen()
	return res, nil
}

// elemBounds returns the space an element takes in the fixed part, and in total at least and at most.
func elemBounds(elem SSZ) (fixed, min, max uint64, err error) {
	min, max = elem.MinLen(), elem.MaxLen()
	if !elem.IsFixed() {
		return BYTES_PER_LENGTH_OFFSET, min + BYTES_PER_LENGTH_OFFSET, max + BYTES_PER_LENGTH_OFFSET, nil
	}
	if fixed = elem.FixedLen(); fixed != min || fixed != max {
		err = fmt.Errorf("fixed-size element vector has invalid element min/max length:"+
			" fixed: %d min: %d max: %d ", fixed, min, max)
	}
	return
}
"""),(VE,"""	if v.IsFixed() {
		return v.fixedLen
	} else {
		out := v.fixedLen
		memOffset := uintptr(0)
		for i := uint64(0); i < v.length; i++ {
			elemPtr := unsafe.Pointer(uintptr(p) + memOffset)
			memOffset += v.elemMemSize
			out += v.elemSSZ.SizeOf(elemPtr)
		}
		return out
	}
""","""	out := v.fixedLen
	if v.IsFixed() {
		return out
	}
	CallSeries(func(i uint64, p unsafe.Pointer) {
		out += v.elemSSZ.SizeOf(p)
	}, v.length, v.elemMemSize, p)
	return out
""")]),
("vec-switch",[(VE,"""	if v.IsFixed() {
		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, v.elemMemSize, dr, p)
	} else {
		if dr.IsFuzzMode() {
			return DecodeVarSeriesFuzzMode(v.elemSSZ, v.length, v.elemMemSize, dr, p)
		} else {
			return DecodeVarSeries(v.elemSSZ.Decode, v.length, v.elemMemSize, dr, p)
		}
	}
""","""	switch {
	case v.isFixedLen:
		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, v.elemMemSize, dr, p)
	case dr.IsFuzzMode():
		return DecodeVarSeriesFuzzMode(v.elemSSZ, v.length, v.elemMemSize, dr, p)
	default:
		return DecodeVarSeries(v.elemSSZ.Decode, v.length, v.elemMemSize, dr, p)
	}
"""),(VE,"""	elemHtr := v.elemSSZ.HashTreeRoot
	elemSize := v.elemMemSize
	leaf := func(i uint64) []byte {
		v := elemHtr(h, unsafe.Pointer(uintptr(p)+(elemSize*uintptr(i))))
		return v[:]
	}
	return merkle.Merkleize(h, v.length, v.length, leaf)""","""	return merkle.Merkleize(h, v.length, v.length, func(i uint64) []byte {
		offset := uintptr(i) * v.elemMemSize
		root := v.elemSSZ.HashTreeRoot(h, unsafe.Pointer(uintptr(p)+offset))
		return root[:]
	})"""),(VE,"""		v.elemSSZ.Pretty(indent+1, w, p)
		if i == v.length-1 {
			w.Write("\\n")
		} else {
			w.Write(",\\n")
		}
""","""		v.elemSSZ.Pretty(indent+1, w, p)
		if i+1 < v.length {
			w.Write(",")
		}
		w.Write("\\n")
""")]),
("bitvec",[(BV,"""	sh := ptrutil.GetSliceHeader(p, v.byteLen)
	data := *(*[]byte)(unsafe.Pointer(sh))
	return eb.Write(data)
}
""","""	return eb.Write(v.bytes(p))
}

// bytes is the memory of the bitvector at p
func (v *SSZBitvector) bytes(p unsafe.Pointer) []byte {
	sh := ptrutil.GetSliceHeader(p, v.byteLen)
	return *(*[]byte)(unsafe.Pointer(sh))
}
"""),(BV,"""	sh := ptrutil.GetSliceHeader(p, v.byteLen)
	data := *(*[]byte)(unsafe.Pointer(sh))
	if _, err := dr.Read(data); err != nil {
		return err
	}
	if dr.IsFuzzMode() && v.bitLen&7 != 0 {
		// mask last byte, unused bits must be 0
		data[len(data)-1] &= (byte(1) << (v.bitLen & 7)) - 1
	}
""","""	data := v.bytes(p)
	_, err := dr.Read(data)
	if err != nil {
		return err
	}
	if used := v.bitLen % 8; used != 0 && dr.IsFuzzMode() {
		// mask last byte, unused bits must be 0
		data[v.byteLen-1] &= 0xff >> (8 - used)
	}
"""),(BV,"""	if v.bitLen == 0 {
		return nil
	}
	if v.byteLen > 1 {
		_, err := dr.Skip(v.byteLen - 1)
		if err != nil {
			return err
		}
	}
	last, err := dr.ReadByte()
	if err != nil {
		return err
	}
	return bitfields.BitvectorCheckLastByte(last, v.bitLen)
""","""	if v.byteLen == 0 {
		return nil
	}
	if _, err := dr.Skip(v.byteLen - 1); err != nil {
		return err
	}
	if last, err := dr.ReadByte(); err != nil {
		return err
	} else {
		return bitfields.BitvectorCheckLastByte(last, v.bitLen)
	}
"""),(BV,"""	sh := ptrutil.GetSliceHeader(p, v.byteLen)
	data := *(*[]byte)(unsafe.Pointer(sh))
	leafCount := (v.byteLen + 31) >> 5
	leaf := func(i uint64) []byte {
		s := i << 5
		e := (i + 1) << 5
		// pad the data
		if e > v.byteLen {
			x := [32]byte{}
			copy(x[:], data[s:v.byteLen])
			return x[:]
		}
		return data[s:e]
	}
""","""	data := v.bytes(p)
	leafCount := (v.byteLen + 31) / 32
	leaf := func(i uint64) []byte {
		chunk := data[i*32:]
		if len(chunk) < 32 {
			// pad the data
			var x [32]byte
			copy(x[:], chunk)
			return x[:]
		}
		return chunk[:32]
	}
""")]),
("factory",[(FA,"""			if ptrTyp.Implements(bitvectorMeta) {
				return NewSSZBitvector(typ)
			} else {
				return NewSSZBytesN(typ)
			}
		case reflect.Bool, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return NewSSZBasicVector(typ)
		default:
			return NewSSZVector(factory, typ)
		}
	case reflect.Slice:
		switch typ.Elem().Kind() {
		case reflect.Uint8:
			ptrTyp := reflect.PtrTo(typ)
			if ptrTyp.Implements(bitlistMeta) {
				return NewSSZBitlist(typ)
			} else {
				return NewSSZBytes(typ)
			}
		case reflect.Bool, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return NewSSZBasicList(typ)
		default:
			return NewSSZList(factory, typ)
		}
""","""			if ptrTyp.Implements(bitvectorMeta) {
				return NewSSZBitvector(typ)
			}
			return NewSSZBytesN(typ)
		default:
			if isBasicKind(typ.Elem().Kind()) {
				return NewSSZBasicVector(typ)
			}
			return NewSSZVector(factory, typ)
		}
	case reflect.Slice:
		elem := typ.Elem().Kind()
		if elem == reflect.Uint8 {
			if !reflect.PtrTo(typ).Implements(bitlistMeta) {
				return NewSSZBytes(typ)
			}
			return NewSSZBitlist(typ)
		}
		if isBasicKind(elem) {
			return NewSSZBasicList(typ)
		}
		return NewSSZList(factory, typ)
"""),(FA,"func DefaultSSZFactory(","""// isBasicKind reports whether k is a basic type of more than a byte, or a boolean.
func isBasicKind(k reflect.Kind) bool {
	switch k {
	case reflect.Bool, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

func DefaultSSZFactory("""),(LM,"""	typedNil := reflect.New(ptrTyp).Elem().Interface().(lists.List)
	return typedNil.Limit(), nil
""","""	var typedNil interface{} = reflect.Zero(ptrTyp).Interface()
	list, ok := typedNil.(lists.List)
	if !ok {
		return 0, fmt.Errorf("*typ (pointer type) is not a ssz list")
	}
	return list.Limit(), nil
""")]),
("tags",[(TG,"""	// look through the tag to find a flag (comma separated)
	for tag != "" {
		var next string
		i := strings.Index(tag, ",")
		if i >= 0 {
			tag, next = tag[:i], tag[i+1:]
		}
		if tag == flag {
			return true
		}
		tag = next
	}

	return false
""","""	// look through the tag to find a flag (comma separated)
	for _, part := range strings.Split(tag, ",") {
		if part == flag {
			return true
		}
	}
	return false
""")]),
("ct-build",[(CT,"""	for _, field := range res.Fields {
		if field.ssz.IsFixed() {
			fixed, min, max := field.ssz.FixedLen(), field.ssz.MinLen(), field.ssz.MaxLen()
			if fixed != min || fixed != max {
				return nil, fmt.Errorf("fixed-size field ('%s') in struct has invalid min/max length", field.name)
			}
			res.fixedLen += fixed
			res.minLen += fixed
			res.maxLen += fixed
		} else {
			res.fixedLen += BYTES_PER_LENGTH_OFFSET
			res.minLen += BYTES_PER_LENGTH_OFFSET + field.ssz.MinLen()
			res.maxLen += BYTES_PER_LENGTH_OFFSET + field.ssz.MaxLen()
			res.offsetCount++
		}
		res.fuzzMinLen += field.ssz.FuzzMinLen()
		res.fuzzMaxLen += field.ssz.FuzzMaxLen()
	}
	res.isFixedLen = res.offsetCount == 0
	return res, nil
}
""","""	res.isFixedLen = true
	for i := range res.Fields {
		if err := res.account(&res.Fields[i]); err != nil {
			return nil, err
		}
	}
	return res, nil
}

// account adds the lengths of a field to those of the container.
func (v *SSZContainer) account(field *ContainerField) error {
	min, max, fixed := field.ssz.MinLen(), field.ssz.MaxLen(), uint64(BYTES_PER_LENGTH_OFFSET)
	if field.ssz.IsFixed() {
		fixed = field.ssz.FixedLen()
		if fixed != min || fixed != max {
			return fmt.Errorf("fixed-size field ('%s') in struct has invalid min/max length", field.name)
		}
	} else {
		min += BYTES_PER_LENGTH_OFFSET
		max += BYTES_PER_LENGTH_OFFSET
		v.isFixedLen = false
		v.offsetCount++
	}
	v.fixedLen += fixed
	v.minLen += min
	v.maxLen += max
	v.fuzzMinLen += field.ssz.FuzzMinLen()
	v.fuzzMaxLen += field.ssz.FuzzMaxLen()
	return nil
}
"""),(CT,"""	out := v.fixedLen
	for _, f := range v.Fields {
		if !f.ssz.IsFixed() {
			out += f.ssz.SizeOf(f.ptrFn(p))
		}
	}
	return out
""","""	out := v.fixedLen
	for i := range v.Fields {
		f := &v.Fields[i]
		if f.isFixed {
			continue
		}
		out += f.ssz.SizeOf(f.ptrFn(p))
	}
	return out
"""),(CT,"""	if f.Anonymous || forceSquash {
		if squashable, ok := fieldSSZ.(SquashableFields); ok {
			for _, sq := range squashable.SquashFields() {
				out = append(out, sq.Wrap(f.Name, f.Offset))
			}
			return out, nil
		}
		// anonymous fields can be handled as normal fields. Only error when it was tagged to be squashed.
		if forceSquash {
			return nil, fmt.Errorf("could not squash field %s", f.Name)
		}
	}

	out = append(out, ContainerField{
		ssz: fieldSSZ, pureName: f.Name, name: f.Name,
		ptrFn: GetOffsetPtrFn(f.Offset), isFixed: fieldSSZ.IsFixed()})
	return
""","""	squashable, canSquash := fieldSSZ.(SquashableFields)
	switch {
	case canSquash && (forceSquash || f.Anonymous):
		inner := squashable.SquashFields()
		for i := 0; i < len(inner); i++ {
			out = append(out, inner[i].Wrap(f.Name, f.Offset))
		}
		return out, nil
	case forceSquash:
		// anonymous fields can be handled as normal fields. Only error when it was tagged to be squashed.
		return nil, fmt.Errorf("could not squash field %s", f.Name)
	}
	field := ContainerField{
		ssz: fieldSSZ, pureName: f.Name, name: f.Name,
		ptrFn: GetOffsetPtrFn(f.Offset), isFixed: fieldSSZ.IsFixed()}
	return []ContainerField{field}, nil
""")]),
("ct-htr",[(CT,"""	leaf := func(i uint64) []byte {
		f := v.Fields[i]
		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))
		return r[:]
	}
	leafCount := uint64(len(v.Fields))
	return merkle.Merkleize(h, leafCount, leafCount, leaf)
}

""","""	return v.rootOfFirst(uint64(len(v.Fields)), h, p)
}

// rootOfFirst merkleizes the roots of the first fields.
func (v *SSZContainer) rootOfFirst(count uint64, h MerkleFn, p unsafe.Pointer) [32]byte {
	return merkle.Merkleize(h, count, count, func(i uint64) []byte {
		f := &v.Fields[i]
		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))
		return r[:]
	})
}

"""),(CT,"""	leaf := func(i uint64) []byte {
		f := v.Fields[i]
		r := f.ssz.HashTreeRoot(h, f.ptrFn(p))
		return r[:]
	}
	// truncate last field
	leafCount := uint64(len(v.Fields))
	if leafCount != 0 {
		leafCount--
	}
	return merkle.Merkleize(h, leafCount, leafCount, leaf)
""","""	n := len(v.Fields)
	if n > 0 {
		// truncate last field
		n--
	}
	return v.rootOfFirst(uint64(n), h, p)
""")]),
("ct-enc",[(CT,"""	prevOffset := v.fixedLen
	// span of the previous var-size element
	prevSize := uint64(0)
	for i := range v.Fields {
		f := &v.Fields[i]
		if f.isFixed {
			if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {
				return err
			}
		} else {
			if offset, err := eb.WriteOffset(prevOffset, prevSize); err != nil {
				return err
			} else {
				prevOffset = offset
			}
			prevSize = f.ssz.SizeOf(f.ptrFn(p))
		}
	}
	// Only iterate over and write dynamic parts if we need to.
	if !v.isFixedLen {
		for i := range v.Fields {
			f := &v.Fields[i]
			if !f.isFixed {
				if err := f.ssz.Encode(eb, f.ptrFn(p)); err != nil {
					return err
				}
			}
		}
	}
	return nil
""","""	prevOffset := v.fixedLen
	// span of the previous var-size element
	prevSize := uint64(0)
	var err error
	for i, n := 0, len(v.Fields); i < n; i++ {
		f := &v.Fields[i]
		fp := f.ptrFn(p)
		if !f.isFixed {
			prevOffset, err = eb.WriteOffset(prevOffset, prevSize)
			prevSize = f.ssz.SizeOf(fp)
		} else {
			err = f.ssz.Encode(eb, fp)
		}
		if err != nil {
			return err
		}
	}
	for i, n := 0, len(v.Fields); i < n; i++ {
		if f := &v.Fields[i]; !f.isFixed {
			if err = f.ssz.Encode(eb, f.ptrFn(p)); err != nil {
				break
			}
		}
	}
	return err
""")]),
("ct-dyn",[(CT,"""		// calculate the scope based on next offset, and max. value of this scope for the last value
		var scope uint64
		{
			currentOffset := offsets[i]
			if next := i + 1; next < len(offsets) {
				if nextOffset := offsets[next]; nextOffset >= currentOffset {
					scope = nextOffset - currentOffset
				} else {
					return fmt.Errorf("offset %d for field %s is invalid", i, f.name)
				}
			} else {
				scope = dr.Max() - currentOffset
			}
		}
		{
			realOffset := dr.Index()
			if expectedOffset := offsets[i]; expectedOffset != realOffset {
				return fmt.Errorf("expected to be at %d bytes, but currently at %d", expectedOffset, realOffset)
			}
			scoped, err := dr.Scope(scope)
			if err != nil {
				return err
			}
			if err := fieldHandler(scoped, f); err != nil {
				return err
			}
			dr.UpdateIndexFromScoped(scoped)
		}
""","""		currentOffset := offsets[i]
		if realOffset := dr.Index(); currentOffset != realOffset {
			return fmt.Errorf("expected to be at %d bytes, but currently at %d", currentOffset, realOffset)
		}
		// the scope ends at the next offset, or with the enclosing scope for the last value
		end := dr.Max()
		if i+1 < len(offsets) {
			end = offsets[i+1]
		}
		if end < currentOffset {
			return fmt.Errorf("offset %d for field %s is invalid", i, f.name)
		}
		scoped, err := dr.Scope(end - currentOffset)
		if err != nil {
			return err
		}
		if err := fieldHandler(scoped, f); err != nil {
			return err
		}
		dr.UpdateIndexFromScoped(scoped)
""")]),
("merkle-ptr",[(ME,"""	merge := func(i uint64) {
		// merge back up from bottom to top, as far as we can
		for j = 0; ; j++ {
			// stop merging when we are in the left side of the next combi
			if i&(uint64(1)<<j) == 0 {
				// if we are at the count, we want to merge in zero-hashes for padding
				if i == count && j < depth {
					v := hasher.Combi(hArr, ZeroHashes[j])
					copy(h, v[:])
				} else {
					break
				}
			} else {
				// keep merging up if we are the right side
				v := hasher.Combi(tmp[j], hArr)
				copy(h, v[:])
			}
		}
		// store the merge result (may be no merge, i.e. bottom leaf node)
		copy(tmp[j][:], h)
	}
""","""	merge := func(i uint64) {
		// merge back up from bottom to top, as far as we can
		for j = 0; ; j++ {
			right := (i>>j)&1 == 1
			if right {
				// keep merging up if we are the right side
				hArr = hasher.Combi(tmp[j], hArr)
				continue
			}
			// stop merging when we are in the left side of the next combi
			if i != count || j >= depth {
				break
			}
			// if we are at the count, we want to merge in zero-hashes for padding
			hArr = hasher.Combi(hArr, ZeroHashes[j])
		}
		// store the merge result (may be no merge, i.e. bottom leaf node)
		tmp[j] = hArr
	}
"""),(ME,"""	for j := depth; j < limitDepth; j++ {
		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])
	}

	return tmp[limitDepth]
""","""	out = tmp[depth]
	for d := depth; d < limitDepth; d++ {
		out = hasher.Combi(out, ZeroHashes[d])
	}
	return out
""")]),
("htr-init",[(HT,"""	ZeroHashes = make([][32]byte, zeroHashesLevels+1)
	v := [64]byte{}
	for i := 0; i < zeroHashesLevels; i++ {
		copy(v[:32], ZeroHashes[i][:])
		copy(v[32:], ZeroHashes[i][:])
		ZeroHashes[i+1] = hFn(v[:])
	}
""","""	table := make([][32]byte, zeroHashesLevels+1)
	for i := 1; i <= zeroHashesLevels; i++ {
		table[i] = hFn.Combi(table[i-1], table[i-1])
	}
	ZeroHashes = table
"""),(HT,"""	v := [64]byte{}
	copy(v[:32], a[:])
	copy(v[32:], make([]byte, 32, 32))
	binary.LittleEndian.PutUint64(v[32:], i)
	return h(v[:])
""","""	var length [32]byte
	binary.LittleEndian.PutUint64(length[:8], i)
	return h.Combi(a, length)
""")]),
("bytes",[(BY,"""	var length uint64
	if dr.IsFuzzMode() {
		x, err := dr.ReadUint64()
		if err != nil {
			return err
		}
		span := dr.GetBytesSpan()
		if span > v.limit {
			span = v.limit
		}
		if span != 0 {
			length = x % span
		}
	} else {
		length = dr.GetBytesSpan()
	}
	if length > v.limit {
		return fmt.Errorf("got %d bytes, expected no more than %d bytes", length, v.limit)
	}
	ptrutil.BytesAllocFn(p, length)
	data := *(*[]byte)(p)
	_, err := dr.Read(data)
	return err
}

func (v *SSZBytes) DryCheck(dr *DecodingReader) error {
	span := dr.GetBytesSpan()
	if span > v.limit {
		return fmt.Errorf("got %d bytes, expected no more than %d bytes", span, v.limit)
	}
	_, err := dr.Skip(span)
	return err
}
""","""	length, err := v.readLength(dr)
	if err != nil {
		return err
	}
	if err := v.checkLength(length); err != nil {
		return err
	}
	ptrutil.BytesAllocFn(p, length)
	_, err = dr.Read(*(*[]byte)(p))
	return err
}

// readLength tells how many bytes to decode.
func (v *SSZBytes) readLength(dr *DecodingReader) (length uint64, err error) {
	if !dr.IsFuzzMode() {
		return dr.GetBytesSpan(), nil
	}
	var x uint64
	if x, err = dr.ReadUint64(); err != nil {
		return 0, err
	}
	max := v.limit
	if span := dr.GetBytesSpan(); span < max {
		max = span
	}
	if max == 0 {
		return 0, nil
	}
	return x % max, nil
}

func (v *SSZBytes) checkLength(length uint64) error {
	if length <= v.limit {
		return nil
	}
	return fmt.Errorf("got %d bytes, expected no more than %d bytes", length, v.limit)
}

func (v *SSZBytes) DryCheck(dr *DecodingReader) error {
	span := dr.GetBytesSpan()
	err := v.checkLength(span)
	if err == nil {
		_, err = dr.Skip(span)
	}
	return err
}
"""),(BY,"""	dataLen := uint64(len(data))
	leafCount := (dataLen + 31) >> 5
	leafLimit := (v.limit + 31) >> 5
	leaf := func(i uint64) []byte {
		s := i << 5
		e := (i + 1) << 5
		// pad the data
		if e > dataLen {
			x := [32]byte{}
			copy(x[:], data[s:dataLen])
			return x[:]
		}
		return data[s:e]
	}
	return h.MixIn(merkle.Merkleize(h, leafCount, leafLimit, leaf), dataLen)
""","""	dataLen := uint64(len(data))
	chunks := func(n uint64) uint64 {
		return (n + 31) / 32
	}
	leaf := func(i uint64) []byte {
		start, end := 32*i, 32*i+32
		if end <= dataLen {
			return data[start:end]
		}
		// pad the data
		x := make([]byte, 32)
		copy(x, data[start:])
		return x
	}
	root := merkle.Merkleize(h, chunks(dataLen), chunks(v.limit), leaf)
	return h.MixIn(root, dataLen)
""")]),
("alloc",[(AL,"""	if length == 0 {
		pSh := (*SliceHeader)(p)
		pSh.Len = 0
		pSh.Cap = 0
		pSh.Data = unsafe.Pointer(nil)
		return pSh.Data
	}
""","""	pSh := (*SliceHeader)(p)
	if length == 0 {
		*pSh = SliceHeader{}
		return nil
	}
"""),(AL,"""	contentsPtr := unsafe.Pointer(newData.Pointer())
	pSh := (*SliceHeader)(p)
	pSh.Len = 0
	pSh.Data = contentsPtr
	pSh.Cap = l
	pSh.Len = l
""","""	contentsPtr := unsafe.Pointer(newData.Pointer())
	pSh.Len, pSh.Data = 0, contentsPtr
	pSh.Cap, pSh.Len = l, l
""")]),
]
