M="merkle/merkleize.go"; BF="bitfields/bitfield.go"; BL="bitfields/bitlist.go"; H="htr/hash_tree_root.go"; AL="util/ptrutil/allocation.go"; Z="zssz.go"; LB="types/ssz_list_basic.go"
import glob,os
M=[f[6:] for f in glob.glob("/repo/merkle/*.go") if not f.endswith("_test.go")][0]
def body(f,start,end="\n}\n"):
    t=open("/repo/"+f).read(); i=t.index(start); return t[i:t.index(end,i)+len(end)]
gd=body(M,"	// bitmagic: binary search")
E=[
("depth-loop",[(M,gd,"""	if v == 1 {
		return 1
	}
	for out = 0; out < 64 && (uint64(1)<<out) < v; out++ {
	}
	return
}
""")]),
("depth-bits",[(M,gd,"""	if v == 0 {
		return 0
	}
	if v == 1 {
		return 1
	}
	return uint8(bits.Len64(v - 1))
}
"""),(M,'import (\n','import (\n	"math/bits"\n')]),
("merkle-switch",[(M,"""	if limit == 0 {
		return
	}
	if limit == 1 {
		if count == 1 {
			copy(out[:], leaf(0))
		}
		return
	}
	depth""","""	switch limit {
	case 0:
		return out
	case 1:
		if count != 0 {
			copy(out[:], leaf(0))
		}
		return out
	}
	depth""")]),
("merkle-harr",[(M,"					v := hasher.Combi(hArr, ZeroHashes[j])\n					copy(h, v[:])","					hArr = hasher.Combi(hArr, ZeroHashes[j])"),
  (M,"				v := hasher.Combi(tmp[j], hArr)\n				copy(h, v[:])","				hArr = hasher.Combi(tmp[j], hArr)"),
  (M,"		copy(tmp[j][:], h)","		tmp[j] = hArr")]),
("merkle-cond",[(M,"""			if i&(uint64(1)<<j) == 0 {
				// if we are at the count, we want to merge in zero-hashes for padding
				if i == count && j < depth {
					v := hasher.Combi(hArr, ZeroHashes[j])
					copy(h, v[:])
				} else {
					break
				}
			} else {
				// keep merging up if we are the right side
				v := hasher.Combi(tmp[j], hArr)
				copy(h, v[:])
			}
""","""			if (i>>j)&1 == 1 {
				v := hasher.Combi(tmp[j], hArr)
				copy(h, v[:])
				continue
			}
			if i != count || j >= depth {
				break
			}
			v := hasher.Combi(hArr, ZeroHashes[j])
			copy(h, v[:])
""")]),
("merkle-nil",[(M,"	tmp := make([][32]byte, limitDepth+1, limitDepth+1)","	tmp := make([][32]byte, int(limitDepth)+1)"),(M,"	return tmp[limitDepth]\n","	copy(out[:], tmp[limitDepth][:])\n	return out\n")]),
("merkle-zero",[(M,"		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])\n","		next := hasher.Combi(tmp[j], ZeroHashes[j])\n		copy(tmp[j+1][:], next[:])\n")]),
("bitindex-bits",[(BF,body(BF,"	// going to be prettier"),"""	if v == 0 {
		return 0
	}
	return uint64(bits.Len8(v) - 1)
}
"""),(BF,"package bitfields\n",'package bitfields\n\nimport "math/bits"\n')]),
("bitindex-loop",[(BF,body(BF,"	// going to be prettier"),"""	for v > 1 {
		v >>= 1
		out++
	}
	return
}
""")]),
("bitindex-switch",[(BF,body(BF,"	// going to be prettier"),"""	switch {
	case v >= 0x80:
		return 7
	case v >= 0x40:
		return 6
	case v >= 0x20:
		return 5
	case v >= 0x10:
		return 4
	case v >= 0x08:
		return 3
	case v >= 0x04:
		return 2
	case v >= 0x02:
		return 1
	}
	return 0
}
""")]),
("zero-range",[(BF,"""	if end > 0 {
		// bytes up to the end byte can be checked efficiently. No need for bit-magic.
		for i := 0; i < end; i++ {
			if b[i] != 0 {
				return false
			}
		}
	}
""","""	for _, v := range b[:end] {
		if v != 0 {
			return false
		}
	}
""")]),
("len-mul",[(BL,"	return ((byteLen - 1) << 3) | BitIndex(last)","	return (byteLen-1)*8 + BitIndex(last)")]),
("len-int",[(BL,"	byteLen := uint64(len(b))\n	if byteLen == 0 {\n		return 0\n	}\n	last := b[byteLen-1]\n	return ((byteLen - 1) << 3)","	n := len(b) - 1\n	if n < 0 {\n		return 0\n	}\n	last := b[n]\n	return uint64(n)<<3")]),
("check-len",[(BL,"	if byteLimitWithDelimiter := (bitLimit >> 3) + 1; byteLen > byteLimitWithDelimiter {\n","	byteLimitWithDelimiter := bitLimit/8 + 1\n	if byteLen-1 > bitLimit/8 {\n")]),
("check-last",[(BL,"	return BitlistCheckLastByte(last, limit-((byteLen-1)<<3))","	full := (byteLen - 1) * 8\n	err := BitlistCheckLastByte(last, limit-full)\n	return err"),(BL,"	if last == 0 {\n		return errors.New(\"bitlist is invalid, trailing 0 byte\")\n	}\n	if BitIndex(last) > limit {\n		return errors.New(\"bitlist is invalid, too many bits\")\n	}\n	return nil","	var err error\n	if last == 0 {\n		err = errors.New(\"bitlist is invalid, trailing 0 byte\")\n	} else if n := BitIndex(last); n > limit {\n		err = errors.New(\"bitlist is invalid, too many bits\")\n	}\n	return err")]),
("zssz-defer",[(Z,"""	p := ptrutil.IfacePtrToPtr(&val)
	out := sszTyp.SizeOf(p)
	// make sure the data of the object is kept around up to this point.
	runtime.KeepAlive(&val)
	return out
""","""	defer runtime.KeepAlive(&val)
	return sszTyp.SizeOf(ptrutil.IfacePtrToPtr(&val))
""")]),
("zssz-defer2",[(Z,"""	p := ptrutil.IfacePtrToPtr(&val)
	out := sszTyp.HashTreeRoot(h, p)
	// make sure the data of the object is kept around up to this point.
	runtime.KeepAlive(&val)
	return out
""","""	defer func() {
		runtime.KeepAlive(&val)
	}()
	p := ptrutil.IfacePtrToPtr(&val)
	return sszTyp.HashTreeRoot(h, p)
""")]),
("zssz-encode",[(Z,"	err = sszTyp.Encode(ew, p)\n","	if err = sszTyp.Encode(ew, p); err != nil {\n		runtime.KeepAlive(&val)\n		n = ew.Written()\n		return\n	}\n"),(Z,"	return ew.Written(), err\n","	n = ew.Written()\n	return n, nil\n")]),
("zssz-min",[(Z,"	if bytesLen < sszTyp.MinLen() {\n		return fmt.Errorf(\"expected object length is larger than given bytesLen\")\n	}\n	unscoped := NewDecodingReader(r)\n	dr, err := unscoped.Scope(bytesLen)\n	if err != nil {\n		return err\n	}\n	p :=","	if min := sszTyp.MinLen(); min > bytesLen {\n		return fmt.Errorf(\"expected object length is larger than given bytesLen: %d > %d\", min, bytesLen)\n	}\n	dr, err := NewDecodingReader(r).Scope(bytesLen)\n	if err != nil {\n		return err\n	}\n	p :=")]),
("lb-locals",[(LB,"""	bytesLen := dr.GetBytesSpan()
	if bytesLen%v.elemSSZ.FixedLen() != 0 {
		return fmt.Errorf("cannot decode""","""	bytesLen := dr.GetBytesSpan()
	elemLen := v.elemSSZ.FixedLen()
	if rest := bytesLen % elemLen; rest > 0 {
		return fmt.Errorf("cannot decode"""),(LB,"	bytesLimit := v.limit * v.elemSSZ.FixedLen()\n	// check before","	bytesLimit := v.byteLimit\n	// check before")]),
("alloc-inv",[(AL,"""	if uint64(header.Cap) < length {
		// We don't want elements to be put in the slice header memory,
		// instead, we allocate the slice data with the allocation function,
		// and change the contents-pointer in the header.
		return f(p, length)
	} else {
		header.Len = int(length)
		return header.Data
	}
""","""	if length <= uint64(header.Cap) {
		header.Len = int(length)
		return header.Data
	}
	return f(p, length)
""")]),
("alloc-lit",[(AL,"""	pSh := (*SliceHeader)(p)
	pSh.Len = 0
	pSh.Data = contentsPtr
	pSh.Cap = l
	pSh.Len = l
""","""	*(*SliceHeader)(p) = SliceHeader{Data: contentsPtr, Len: l, Cap: l}
""")]),
("alloc-order",[(AL,"	l := int(length)\n	newData","	defer runtime.KeepAlive(p)\n	l := int(length)\n	newData")]),
("mixin",[(H,"	copy(v[32:], make([]byte, 32, 32))\n","")]),
("mixin-arr",[(H,"	copy(v[:32], a[:])\n	copy(v[32:], make([]byte, 32, 32))\n	binary.LittleEndian.PutUint64(v[32:], i)\n	return h(v[:])","	b := [32]byte{}\n	binary.LittleEndian.PutUint64(b[:8], i)\n	_ = v\n	return h.Combi(a, b)")]),
("zerohash-range",[(H,"	for i := 0; i < zeroHashesLevels; i++ {\n		copy(v[:32], ZeroHashes[i][:])\n		copy(v[32:], ZeroHashes[i][:])\n		ZeroHashes[i+1] = hFn(v[:])\n	}","	for i := 1; i <= zeroHashesLevels; i++ {\n		prev := ZeroHashes[i-1]\n		copy(v[:32], prev[:])\n		copy(v[32:], prev[:])\n		ZeroHashes[i] = hFn(v[:])\n	}")]),
("zerohash-combi",[(H,"		copy(v[:32], ZeroHashes[i][:])\n		copy(v[32:], ZeroHashes[i][:])\n		ZeroHashes[i+1] = hFn(v[:])\n","		ZeroHashes[i+1] = hFn.Combi(ZeroHashes[i], ZeroHashes[i])\n"),(H,"	v := [64]byte{}\n","")]),
]
