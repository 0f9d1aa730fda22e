#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, then run."""
import json, os
T = "types/"
KINDS = [T+f for f in ("ssz_bool.go","ssz_uint8.go","ssz_uint16.go","ssz_uint32.go","ssz_uint64.go","ssz_bytes.go","ssz_bytes_n.go","ssz_bitvector.go","ssz_bitlist.go","ssz_vector_basic.go","ssz_list_basic.go","ssz_vector.go","ssz_list.go","ssz_container.go","ssz_ptr.go")]
SERIES = [T+"basic_series.go", T+"elem_fixed_size_series.go", T+"elem_var_size_series.go"]
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Decoding accepts only canonical encodings of the target type",
  "When decoding N bytes into a type succeeds, those N bytes are one well-formed SSZ encoding of that type: booleans are 0 or 1, unused bitvector bits are zero, a bitlist has its delimiter bit and no more bits than its limit, no list exceeds its declared limit, a list's bytes divide into whole elements, the offsets of variable-size elements are ascending and without gap or overlap, and exactly N bytes are consumed. The same holds for every nested element.",
  ["inputs","programs"], "every byte string, every declared length and every SSZ type that can be built, nested to any depth",
  "The tests decode ~50 well-formed encodings; not one malformed input is decoded, so nothing exercises a rejection.",
  ["zssz.go","dec/decoder.go"]+KINDS+SERIES+["bitfields/bitlist.go","bitfields/bitvector.go"],
  [("exact-consumption check","zssz.go Decode"),("per-type Decode methods","types/ssz_*.go"),("offset walk","types/elem_var_size_series.go, types/ssz_container.go"),("bitfield checks","bitfields/bitlist.go BitlistCheck*, bitfields/bitvector.go BitvectorCheck*")],
  ["error result of Decode"])
p("C02", "Every valid encoding is accepted",
  "Decoding and dry-checking report an error only if the input is not a valid encoding of the type at the given length, or the underlying reader fails or ends early. Boundary cases - a list exactly at its limit, an empty list, a zero-length vector, the last permitted bit of a bitlist - are accepted.",
  ["inputs","programs"], "every valid encoding of every SSZ type, including limits and zero sizes",
  "The test table holds a few values per type, none at a limit boundary other than two bitlists.",
  ["zssz.go","dec/decoder.go"]+KINDS+SERIES+["bitfields/bitlist.go","bitfields/bitvector.go"],
  [("guards in front of every error return","types/*.go"),("scope arithmetic","dec/decoder.go Scope, Read, Skip")], ["error result of Decode and DryCheck"])
p("C03", "Dry-checking and decoding give the same verdict",
  "For every type and every input, checking the format without decoding succeeds exactly when decoding the same bytes at the same length succeeds, and it consumes the same number of bytes of the reader.",
  ["inputs","programs"], "every byte string and every SSZ type",
  "DryCheck is only tested on the valid encodings of the table; no test compares the verdicts on malformed or over-limit input.",
  ["zssz.go"]+KINDS+SERIES, [("sibling implementations Decode / DryCheck of each SSZ type","types/ssz_*.go")], ["error results of DryCheck and Decode"])
p("C04", "Reported sizes equal the bytes actually written",
  "The size reported for a value is exactly the number of bytes its encoding writes, for fixed-size and variable-size values of every type, and the count returned by encoding is the number of bytes handed to the writer, also when encoding stops at an error. Offsets inside an encoding are computed from the same sizes, so a wrong size never produces a decodable-looking but shifted message.",
  ["inputs","programs"], "every value of every SSZ type; every writer failure point",
  "Sizes are compared for the table's values only; no test has a failing writer or checks the returned count.",
  ["zssz.go","enc/encoder.go"]+KINDS+SERIES, [("SizeOf / Encode pairs","types/ssz_*.go"),("write counter","enc/encoder.go Write, Written")], ["SizeOf result","Encode's count","bytes on the writer"])
p("C05", "Encodings follow the SSZ layout: fixed part, offsets, then contents",
  "Encoding a container or series writes its elements in order: each fixed-size element in place, each variable-size element as a 4-byte little-endian offset, followed by the contents of the variable-size elements in the same order. The offset written for an element is the distance from the start of the enclosing object to the start of that element's contents, and basic values, byte strings and bitfields are written as their plain little-endian bytes without padding.",
  ["inputs","programs"], "every value of every SSZ type, any number and mix of fixed and variable-size elements",
  "The tables fix a dozen layouts; mixes such as several variable-size fields with empty contents, or vectors of variable-size elements of different sizes, are sampled once or not at all.",
  ["enc/encoder.go"]+KINDS+SERIES, [("offset bookkeeping","types/ssz_container.go Encode, types/elem_var_size_series.go EncodeVarSeries"),("WriteOffset","enc/encoder.go")], ["bytes on the writer"])
p("C06", "Declared length bounds bracket every encoding",
  "For every type, each valid value's encoded size lies between the declared minimum and maximum length; a fixed-size type's minimum, maximum and fixed length all equal its only encoded size. The fuzzing minimum never exceeds the fuzzing maximum.",
  ["inputs","programs"], "every valid value (lists within their limits) of every SSZ type",
  "No test reads the minimum or maximum lengths at all.",
  KINDS, [("length methods","types/ssz_*.go MinLen, MaxLen, FixedLen, FuzzMinLen, FuzzMaxLen"),("length sums in constructors","types/ssz_container.go NewSSZContainer, types/ssz_vector.go, types/ssz_list.go")], ["MinLen, MaxLen, FixedLen, SizeOf results"])
p("C07", "Hash-tree-roots merkleize the right chunks under the right limit",
  "The hash-tree-root of a value merkleizes, per SSZ, exactly its 32-byte chunks (bytes and packed basic values split in order and zero-padded at the end, bitfields without the delimiter bit, composite elements and fields by their own roots, in order), pads to the chunk count implied by the type's limit or length and not by the current value, and mixes in the current element (or bit) count for lists and only for lists. A signing root is the same over all fields but the last.",
  ["inputs","programs"], "every value of every SSZ type, all lengths relative to the 32-byte chunk and to the limit",
  "Roots are compared for the ~50 table values; chunk-boundary lengths (e.g. bitlists of 249-255 bits) are not among them.",
  KINDS+[T+"basic_series.go","merkle/merkleize.go","htr/hash_tree_root.go"], [("leaf functions","types/*.go HashTreeRoot"),("chunk counts and limits","types/*.go")], ["HashTreeRoot and SigningRoot results"])
p("C08", "Merkle trees are padded with zero-subtrees to the depth of the limit",
  "Merkleizing count leaves under a limit uses each leaf once in index order as the left-to-right bottom layer, only ever combines a left node with its right sibling at the same height, fills missing subtrees with the zero-subtree root of that same height, and returns the root at the depth of the limit (the least depth whose tree holds that many leaves). More leaves than the limit are refused.",
  ["inputs"], "every count, every limit up to 2^64-1, every hash function",
  "The tests reach trees of at most 7 levels and a handful of leaf counts; depth computation for large limits and most count/limit combinations are never run.",
  ["merkle/merkleize.go","htr/hash_tree_root.go"], [("GetDepth","merkle/merkleize.go"),("Merkleize","merkle/merkleize.go"),("zero-hash table","htr/hash_tree_root.go InitZeroHashes")], ["Merkleize result"])
p("C09", "Memory allocated for decoding is bounded by limits and by input size",
  "While decoding untrusted input, every allocation for a list is made only after the element count is known to be within the type's declared limit and within what the remaining input scope can hold. A short message can therefore not make the decoder reserve memory for more elements than its own bytes account for.",
  ["inputs","programs"], "every byte string and declared length, every list type",
  "No test decodes an over-limit or lying length; allocation sizes are not observed.",
  ["util/ptrutil/allocation.go"]+[T+f for f in ("ssz_bytes.go","ssz_bitlist.go","ssz_list.go","ssz_list_basic.go")]+SERIES, [("limit checks in front of allocation","types/ssz_bytes.go Decode, types/elem_*_series.go"),("slice allocation","util/ptrutil/allocation.go")], ["memory allocated during Decode"])
p("C10", "Reader and writer failures always surface",
  "An error or early end of the underlying reader makes decoding, dry-checking and fuzz-decoding return an error, and an error of the underlying writer makes encoding return that error; neither is ever swallowed or followed by a success result. Data delivered together with an end-of-file indication is not an error.",
  ["fault_sequences","inputs","programs"], "every read or write of an operation failing, on every type; readers that deliver data in any fragmentation",
  "No test uses a failing, short or fragmenting reader or writer.",
  ["zssz.go","dec/decoder.go","enc/encoder.go"]+KINDS+SERIES, [("error propagation","all Decode/DryCheck/Encode paths"),("read loop","dec/decoder.go Read, Skip")], ["error results"])
p("C11", "A decoder never reads past the bytes it was given",
  "Decoding or dry-checking with a declared length of N bytes never takes more than N bytes from the reader, and a nested element never takes bytes beyond the part of the message assigned to it. The position bookkeeping always equals the bytes really taken: after a nested element is read, its parent's position advances by exactly what the element consumed, and a failed bounds check consumes nothing.",
  ["inputs","programs","histories"], "every input, every nesting of scopes, every sequence of read, skip and scope operations",
  "The tests give the decoder readers that hold exactly one message, so over-reading cannot show.",
  ["dec/decoder.go","zssz.go"]+SERIES+[T+"ssz_container.go"], [("scoped readers","dec/decoder.go Scope, UpdateIndexFromScoped"),("bounds check before each read","dec/decoder.go")], ["bytes taken from the io.Reader","Index()"],
  [("index and max","bytes consumed in, and size of, the current scope","dec/decoder.go DecodingReader")])
p("C12", "Encoding, hashing, sizing and printing never modify the value",
  "Encoding, computing a size, hash-tree-root or signing root, pretty-printing and dry-checking leave every byte of the caller's value unchanged, on success and on error. They also hand out no writable alias of it beyond the call.",
  ["inputs","programs"], "every value of every SSZ type, including bitlists whose hashing masks the delimiter bit",
  "No test compares a value before and after an operation.",
  ["zssz.go"]+KINDS+SERIES, [("copies in leaf functions","types/*.go HashTreeRoot"),("scratch buffers","enc/encoder.go")], ["the value's memory"])
p("C13", "Type descriptors are immutable after construction and safe to share",
  "No encode, decode, hash, size, dry-check or print operation writes to the type descriptor it runs on or to package-level state; all mutable working state belongs to the single call. Goroutines may therefore use one descriptor (and one package) on different values at the same time without synchronisation and get the same results as alone.",
  ["schedules","programs"], "every interleaving of operations that share a type descriptor",
  "The tests are single-threaded and build a new descriptor per case.",
  KINDS+SERIES+["merkle/merkleize.go","htr/hash_tree_root.go","dec/decoder.go","enc/encoder.go"], [("descriptor structs written only by constructors","types/ssz_*.go"),("zero-hash table written only by initialisation","htr/hash_tree_root.go")], ["descriptor fields, package variables"],
  [("ZeroHashes","zero-subtree roots, set at init or by InitZeroHashes","htr/hash_tree_root.go")])
p("C14", "Decoding writes only inside the destination object",
  "Every memory write of a decode lands inside the destination object, or inside a slice or pointee that belongs to it and is large enough for the number of elements written. This holds for every type and on hosts of either byte order, and encoding, hashing and printing likewise read only inside the value.",
  ["inputs","programs","configurations"], "every input, type, destination state, and host byte order",
  "Memory corruption need not fail a test, and code for big-endian hosts is never run.",
  KINDS+SERIES+["util/ptrutil/allocation.go","util/ptrutil/slice_header.go"], [("unsafe pointer arithmetic","types/*.go"),("slice headers over raw memory","util/ptrutil/slice_header.go")], ["memory written by Decode"])
p("C15", "Untrusted input never panics the decoder",
  "Decoding and dry-checking arbitrary bytes into any valid destination return normally or with an error; they never panic, whatever the content: no index or slice out of range, division by zero, negative allocation or explicit panic is reachable.",
  ["inputs","programs"], "every byte string and declared length, every SSZ type",
  "The tests decode valid inputs only.",
  ["zssz.go","dec/decoder.go"]+KINDS+SERIES+["bitfields/bitlist.go","bitfields/bitvector.go"], [("guards in front of index, slice, division and allocation","types/*.go, bitfields/*.go")], ["panics"])
p("C16", "Fuzz-mode decoding turns any sufficient input into a valid value",
  "Given at least the type's fuzzing minimum length of arbitrary bytes, fuzz-mode decoding succeeds (unless the reader itself fails), consumes no more than it was given, and yields a valid value: lists within their limits, booleans 0 or 1, clean bitvectors, well-formed bitlists. Nested elements are decoded in fuzz mode too.",
  ["inputs","programs"], "every byte string at least as long as the fuzzing minimum, every SSZ type",
  "Fuzz-mode decoding has no test at all.",
  ["zssz.go"]+KINDS+SERIES, [("length derivation and clamping","types/*.go decodeFuzzmode branches"),("scope reservation","types/elem_var_size_series.go DecodeVarSeriesFuzzMode, types/ssz_container.go")], ["DecodeFuzzBytes results"])
p("C17", "Encodings and roots do not depend on the host's byte order",
  "Multi-byte numbers are always encoded, decoded and hashed as little-endian; the raw memory of multi-byte elements is copied to or from a message or a hash chunk only where the host is known to be little-endian, and the portable path handles the same elements, counts and limits. A big-endian host produces and accepts the same bytes and roots as a little-endian one.",
  ["configurations","inputs","programs"], "both host byte orders, every value of every SSZ type",
  "Tests run on little-endian machines, where the portable paths are dead.",
  [T+"basic_series.go",T+"ssz_vector_basic.go",T+"ssz_list_basic.go","util/endianness/endianness.go"]+KINDS[:5], [("endianness test in front of raw copies","types/ssz_vector_basic.go, types/ssz_list_basic.go"),("byte-order detection","util/endianness/endianness.go")], ["encoded bytes, roots"])
p("C18", "Roots are computed with the caller's hash function only",
  "A hash-tree-root or signing root is a function of the value, its type and the supplied hash function: every inner node and length mix-in is produced by the supplied function (padding by the configured zero-subtree table), and the table for a hash function is that function iterated on pairs of its own previous level. No clock, randomness, map order or other ambient state influences encodings, sizes or roots.",
  ["inputs","programs","configurations"], "every hash function, value and type",
  "All tests hash with SHA-256, for which a hard-wired call would go unnoticed.",
  ["htr/hash_tree_root.go","merkle/merkleize.go"]+KINDS, [("MerkleFn passed down","types/*.go HashTreeRoot"),("InitZeroHashes","htr/hash_tree_root.go"),("Combi and MixIn adapters","htr/hash_tree_root.go HashFn")], ["HashTreeRoot results"])
p("C19", "Offsets that do not fit 32 bits are refused, never truncated",
  "An encoding whose offset would not fit the 4-byte offset is refused instead of being written with a wrapped value, and no length, offset, size or limit is silently shortened by a narrowing conversion anywhere on the encode, decode or hash path.",
  ["inputs","programs"], "every value size and every declared limit or length",
  "No test comes near 2^32 bytes.",
  ["enc/encoder.go","dec/decoder.go","util/ptrutil/allocation.go","util/ptrutil/slice_header.go"]+SERIES, [("range checks before narrowing","enc/encoder.go WriteOffset")], ["bytes on the writer, panics"])
p("C20", "Bitfield helpers compute exact lengths, bits and validity",
  "For all byte strings and indices: the highest-bit index of a non-zero byte is exact; a bitlist's length is 8 times its full bytes plus the delimiter's index; getting and setting a bit touches exactly the addressed bit; a bitlist is valid exactly if it is non-empty, ends in a non-zero byte and holds at most limit bits; a bitvector is valid exactly if it has the bytes its bit length needs and no bit set beyond it; the zero test ignores exactly the delimiter.",
  ["inputs"], "all byte strings, all indices, lengths and limits",
  "The tests try a few dozen values; most bytes and limits are not covered.",
  ["bitfields/bitfield.go","bitfields/bitlist.go","bitfields/bitvector.go"], [("BitIndex, GetBit, SetBit, IsZeroBitlist","bitfields/bitfield.go"),("BitlistLen, BitlistCheck*","bitfields/bitlist.go"),("BitvectorCheck*","bitfields/bitvector.go")], ["helper results"])
p("C21", "Each Go type maps to its SSZ scheme, and unsupported types are refused",
  "Building a descriptor chooses the documented scheme for each kind of Go type - basic values, structs, pointers, byte arrays and slices, bitvectors, bitlists, arrays and slices of basic and of other elements - and returns an error, not a wrong descriptor, for every other kind, for slices without a declared limit, and for bitvectors whose byte length does not match their bit length. Errors from nested types are reported.",
  ["programs"], "every Go type",
  "The tests only build valid types; no construction error is tested and several element kinds are never used.",
  [T+"factory.go",T+"limit.go",T+"basic_series.go"]+KINDS[5:], [("kind dispatch","types/factory.go DefaultSSZFactory, types/basic_series.go GetBasicSSZElemType"),("constructor checks","types/ssz_*.go NewSSZ*")], ["SSZFactory result"])
p("C22", "Containers use exactly the non-omitted fields, in order, squashed in place",
  "A struct's SSZ fields are its fields in declaration order, without those tagged omit, with the fields of embedded or squash-tagged containers inlined in place; every operation on the container visits exactly this list in this order and accesses each field at its own memory. Omitted fields are neither read nor written, and a squash tag that cannot be honoured is an error.",
  ["programs","inputs"], "every struct type and tag combination (including combined tags and nested squashing)",
  "Three test structs use tags; none combines flags or has failing squash, and omitted fields are not checked for being untouched.",
  [T+"ssz_container.go","util/tags/read_tag.go"], [("field collection","types/ssz_container.go getFields, Wrap, NewSSZContainer"),("tag parsing","util/tags/read_tag.go HasFlag")], ["encodings, decoded values"])
p("C23", "A decoded value depends only on the input, not on the destination's past",
  "After a successful decode every SSZ-visible part of the destination is determined by the input alone: lists have exactly the decoded number of elements, and nothing of a previously decoded, longer or differently filled value remains visible. Reusing a destination gives the same value as a fresh one.",
  ["histories","inputs","programs"], "every sequence of decodes into one destination, including empty lists after long ones, in normal and fuzz mode",
  "The tests always decode into a fresh zero value.",
  KINDS+["util/ptrutil/allocation.go"]+SERIES, [("slice length update","util/ptrutil/allocation.go MutateLenOrAllocNew, AllocateSliceSpaceAndBind"),("stores of every decoded element","types/*.go Decode")], ["the destination after Decode"])
p("C24", "Decoded elements and bytes land in their own place, in message order",
  "A successful decode stores the i-th element or byte of the message part that belongs to a field, vector or list as the i-th element or byte of that field, vector or list, with its exact little-endian value and the element count given by the message. Together with the layout property this makes decoding the inverse of encoding.",
  ["inputs","programs"], "every valid encoding of every SSZ type",
  "Decoded values are compared for ~50 samples with fewer than 20 elements each.",
  KINDS+SERIES+["dec/decoder.go"], [("element strides and pointers","types/elem_*_series.go"),("field pointers","types/ssz_container.go"),("integer reads","dec/decoder.go ReadUint*")], ["the destination after Decode"])
p("C25", "Merkle proofs verify against the root of the same leaves",
  "For every leaf set, limit and index, the branch built for an index, folded from the leaf at that index with the hash function, gives the root that merkleizing the same leaves under the same limit gives. The branch has one node per level of the limit's depth.",
  ["inputs"], "every count, limit and index",
  "Proof construction has no test.",
  ["merkle/merkleize.go"], [("ConstructProof","merkle/merkleize.go")], ["ConstructProof result"])
p("C26", "Decoding inverts encoding as a whole (value equality)",
  "For every valid value (lists within their limits, bitfields well-formed, no nil pointers), encoding and then decoding succeeds and yields an equal value, up to nil and empty slices, omitted fields excepted. For every accepted message, decoding and then encoding yields the same bytes.",
  ["inputs","programs"], "every valid value and message of every SSZ type",
  "Sampled on ~50 values.",
  ["zssz.go"]+KINDS, [("Encode/Decode pairs","types/ssz_*.go")], ["Decode of Encode"])
p("C27", "Steady-state operations do not allocate",
  "Once a descriptor is built, encoding, hashing and decoding of fixed-size values perform no heap allocation per value beyond the documented exceptions.",
  ["inputs","programs"], "every value",
  "No test or benchmark measures allocation.",
  ["zssz.go","enc/encoder.go","dec/decoder.go"], [("scratch buffers","enc/encoder.go, dec/decoder.go")], ["allocation counts"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
