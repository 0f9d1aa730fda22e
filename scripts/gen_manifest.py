#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Edit here, then run."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the Go SSA (polyhedra over symbolic sizes x abstract memory, inductive loop invariants, assume-guarantee codec contracts)"
TRUST = " Trusted: go/ssa, the models of the standard library functions called, Go's memory layout for amd64 (both byte orders analysed), fewer than 2^31 fields per container, lengths below 2^56; element codecs are represented by their contract, which the same checks establish for every codec."
C = {}
def c(p, what, note): C[p] = (what, note)
c("C12", "effect analysis: store events of read-only operations, on " + AI, "Every store of every path of the read-only operations of every kind of codec is classified by the object it writes, printing included; none may reach the caller's value.")
c("C13", "effect analysis: store events classified by object, on " + AI, "Every store of every codec method is classified; none may reach a descriptor or package-level variable.")
c("C14", "bounds proof of every load, store and element access, on " + AI, "Each access offset and size is proved to lie within its object for all inputs, lengths and types, on hosts of both byte orders.")
c("C15", "panic-freedom of every path, on " + AI, "No feasible path of Decode, DryCheck or fuzz-mode Decode of any codec kind ends in a run-time panic.")
c("C06", "comparison of the returned length polynomials with the exact size range of the kind, on " + AI, "Every length getter of every kind of codec, as a polynomial in the type length, limit, fields and element bounds.")
c("C09", "dominance of limit and scope checks over allocation events, on " + AI, "At every allocation site of every decoding path the element count is entailed to be within the limit and the scope.")
c("C10", "error-flow analysis: failure events against path results, on " + AI, "Every path with a failed or short read, or a failed write, is shown to end in that error; package-level entry points included.")
c("C19", "conversion and offset-range analysis, on " + AI, "Every integer conversion on every path is shown lossless; encoding arithmetic shown not to wrap; products of sizes assumed below 2^64.")
c("C04", "write-effect accounting: the sum of written segments against the returned and reported polynomials, on " + AI, "The bytes written on every path of every Encode are counted symbolically and compared with the returned count and with SizeOf.")
c("C05", "segment-level layout comparison of the written stream, on " + AI, "The sequence of segments each Encode writes (loops as families) is compared with the SSZ layout: order, place, offset values, widths, byte order.")
c("C07", "comparison of the chunk function, count, limit and mix-in of every Merkle call with the SSZ definition, on " + AI, "The leaf closure is analysed at an arbitrary chunk index; its 32 bytes, the count, limit and mix-in are compared with the definition for every kind.")
c("C21", "dispatch-table analysis of the descriptor factory for a type of unknown kind, with the layout, length and root rules per scheme, on " + AI, "Every path of the factory is compared with the table of schemes; every descriptor's behaviour with its scheme.")
c("C22", "provenance analysis of the records appended during container construction and of the memory handed to field codecs, on " + AI, "Every path per struct field (omit, squash, anonymous, ordinary) and every use of a field by every operation, printing included. Tag parsing (tags.HasFlag) is represented by its meaning there, and decided by its own analysis: every path over an abstraction of comma-separated lists.")
c("C20", "value-range partition analysis (one byte by value, lengths and indices symbolic), on " + AI, "Every path of every bitfield helper, for byte strings of every length and every position, compared with its definition.")
c("C01", "entailment of the clauses of the encoding definition by the path conditions of successful decoding, with indexed clauses at an arbitrary index, on " + AI, "Every successful path of Decode and DryCheck of every scheme (and of the exported wrappers); clauses: limits, canonical values, padding bits, delimiter, first offset, offset order, element spans, element validity. Element codecs are assumed to do the same (induction over the type).")
c("C02", "unsatisfiability of the encoding definition with the path conditions of refusing paths, on " + AI, "Every failing path not caused by the reader; the definition is instantiated at the indices the path speaks about and at the neighbours of loop exits.")
c("C03", "clause-by-clause comparison of the acceptance and refusal verdicts of Decode and DryCheck, on " + AI, "Both methods are decided against one definition in both directions; any clause decided differently is reported.")
c("C11", "interval containment of every read and element scope in the enclosing scope, and equality of the bookkept position with a ghost stream position, on " + AI, "Every decoding path (including fuzz mode and failing paths) of every scheme and of the exported wrappers, and every method of the decoding reader from an arbitrary state with arbitrary 64-bit arguments.")
c("C23", "coverage analysis of the final abstract memory of the destination: every header length and every cell is shown to be defined by the input, on " + AI, "Every successful path of Decode (both modes, both byte orders): header lengths equal the decoded count, every cell below it is written on the path, and what is written does not mention the destination's earlier contents.")
c("C16", "infeasibility of failing paths under the sufficiency precondition, and value-range analysis of the final memory, on " + AI, "Every path of fuzz-mode Decode, both byte orders, first and nested reads: failing paths are infeasible with FuzzMinLen bytes or more unless the reader fails; limits, booleans, bitvector padding and bitlist delimiters of the memory left; mode of nested decoders.")
c("C24", "placement comparison of stores and child decodings with the message part they come from, on " + AI, "Every successful path of Decode, both byte orders: element i (symbolic) is stored or decoded at slot i with its exact little-endian value; fields at their offsets.")
c("C17", "comparison, obligation by obligation, of the verdicts under both host byte orders (package initialisation included), on " + AI, "Every obligation about written segments, hash chunks, final decoded memory, verdicts and fuzz mode is decided on both orders; any difference, and any wrong byte of a multi-byte number, is a violation.")
c("C08", "tree-term abstract interpretation: every 32-byte value described as the root of a subtree of an ideal tree, with the leaf loop summarised by an inductive invariant, on " + AI, "Merkleize, GetDepth and InitZeroHashes, for every leaf count, limit (0..2^64-1), leaf and hash function; only combinations of a left with its right sibling are accepted, and every path returns the root at the depth of its limit.")
c("C25", "tree-term abstract interpretation of the proof builder, compared with the sibling path of the index, on " + AI, "ConstructProof for every count, limit and index: one node per level, each the sibling of the path; Merkleize as for C08.")
c("C18", "provenance analysis of the hash function of every tree, mix-in and nested root, term comparison of the HashFn adapters and the zero-hash table, and an effect scan over the call graph, on " + AI, "The hasher argument of every Merkle call, mix-in and nested root on every path; adapters and all 64 table entries as hash terms; every function reachable from encoding, measuring, hashing and descriptor building scanned for fixed hash functions, ambient packages, goroutines, map order and reassigned package variables.")
c("C26", "structural induction with the steps decided by path and effect comparison of Encode, SizeOf and Decode with one layout per kind of codec, on " + AI, "Every path of Encode, SizeOf and Decode of every kind of codec and of the exported wrappers: bytes written, sizes, acceptance in both directions, final memory of every index, memory of each field; both byte orders (acceptance on big-endian: numbers; all kinds in the thorough tier).")
NA = {
 "C27": "heap allocation is decided by the compiler's escape analysis and the runtime, not by the source semantics; the opaque hash function and io.Writer calls make every argument escape, so no sound static bound on allocations per value is in reach.",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
            technique=C[i][0], level="other", level_note=C[i][1] + TRUST))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet: the rule for it is under construction.")))
json.dump(dict(version=1, setup_cmd="bash tool/b.sh", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
