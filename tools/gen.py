#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and plan.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import plan

P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

BV, RS, IT, SEL = "src/bit_vec/mod.rs", "src/bit_vec/fast_rs_vec/mod.rs", "src/bit_vec/fast_rs_vec/iter.rs", "src/bit_vec/fast_rs_vec/select.rs"
prop("C01", "BitVec behaves as a mutable sequence of bits",
     "After any history of constructors and mutations (append, append_bits, append_word, drop_last, set, flip, extend, split), a BitVec has exactly the length and the bit at every position that the same history gives on a plain list of bits. Whatever was dropped or appended as excess bits before never becomes visible through get, get_bits, is_bit_set, count_ones or count_zeros.",
     ["inputs", "histories"], "every content, length, argument and history of operations",
     "Tests run fixed short histories; the failures sit at particular alignments of length, drop and append and at junk left behind the end.",
     [BV], [("append/drop/set/split on limbs with junk behind the end", "src/bit_vec/mod.rs BitVec")])
prop("C02", "BitVec equality and hashing depend only on the logical bits",
     "Two BitVecs compare equal exactly if they have the same length and the same bit at every position, whatever histories produced them. Equal BitVecs hash equally.",
     ["inputs", "histories"], "every pair of vectors, including ones with different discarded bits behind their ends",
     "Tests compare a few vectors; the guarantee must hold for every pair of contents, lengths and leftovers.",
     [BV], [("PartialEq masks the last limb", "src/bit_vec/mod.rs impl PartialEq"), ("Hash masks the last limb", "src/bit_vec/mod.rs impl Hash")])
prop("C03", "Packed integer sequences unpack to the values that were packed",
     "Packing a sequence of integers with any element width (pack_sequence_*, pack_from_iter_*) yields a BitVec of length count times width from which unpack_element returns every element's low bits, zero-extended to the width if that exceeds the integer type. unpack_element and get_bits return None exactly when the requested bits are not completely inside the vector or wider than 64 bits (an unpacking width of zero has no meaning).",
     ["inputs"], "every element value, width, element type and index",
     "Tests use a few widths with random values; unaligned widths straddle limbs in many ways.",
     [BV], [("pack_word_into_vector", BV), ("get_bits_unchecked straddling two limbs", BV)])
prop("C04", "Bit masks apply the mask bit by bit",
     "A masked view (and, or, xor, custom limb function) of two equally long BitVecs shows at every position the function of the two bits through get, get_bits, is_bit_set, count_ones, count_zeros and to_bit_vec, and the apply_mask operations leave exactly that in the vector. Vectors of different length are rejected with an error and left unchanged.",
     ["inputs", "histories"], "every pair of contents, lengths and positions, including leftovers behind the ends",
     "Tests check a few fixed masks; unaligned reads and ends of vectors have many cases.",
     ["src/bit_vec/mask.rs", BV], [("MaskedBitVec", "src/bit_vec/mask.rs"), ("apply_mask_*", BV)])
prop("C05", "Element iterators enumerate each sequence exactly, from both ends",
     "The iterators over BitVec, RsVec, WaveletMatrix (values, numbers, sorted values) and their owning variants yield exactly the elements in order, from front and back in any interleaving of next, next_back, nth, nth_back, skip and advance operations, each element at most once and none missing. len, size_hint, count and last agree with what is still to come, and the iterators stay exhausted once they are.",
     ["inputs", "histories"], "every content and every history of iterator calls with arbitrary arguments",
     "Tests run a few fixed call sequences; off-by-one errors show only when front and back meet or arguments exceed what is left.",
     ["src/util/general_iter.rs"], [("impl_vector_iterator", "src/util/general_iter.rs")])
prop("C06", "RsVec rank counts the bits before a position",
     "rank1(p) and rank0(p) of an RsVec built from any BitVec equal the number of ones and zeros among the first p bits, and the total number for any p at or beyond the end. Bits left behind the end of the BitVec never count.",
     ["inputs"], "every content, length and position",
     "Tests sample random vectors; block, super-block and word boundaries combined with contents cannot be sampled exhaustively.",
     [RS], [("block and super-block counters", "src/bit_vec/fast_rs_vec/mod.rs RsVec::from_bit_vec, rank")])
prop("C07", "RsVec select finds the bit of a given rank",
     "select1(k) and select0(k) return the position of the (k+1)-th one or zero, and the vector length if there is none. Consequently select inverts rank on every position holding the bit.",
     ["inputs"], "every content, length and rank, from single words to many super-blocks per select block and many select blocks",
     "Tests sample random and a few adversarial vectors; the search descends through select blocks, super-blocks, blocks and words whose boundary combinations are not sampled.",
     [RS, SEL, "src/util/pdep.rs"], [("select blocks, super-block search, block search, in-word select", SEL), ("pdep", "src/util/pdep.rs")])
prop("C08", "RsVec preserves the bits and compares by them",
     "An RsVec has the length and bits of the BitVec it was built from, through get, get_bits and conversion back. Two RsVecs compare equal by ==, full_equals and both sparse_equals variants exactly if they have the same length and bits.",
     ["inputs"], "every pair of contents and lengths, including leftovers behind the end and vectors of several million bits",
     "Tests compare a few pairs; the strategy of == changes with size and density.",
     [RS], [("full_equals / sparse_equals / PartialEq", RS)])
prop("C09", "Select iterators enumerate the positions of ones and zeros from both ends",
     "iter0, iter1 and their owning variants yield exactly the positions of the zeros or ones in increasing order, and in decreasing order from the back, under any interleaving of next, next_back, nth and nth_back, each position once. len, size_hint, count and last agree with what is still to come, and the iterator stays exhausted once it is.",
     ["inputs", "histories"], "every content and every history of iterator calls, across block, super-block and select-block boundaries",
     "Tests iterate forwards and backwards over a few vectors; the cached search position depends on the whole call history.",
     [IT], [("cached block positions in select iterators", IT)])
EF = "src/elias_fano/mod.rs"
prop("C10", "Elias-Fano vectors store monotone sequences exactly",
     "An EliasFanoVec built from any non-decreasing sequence returns exactly that sequence through len, get, select and delta (the difference to the previous element), and through its iterators from both ends with len, count, last, minimum and maximum agreeing. Indices beyond the end give None.",
     ["inputs", "histories"], "every non-decreasing sequence over the whole u64 range, every index and call history",
     "Tests use random sequences and a few special ones; splitting into upper and lower bits depends on the universe and the count.",
     [EF, "src/util/elias_fano_iter.rs"], [("upper/lower split relative to the smallest element", EF), ("impl_ef_iterator", "src/util/elias_fano_iter.rs")])
prop("C11", "Elias-Fano predecessor, successor and rank are exact",
     "predecessor(n) is the largest stored element not above n, successor(n) the smallest not below n, and rank(n) the number of elements below n, for every n including ones outside the stored range; predecessor and successor are None exactly if no such element exists.",
     ["inputs"], "every non-decreasing sequence with duplicates and clusters, every query value",
     "Tests query random sequences; long runs of elements sharing upper bits switch to a different search whose boundaries are rarely hit.",
     [EF], [("search_element_in_block linear/binary search", EF)])
prop("C12", "SparseRSVec answers like the plain bit vector",
     "A SparseRSVec built from a position list or a BitVec (directly or inverted) has that vector's length, and get, is_set, rank0, rank1, select1 and iter1 give the vector's bits, the number of ones or zeros before a position, and the positions of its ones in order. Queries beyond the end give None, the totals or the length as documented.",
     ["inputs"], "every content, length and query, including leftovers behind the end of the source vector",
     "Tests use a few random vectors.",
     ["src/bit_vec/sparse.rs", EF], [("SparseRSVec over EliasFanoVec", "src/bit_vec/sparse.rs")])
prop("C13", "BinaryRmq returns the position of a minimum of the queried range",
     "range_min(i, j) of a BinaryRmq returns an index within i..=j at which the data is smallest in that range, for every valid pair of indices. range_min_with_range gives the same for every kind of range expression with the end of the data as upper limit, and the data remains readable unchanged.",
     ["inputs"], "every data sequence including duplicates, every range",
     "Tests use random data; ties and sizes around powers of two are not sampled exhaustively.",
     ["src/rmq/binary_rmq/mod.rs"], [("sparse table of exponentially growing ranges", "src/rmq/binary_rmq/mod.rs")])
prop("C14", "FastRmq returns the position of a minimum of the queried range",
     "range_min(i, j) of a FastRmq returns an index within i..=j at which the data is smallest in that range, for every valid pair of indices, whether the range lies inside one block of 128 elements or spans several. range_min_with_range gives the same for every kind of range expression with the end of the data as upper limit, and the data remains readable unchanged.",
     ["inputs"], "every data sequence including duplicates, every range",
     "Tests use random data of a few sizes; block borders and ties need particular positions.",
     ["src/rmq/fast_rmq/mod.rs"], [("prefix/suffix minima bit vectors per block, block minima in BinaryRmq", "src/rmq/fast_rmq/mod.rs")])
W = "src/wavelet/mod.rs"
prop("C15", "WaveletMatrix stores its sequence, however it was built",
     "A WaveletMatrix built from any sequence of k-bit elements by any of its constructors (slice or packed BitVec, permutation sorting or prefix counting) returns exactly that sequence through get_value and get_u64, and all constructors give the same answers. Indices beyond the end, and numbers wider than 64 bits, give None.",
     ["inputs", "configurations"], "every sequence and element width",
     "Tests use random sequences of few widths.",
     [W], [("permutation_sorting / prefix_counting", W), ("reconstruct_value_unchecked", W)])
prop("C16", "WaveletMatrix rank and select count occurrences of a symbol",
     "rank, rank_offset and rank_range return the number of occurrences of a symbol in the given index range, and select and select_offset the position of its occurrence of a given rank from an offset, in the BitVec and the u64 form alike. The checked forms return None for invalid ranges, offsets, symbols of the wrong width and for occurrences that do not exist.",
     ["inputs"], "every sequence, symbol, range, offset and rank",
     "Tests compare random samples.",
     [W], [("descent through the levels using rank / ascent using select", W)])
prop("C17", "WaveletMatrix order statistics match the sorted range",
     "For every index range, quantile(k), range_min, range_max and range_median return the element of that rank in the sorted range (the median of an even count being the lower middle one), get_sorted(i) the i-th element of the whole sequence in sorted order, and predecessor and successor the largest element at most and smallest element at least the given symbol in the range. Empty, reversed or out-of-bounds ranges, missing elements and wrong symbol widths give None.",
     ["inputs"], "every sequence, range, rank and symbol, BitVec and u64 form",
     "Tests compare random samples; predecessor and successor backtrack through levels depending on the whole content.",
     [W], [("partial_quantile_search", W), ("predecessor_generic / successor_generic backtracking", W)])
BP, MMT = "src/trees/bp/mod.rs", "src/trees/mmt.rs"
prop("C18", "BpTree parenthesis queries match a scan of the sequence",
     "On every parenthesis sequence, balanced or not, excess, fwd_search, bwd_search, close, open and enclose of a BpTree return exactly what a linear scan of the sequence finds, or None if there is nothing, for every block size and without panicking. The sequence itself is returned unchanged when the tree is converted back.",
     ["inputs", "configurations"], "every sequence, start position, relative excess and block size, with either lookup table width",
     "Tests use a handful of trees and block sizes; the search crosses blocks and min-max-tree nodes in ways that depend on the sequence.",
     [BP, MMT, "src/trees/bp/lookup.rs", "src/trees/bp/lookup_query.rs"], [("in-block lookup search", "src/trees/bp/lookup_query.rs"), ("min-max tree search", MMT), ("fwd_search/bwd_search", BP)])
prop("C19", "BpTree navigation matches the tree the parentheses describe",
     "On every tree, root, parent, first_child, last_child, next_sibling, previous_sibling, is_leaf, depth, size, subtree_size, is_ancestor, node_index and node_handle agree with the ordinary tree that the parentheses describe, for every node. level_ancestor, level_next, level_prev, level_leftmost and level_rightmost return the node at the given level in depth-first order or None if there is none.",
     ["inputs", "configurations"], "every tree shape, node, level and block size",
     "Tests use a handful of fixed trees and a few random ones.",
     [BP], [("navigation by matching parentheses", BP)])
prop("C20", "BpTree building and traversal enumerate exactly the nodes",
     "A tree built with the builder contains exactly the nodes entered and left in that nesting, and build reports an error with the excess exactly when the numbers of enter and leave calls differ. Depth-first pre- and post-order, subtree, child and reversed child iterators yield exactly the corresponding nodes in order, each once.",
     ["inputs", "histories", "configurations"], "every sequence of builder calls and every tree shape, node and block size",
     "Tests build a handful of trees.",
     [BP, "src/trees/bp/builder.rs"], [("BpBuilder", "src/trees/bp/builder.rs"), ("iterators over select of open parentheses", BP)])
prop("C21", "Serialised structures come back unchanged",
     "With the serde feature, serialising any structure of the crate and deserialising the result yields a structure that answers every query like the original.",
     ["inputs"], "every structure and content",
     "There are no serde tests.",
     [BV, RS, EF, "src/bit_vec/sparse.rs", "src/rmq", W, BP, MMT], [("derived Serialize/Deserialize on every field", "all structures")])
prop("C22", "Checked queries never panic, whatever the arguments",
     "Every checked query (those documented to return an Option, a Result or a clamped value rather than to panic) of BitVec, masked views, RsVec, SparseRSVec, EliasFanoVec, WaveletMatrix and BpTree terminates without a panic or arithmetic overflow for every argument up to the largest machine integer and every structure, including empty ones. The answer for arguments outside the structure is the documented None, error or boundary value.",
     ["inputs"], "every structure, empty ones included, every argument value",
     "Tests call with a few out-of-range arguments; overflowing arguments and empty structures combine with every function.",
     [BV, RS, EF, W, BP, "src/bit_vec/sparse.rs"], [("bounds checks in front of the unchecked variants", "all structures")])
prop("C23", "The simd build answers like the portable build",
     "Built with the simd feature and vector instructions, RsVec select and rank give the same positions and counts as the definition, and the additional bit-set iterators yield exactly the positions of the zeros or ones in order. No memory outside the structure is read.",
     ["inputs", "configurations"], "every content, length and rank, in the vectorised configuration",
     "Tests compare a few random vectors; vector comparisons fail for particular counter values and at the ends of blocks.",
     [SEL, "src/bit_vec/fast_rs_vec/bitset.rs"], [("vector comparison of block counters", SEL), ("BitSetIter", "src/bit_vec/fast_rs_vec/bitset.rs")])

TECH = "symbolic execution of the compiled code (LLVM IR) with SMT (z3) deciding every assertion, counterexamples replayed natively"
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in plan.PLAN:
            note = plan.PLAN[i].get("note") or ("Holds for every value within the bounds: " + "; ".join(
                "%s: %s" % (j["h"], j["b"]) for j in plan.PLAN[i]["jobs"] if j.get("b")))
            note += ". Trusted: rustc's LLVM IR, the engine's IR semantics (cross-checked by replaying samples natively), z3."
            checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking", level_note=note))
        else:
            na.append(dict(property=i, reason=plan.NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="python3 check.py --build base", checks=checks, not_applicable=na,
             notes="All checks rebuild the harness IR from /repo's working tree. See DESIGN.md.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")
main()
