"""What each check runs. h: harness, p: parameters, shards: split on the first choice, t: time cap per
shard (quick), tt: time cap per shard (thorough), b: bounds covered, var: build variant, tier: only there."""

PLAN = {
    "C01": dict(jobs=[
        dict(h="h_bv_step", shards=11, b="one operation (12 kinds, arbitrary arguments) on a vector of 0..=128 bits with arbitrary content and arbitrary junk behind its end"),
        dict(h="h_bv_history", shards=40, b="two operations (144 combinations, arbitrary arguments) on a vector of 0..=64 bits, arbitrary junk"),
        dict(h="h_bv_after", p=[9], shards=24, b="eleven constructions (fill, split, extend, pack, mask, bits, limbs, unchecked appends; arbitrary content, lengths from a list up to 192), then any operation, then each reader: get, get_bits, is_bit_set, counts, appending, iter_limbs"),
        dict(h="h_bv_hist_all", p=[2], shards=12, b="two operations on 0..=64 bits (lengths and positions from a list, content arbitrary), then each reader"),
        dict(h="h_bv_construct", b="all constructors from 0..=3 words / elements, from_zeros/from_ones 0..=193"),
        dict(h="h_bv_read", shards=3, b="0..=192 bits"),
        dict(h="h_bv_split", b="0..=192 bits, any split position"),
        dict(h="h_bv_extend", b="0..=64 bits extended by 0..=128 bits, both with junk"),
        dict(h="h_bv_long", p=[18], b="reads and counts on 18 arbitrary words with junk (every length 1025..=1152)"),
        dict(h="h_bv_long", p=[40], tier="thorough", b="40 words"),
        dict(h="h_bv_long_op", p=[18], b="one operation on 18 arbitrary words with junk (12 kinds; 4 lengths, 13 positions)"),
        dict(h="h_bv_long_op", p=[70], b="70 words"),
        dict(h="h_bv_construct_long", p=[3], shards=5, b="every constructor, arbitrary content of up to 3 words, or up to 193 elements with 7 arbitrary ones"),
        dict(h="h_bv_construct_long", p=[18], shards=5, b="up to 18 words or 1153 elements"),
    ]),
    "C02": dict(jobs=[
        dict(h="h_bv_eq", b="pairs of vectors of 0..=128 bits, independent content and junk; equality both ways and hashes"),
        dict(h="h_bv_eq_hist", shards=12, b="a vector from any of eleven constructions and one operation equals and hashes like the one built from its words with other junk, and differs from it after any flip"),
        dict(h="h_bv_eq_long", p=[18], b="pairs of vectors of 1025..=1152 bits"),
        dict(h="h_bv_eq_long", p=[64], tier="thorough", b="64 words"),
    ]),
    "C03": dict(jobs=[
        dict(h="h_bv_pack", b="sequences of 0, 1, 2, 5 arbitrary elements of every integer type, every width up to 130 and 20 up to 1000"),
        dict(h="h_bv_pack_long", p=[40], b="39 and 40 arbitrary elements of every integer type, 17 widths"),
        dict(h="h_bv_pack_long", p=[200], b="199 and 200 elements"),
        dict(h="h_bv_unpack", b="get_bits / unpack_element with arbitrary arguments on 0..=192 bits"),
    ]),
    "C04": dict(jobs=[
        dict(h="h_mask", b="pairs of vectors of 0..=128 bits with junk, every position and width, all mask functions"),
        dict(h="h_mask_counts", p=[18], b="counts over 18 words"),
        dict(h="h_mask_long", p=[18], b="apply and to_bit_vec over 18 words"),
        dict(h="h_mask_counts", p=[40], tier="thorough", b="counts over 40 words"),
        dict(h="h_mask_long", p=[40], tier="thorough", b="40 words"),
    ]),
    "C05": dict(jobs=[
        dict(h="h_it_hist", p=[3], shards=20, tier="quick", b="histories of 3 iterator calls (next, next_back, nth, nth_back with arguments around what is left), vectors of 0..=4 elements and all iterator kinds"),
        dict(h="h_it_hist", p=[5], shards=20, tier="thorough", b="histories of 5 calls"),
        dict(h="h_it_arg", p=[1], shards=24, tier="quick", b="one call with an arbitrary 64-bit argument, then the rest"),
        dict(h="h_it_arg", p=[2], shards=24, tier="thorough", b="two calls with arbitrary 64-bit arguments"),
        dict(h="h_it_long", p=[10], b="vectors of several words, arbitrary content"),
        dict(h="h_it_wavelet", p=[1], shards=32, tier="quick", b="wavelet matrix iterators, one call then the rest"),
        dict(h="h_it_wavelet", p=[2], shards=32, tier="thorough", b="wavelet matrix iterators, two calls then the rest"),
        dict(h="h_it_jump", p=[3], shards=8, b="three words of arbitrary content, arbitrary jumps from both ends and one more"),
        dict(h="h_it_jump", p=[18], shards=8, b="18 words"),
        dict(h="h_it_wm_long", p=[70, 5, 9], shards=8, b="wavelet iterators over 70 elements of 5 bits, two of them free, consumed from both ends in growing steps"),
        dict(h="h_it_wm_long", p=[600, 2, 9], shards=8, b="600 elements"),
        dict(h="h_it_wm_long", p=[70, 64, 9], shards=8, b="70 elements of 64 bits"),
    ]),
    "C06": dict(jobs=[
        dict(h="h_rs_rank", b="vectors of 0..=192 bits, arbitrary content and junk behind the end, every position and every position beyond the end"),
        dict(h="h_rs_rank_all", p=[40], b="40 words of arbitrary content (5 blocks), 8 cut-offs, positions next to every word border"),
        dict(h="h_rs_big_rank", p=[700, 9, 6], b="700 words (5 super-blocks) of fixed irregular background with 6 free bits in one of 6 places, positions around every word border"),
        dict(h="h_rs_big_rank", p=[700, 1, 6], b="the same, all-ones background (largest counters)"),
        dict(h="h_rs_big_rank", p=[700, 5, 6], b="the same, alternating super-blocks"),
        dict(h="h_rs_big_rank", p=[3000, 9, 2], shards=2, b="3000 words (counts beyond 2^16), 2 places"),
        dict(h="h_rs_big_rank", p=[20000, 9, 3], shards=3, steps=400000000, b="1.28 million bits, 3 places, every 43rd word border and all near the free bits"),
        dict(h="h_rs_big_rank", p=[3000, 9, 40], tier="thorough", shards=8, b="3000 words, 40 places"),
        dict(h="h_rs_big_rank", p=[100000, 8, 1], t=90, steps=4000000000, b="6.4 million bits, nearly empty super-blocks, one place"),
        dict(h="h_rs_big_rank", p=[128, 1, 6], b="128 words (8192 bits, also less 17 and 63), 6 places"),
        dict(h="h_rs_big_rank", p=[128, 9, 6], b="128 words (8192 bits, also less 17 and 63), 6 places"),
        dict(h="h_rs_big_rank", p=[256, 9, 6], b="256 words (16384 bits, also less 17 and 63), 6 places"),
        dict(h="h_rs_big_rank", p=[384, 0, 6], b="384 words (24576 bits, also less 17 and 63), 6 places"),
        dict(h="h_rs_big_rank", p=[8, 9, 6], b="8 words (512 bits, also less 17 and 63), 6 places"),
        dict(h="h_rs_big_rank", p=[16, 1, 6], b="16 words (1024 bits, also less 17 and 63), 6 places"),
    ]),
    "C07": dict(jobs=[
        dict(h="h_rs_select", p=[1], shards=24, t=60, tt=400, b="two words, 8 free bits at word borders or spread out, on three backgrounds, 9 lengths, every rank, and every rank beyond"),
        dict(h="h_rs_select_blocks", p=[30, 0], shards=4, b="one super-block"),
        dict(h="h_rs_select_blocks", p=[128, 9], shards=16, b="one full super-block, irregular background, free bits at every block border, ranks around it"),
        dict(h="h_rs_select_blocks", p=[260, 9], shards=8, b="three super-blocks, free bits at every block border"),
        dict(h="h_rs_select_blocks", p=[260, 1], shards=8, b="full background"),
        dict(h="h_rs_big_select", p=[700, 9, 6], shards=12, t=60, b="5 super-blocks, 2 select blocks, free bits at super-block borders, ranks around all super-block and select-block borders"),
        dict(h="h_rs_big_select", p=[3000, 8, 4], shards=8, b="select blocks spanning many nearly empty super-blocks"),
        dict(h="h_rs_big_select", p=[3000, 10, 4], shards=8, b="the complement of it"),
        dict(h="h_rs_big_select", p=[3000, 3, 4], shards=8, b="very sparse: one bit per 16 words"),
        dict(h="h_rs_big_select", p=[3000, 4, 4], shards=8, b="very dense"),
        dict(h="h_rs_big_select", p=[20000, 9, 1], shards=2, t=60, steps=400000000, b="1.28 million bits (157 super-blocks, 157 select blocks), ranks around all their borders"),
        dict(h="h_rs_select", p=[2], shards=24, tier="thorough", tt=400, b="other pairs of free bits"),
        dict(h="h_rs_big_select", p=[9000, 9, 12], shards=24, tier="thorough", tt=400, b="71 super-blocks"),
        dict(h="h_rs_big_select", p=[2100, 6, 4], shards=8, t=60, b="16 super-blocks within one select block"),
        dict(h="h_rs_big_select", p=[2100, 7, 4], shards=8, t=90, b="the complement of it"),
        dict(h="h_rs_select_blocks", p=[128, 1], shards=8, b="exactly 1 super-block(s), background 1"),
        dict(h="h_rs_select_blocks", p=[128, 0], shards=8, b="exactly 1 super-block(s), background 0"),
        dict(h="h_rs_select_blocks", p=[256, 0], shards=8, b="exactly 2 super-block(s), background 0"),
    ]),
    "C08": dict(jobs=[
        dict(h="h_rs_access", p=[3], b="arbitrary content of 3 words with junk, 65 lengths"),
        dict(h="h_rs_get_bits", b="0..=128 bits, arbitrary position and width"),
        dict(h="h_rs_eq", p=[4, 9], shards=16, t=60, b="pairs of 4-word vectors that differ at most in 12 free bits, all comparison functions"),
        dict(h="h_rs_eq", p=[4, 0], shards=16, t=60, b="empty background"),
        dict(h="h_rs_eq", p=[12, 0], shards=4, t=60, tt=300, b="12 words"),
        dict(h="h_rs_eq_big", p=[62502, 3], shards=4, t=60, tt=600, steps=400000000, b="== on more than four million bits (sparse)"),
        dict(h="h_rs_eq_big", p=[62502, 4], shards=4, t=60, tt=600, steps=400000000, b="== on more than four million bits (dense)"),
        dict(h="h_rs_eq", p=[12, 9], shards=16, tier="thorough", tt=600, b="12 words, irregular"),
        dict(h="h_rs_access", p=[40], tier="thorough", b="40 words"),
        dict(h="h_rs_eq_mid", p=[300, 9, 6], shards=6, t=60, b="pairs of 300-word vectors that differ at most in 8 free bits of two words, at 6 places, all comparison functions"),
        dict(h="h_rs_eq_mid", p=[300, 3, 6], shards=6, t=60, b="sparse background"),
        dict(h="h_rs_eq_mid", p=[1000, 4, 3], shards=6, t=60, steps=400000000, b="1000 words, dense background"),
        dict(h="h_rs_access", p=[18], b="18 words"),
    ]),
    "C09": dict(jobs=[
        dict(h="h_rs_iter", p=[3], shards=20, b="vectors of 0..=4 bits, histories of 3 calls"),
        dict(h="h_rs_iter_all", p=[6, 0], b="full enumeration from either end, 6 words"),
        dict(h="h_rs_iter_all", p=[6, 1], b="full enumeration, full background"),
        dict(h="h_rs_big_iter", p=[700, 9, 3, 1], shards=12, b="one call (next, next_back or a jump of 1..17000 from either end) on 700 words with free bits at super-block borders, then count, last or exhaustion"),
        dict(h="h_rs_big_iter", p=[700, 9, 1, 2], shards=4, b="two calls"),
        dict(h="h_rs_big_iter", p=[3000, 8, 2, 1], shards=8, b="over many nearly empty super-blocks"),
        dict(h="h_rs_big_iter", p=[3000, 10, 2, 1], shards=8, b="the complement of it"),
        dict(h="h_rs_iter", p=[4], shards=20, tier="thorough", tt=400, b="histories of 4 calls"),
        dict(h="h_rs_big_iter", p=[700, 9, 4, 2], shards=16, tier="thorough", tt=400, b="two calls, 4 places"),
        dict(h="h_rs_big_iter", p=[20000, 9, 1, 1], shards=4, t=90, steps=4000000000, b="1.28 million bits, one call"),
        dict(h="h_rs_big_iter", p=[128, 1, 3, 1], shards=6, b="exactly 1 super-block(s), background 1, one call"),
        dict(h="h_rs_big_iter", p=[256, 0, 3, 1], shards=6, b="exactly 2 super-block(s), background 0, one call"),
        dict(h="h_rs_big_iter", p=[256, 2, 3, 1], shards=6, b="exactly 2 super-block(s), background 2, one call"),
        dict(h="h_rs_walk", p=[300, 9, 3], shards=8, steps=400000000, b="300 words (background 9) consumed completely from both ends in small and large steps, free bits at 3 places"),
        dict(h="h_rs_walk", p=[300, 5, 3], shards=8, steps=400000000, b="300 words (background 5) consumed completely from both ends in small and large steps, free bits at 3 places"),
        dict(h="h_rs_walk", p=[300, 3, 3], shards=8, steps=400000000, b="300 words (background 3) consumed completely from both ends in small and large steps, free bits at 3 places"),
        dict(h="h_rs_walk", p=[700, 8, 2], shards=8, steps=400000000, b="700 words (background 8) consumed completely from both ends in small and large steps, free bits at 2 places"),
        dict(h="h_rs_walk", p=[256, 1, 2], shards=8, steps=400000000, b="256 words (background 1) consumed completely from both ends in small and large steps, free bits at 2 places"),
        dict(h="h_rs_walk", p=[256, 0, 2], shards=8, steps=400000000, b="256 words (background 0) consumed completely from both ends in small and large steps, free bits at 2 places"),
        dict(h="h_rs_walk", p=[300, 6, 3], shards=8, steps=400000000, b="300 words (background 6) consumed completely from both ends in small and large steps, free bits at 3 places"),
    ]),
    "C10": dict(jobs=[
        dict(h="h_ef_store", p=[4], shards=16, b="0..=4 arbitrary sorted elements (duplicates included) over 16 distances between first and last (0 .. 2^64-1), arbitrary first element"),
        dict(h="h_ef_iter", p=[3, 2], shards=8, b="0..=3 arbitrary elements, histories of 2 iterator calls, both iterators, min and max"),
        dict(h="h_ef_iter", p=[2, 3], shards=8, tier="thorough", b="0..=2 elements, histories of 3 calls"),
        dict(h="h_ef_large", p=[300, 1, 4], b="300 elements, one of them arbitrary between its neighbours, 4 places"),
        dict(h="h_ef_large", p=[300, 4, 4], b="with duplicates"),
        dict(h="h_ef_large", p=[300, 3, 4], b="clustered"),
        dict(h="h_ef_large", p=[1500, 5, 8], shards=4, b="1500 elements, irregular gaps"),
        dict(h="h_ef_store", p=[6], shards=24, tier="thorough", tt=400, b="0..=6 arbitrary elements"),
        dict(h="h_ef_large", p=[20000, 5, 8], shards=8, tier="thorough", tt=400, steps=400000000, b="20000 elements"),
        dict(h="h_ef_huge", p=[70000, 5, 2], steps=4000000000, b="70000 elements with irregular gaps, one of them free, storage and searches next to it and at 40 other places"),
        dict(h="h_ef_huge", p=[300000, 7, 2], steps=4000000000, b="300000 elements in large buckets"),
        dict(h="h_ef_huge_iter", p=[70000, 5, 1], shards=4, steps=4000000000, b="70000 elements iterated completely from either end, and with jumps of up to 30000 from both"),
        dict(h="h_ef_huge_iter", p=[70000, 6, 1], shards=4, steps=4000000000, b="the same with runs of equal elements"),
        dict(h="h_ef_huge", p=[70000, 8, 2], steps=4000000000, b="70000 elements over nearly the whole range of numbers"),
        dict(h="h_ef_huge", p=[3000, 10, 8], shards=2, steps=4000000000, b="two buckets of 900 and 2100 elements far apart"),
        dict(h="h_ef_huge_iter", p=[3000, 8, 3], shards=4, steps=4000000000, b="3000 elements over nearly the whole range of numbers, iterated from either end"),
        dict(h="h_ef_huge_iter", p=[3000, 10, 3], shards=4, steps=4000000000, b="two buckets far apart"),
    ]),
    "C11": dict(jobs=[
        dict(h="h_ef_search", p=[4], shards=16, t=80, b="0..=4 arbitrary sorted elements over 16 universe sizes, 3 offsets, every query value inside and outside the stored range"),
        dict(h="h_ef_bucket", p=[3], b="3 arbitrary elements sharing their upper bits, 4 layouts, every query in the bucket"),
        dict(h="h_ef_bucket", p=[5], b="5 elements (the threshold of the binary search)"),
        dict(h="h_ef_bucket", p=[10], shards=4, b="10 elements (binary search)"),
        dict(h="h_ef_bucket", p=[16], shards=4, b="16 elements"),
        dict(h="h_ef_big_search", p=[100, 1, 3], shards=3, b="100 elements, one arbitrary, queries around it and around 8 other places"),
        dict(h="h_ef_big_search", p=[300, 4, 3], b="300 elements with duplicates"),
        dict(h="h_ef_big_search", p=[120, 2, 2], shards=2, t=60, b="120 elements in runs of 40 duplicates"),
        dict(h="h_ef_big_search", p=[2000, 3, 6], shards=6, tier="thorough", tt=400, b="2000 clustered elements"),
        dict(h="h_ef_bucket", p=[30], shards=4, tier="thorough", tt=400, b="30 elements in a bucket"),
        dict(h="h_ef_search", p=[6], shards=24, tier="thorough", tt=400, b="0..=6 arbitrary elements"),
        dict(h="h_ef_huge", p=[70000, 5, 2], steps=4000000000, b="70000 elements with irregular gaps, one of them free, queries next to it and at 40 other places"),
        dict(h="h_ef_huge", p=[70000, 6, 2], steps=4000000000, b="buckets of 500 elements with runs of up to 230 equal ones"),
        dict(h="h_ef_huge", p=[3000, 6, 16], shards=2, steps=4000000000, b="the same, 16 places"),
        dict(h="h_ef_huge", p=[3000, 7, 16], shards=2, steps=4000000000, b="buckets of 500 different elements"),
        dict(h="h_ef_huge", p=[3000, 2, 16], shards=2, steps=4000000000, b="runs of 40 equal elements"),
        dict(h="h_ef_huge", p=[300000, 7, 2], steps=4000000000, b="300000 elements"),
        dict(h="h_ef_huge", p=[70000, 8, 2], steps=4000000000, b="70000 elements over nearly the whole range of numbers"),
        dict(h="h_ef_huge", p=[3000, 10, 8], shards=2, steps=4000000000, b="two buckets of 900 and 2100 elements far apart"),
    ]),
    "C12": dict(jobs=[
        dict(h="h_sp_list", p=[4], shards=16, t=80, b="0..=4 arbitrary positions over 16 distances up to 2^64-2, every queried position and rank"),
        dict(h="h_sp_bucket", p=[4], b="4 positions sharing their upper bits"),
        dict(h="h_sp_bucket", p=[9], b="9 positions (binary search)"),
        dict(h="h_sp_bits", shards=8, b="built from BitVecs of 9 lengths up to 128 bits with junk, directly and inverted, 3 backgrounds with two free bits at 9 places, every position"),
        dict(h="h_sp_large", p=[100, 1, 3], b="100 positions, one of them arbitrary between its neighbours"),
        dict(h="h_sp_large", p=[300, 4, 3], b="300 positions, dense"),
        dict(h="h_sp_large", p=[300, 3, 3], shards=3, tier="thorough", tt=400, b="300 positions in clusters"),
        dict(h="h_sp_list", p=[6], shards=24, tier="thorough", tt=400, b="0..=6 arbitrary positions"),
        dict(h="h_sp_bucket", p=[30], tier="thorough", tt=400, b="30 positions"),
        dict(h="h_sp_huge", p=[70000, 5, 2], steps=4000000000, b="70000 ones with irregular gaps, one of them free, positions next to it and at 40 other places"),
        dict(h="h_sp_huge", p=[70000, 6, 2], steps=4000000000, b="clusters of 500 ones"),
        dict(h="h_sp_huge", p=[3000, 7, 16], shards=2, steps=4000000000, b="the same, 16 places"),
        dict(h="h_sp_huge", p=[3000, 0, 16], shards=2, steps=4000000000, b="every other bit set"),
        dict(h="h_sp_bits_long", p=[20, 9, 6], shards=4, b="built from a BitVec of 20 words, directly and inverted, two free bits at 6 places"),
        dict(h="h_sp_bits_long", p=[20, 1, 6], shards=4, b="all ones otherwise"),
        dict(h="h_sp_bits_long", p=[20, 0, 6], shards=4, b="empty otherwise"),
        dict(h="h_sp_bits_long", p=[1200, 3, 3], shards=3, steps=4000000000, b="1200 words, sparse"),
        dict(h="h_sp_bits_long", p=[1200, 9, 3], shards=3, steps=4000000000, b="1200 words, irregular"),
        dict(h="h_sp_huge", p=[3000, 8, 4], shards=2, steps=4000000000, b="3000 ones over nearly the whole range of positions"),
    ]),
    "C13": dict(jobs=[
        dict(h="h_rmq_bin", p=[6], shards=7, b="0..=6 arbitrary 64-bit numbers, every range"),
        dict(h="h_rmq_bin_range", shards=10, b="ten kinds of range expressions with arbitrary bounds on 1..=3 arbitrary numbers; bounds around the block border on 130 numbers"),
        dict(h="h_rmq_bin_large", p=[20, 9, 9], shards=3, b="20 numbers (background 9), two of them arbitrary at 9 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_bin_large", p=[33, 9, 9], shards=3, b="33 numbers (background 9), two of them arbitrary at 9 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_bin_large", p=[33, 2, 6], shards=3, b="33 numbers (background 2), two of them arbitrary at 6 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_bin_large", p=[64, 9, 6], shards=3, b="64 numbers (background 9), two of them arbitrary at 6 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_bin_large", p=[65, 0, 6], shards=3, b="65 numbers (background 0), two of them arbitrary at 6 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_bin_large", p=[65, 1, 6], shards=3, b="65 numbers (background 1), two of them arbitrary at 6 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_bin_large", p=[300, 9, 6], shards=3, b="300 numbers (background 9), two of them arbitrary at 6 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_bin", p=[7], shards=8, tier="thorough", tt=800, b="0..=7 arbitrary numbers"),
        dict(h="h_rmq_bin_large", p=[1500, 9, 18], shards=18, tier="thorough", tt=800, steps=400000000, b="1500 numbers"),
        dict(h="h_rmq_bin_huge", p=[140000, 9, 3], shards=3, t=120, steps=4000000000, b="140000 numbers, one of them the minimum or not"),
        dict(h="h_rmq_bin_huge", p=[70000, 0, 3], shards=3, t=120, steps=4000000000, b="70000 ascending numbers"),
        dict(h="h_rmq_bin_huge", p=[200000, 9, 6], shards=6, tier="thorough", tt=400, steps=4000000000, b="200000 numbers, 6 places"),
    ]),
    "C14": dict(jobs=[
        dict(h="h_rmq_fast", p=[6], shards=7, b="0..=6 arbitrary 64-bit numbers, every range"),
        dict(h="h_rmq_fast_range", shards=10, b="ten kinds of range expressions with arbitrary bounds on 1..=3 arbitrary numbers; bounds around the block border on 130 numbers"),
        dict(h="h_rmq_fast_large", p=[130, 9, 9], shards=3, b="130 numbers (background 9), two of them arbitrary at 9 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_fast_large", p=[400, 9, 9], shards=3, b="400 numbers (background 9), two of them arbitrary at 9 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_fast_large", p=[700, 9, 9], shards=3, b="700 numbers (background 9), two of them arbitrary at 9 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_fast_large", p=[400, 0, 3], shards=3, t=60, b="400 numbers (background 0), two of them arbitrary at 3 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_fast_large", p=[400, 1, 3], shards=3, t=150, b="400 numbers (background 1), two of them arbitrary at 3 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_fast_large", p=[400, 2, 6], shards=3, b="400 numbers (background 2), two of them arbitrary at 6 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_fast_large", p=[400, 4, 3], shards=3, t=150, b="400 numbers (background 4), two of them arbitrary at 3 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_fast_large", p=[400, 5, 3], shards=3, t=60, b="400 numbers (background 5), two of them arbitrary at 3 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_fast_large", p=[2500, 9, 3], shards=3, t=120, steps=400000000, b="2500 numbers (20 blocks), two of them arbitrary at 3 pairs of places, ranges around them and around block borders"),
        dict(h="h_rmq_fast", p=[7], shards=8, tier="thorough", tt=800, b="0..=7 arbitrary numbers"),
        dict(h="h_rmq_fast_large", p=[1500, 9, 18], shards=18, tier="thorough", tt=800, steps=400000000, b="1500 numbers"),
        dict(h="h_rmq_fast_huge", p=[140000, 9, 3], shards=3, t=120, steps=4000000000, b="140000 numbers (1094 blocks), one of them the minimum or not"),
        dict(h="h_rmq_fast_huge", p=[70000, 1, 3], shards=3, t=120, steps=4000000000, b="70000 descending numbers"),
    ]),
    "C15": dict(jobs=[
        dict(h="h_wm_store", p=[5, 2], shards=4, b="0..=5 arbitrary 2-bit elements, four constructors, every index and every index beyond"),
        dict(h="h_wm_store", p=[3, 3], shards=4, b="0..=3 arbitrary 3-bit elements"),
        dict(h="h_wm_store", p=[7, 1], shards=4, b="0..=7 arbitrary bits"),
        dict(h="h_wm_store_wide", p=[9], shards=8, b="3 elements of 9 bits, prefix counting, free bits at both ends and in the middle"),
        dict(h="h_wm_store_wide", p=[64], shards=8, b="3 elements of 64 bits, free bits at both ends and the middle"),
        dict(h="h_wm_store_wide", p=[65], shards=8, b="65 bits (no 64-bit form)"),
        dict(h="h_wm_store_wide", p=[130], shards=8, tier="thorough", b="130 bits"),
        dict(h="h_wm_store_big", p=[600, 3, 9, 3], shards=12, b="600 elements of 3 bits, two of them arbitrary at 3 pairs of places, all constructors"),
        dict(h="h_wm_store_big", p=[70, 5, 2, 2], shards=8, t=60, b="70 elements of 5 bits"),
        dict(h="h_wm_reject", b="lengths that are no multiple of the width, widths over 64 bits, empty matrices"),
        dict(h="h_wm_store", p=[4, 3], shards=20, tier="thorough", tt=400, b="0..=4 arbitrary 3-bit elements"),
        dict(h="h_wm_store_big", p=[9000, 2, 9, 6], shards=24, tier="thorough", tt=400, steps=400000000, b="9000 elements of 2 bits"),
        dict(h="h_wm_store_big", p=[70000, 2, 6, 1], shards=4, t=120, steps=4000000000, b="70000 elements, nearly all equal (counts beyond 2^16), one free"),
        dict(h="h_wm_store_big", p=[140000, 2, 9, 1], shards=4, tier="thorough", tt=400, steps=4000000000, b="140000 irregular elements"),
    ]),
    "C16": dict(jobs=[
        dict(h="h_wm_rank", p=[4, 2], shards=10, b="0..=4 arbitrary 2-bit elements, arbitrary symbol, every range, offset and rank, both forms, checked and unchecked"),
        dict(h="h_wm_rank", p=[2, 3], shards=6, b="0..=2 arbitrary 3-bit elements"),
        dict(h="h_wm_rank", p=[6, 1], shards=6, b="0..=6 arbitrary bits"),
        dict(h="h_wm_rank_wide", p=[64], shards=4, t=120, b="3 elements and a symbol of 64 bits, equal up to 2 free bits each"),
        dict(h="h_wm_rank_wide", p=[65], shards=4, t=120, b="65 bits"),
        dict(h="h_wm_rank_wide", p=[5], shards=4, b="5 bits"),
        dict(h="h_wm_rank_big", p=[600, 2, 9, 3], shards=3, b="600 elements, two of them arbitrary, arbitrary symbol, ranges and offsets around them and around block borders"),
        dict(h="h_wm_rank_big", p=[70, 3, 4, 2], shards=4, b="70 elements of 3 bits"),
        dict(h="h_wm_rank_arg", shards=4, b="arbitrary 64-bit range bounds, offsets and ranks; symbols of every other width up to 4"),
        dict(h="h_wm_reject", b="empty matrices"),
        dict(h="h_wm_rank", p=[3, 3], shards=8, tier="thorough", tt=400, b="0..=3 arbitrary 3-bit elements"),
        dict(h="h_wm_rank_big", p=[9000, 2, 9, 6], shards=6, tier="thorough", tt=400, steps=400000000, b="9000 elements"),
        dict(h="h_wm_rank_big", p=[70000, 2, 6, 1], t=120, steps=4000000000, b="70000 elements, nearly all equal (counts beyond 2^16), one free"),
    ]),
    "C17": dict(jobs=[
        dict(h="h_wm_order", p=[4, 2], shards=16, b="1..=4 arbitrary 2-bit elements, every range and rank, arbitrary symbol, both forms, checked and unchecked"),
        dict(h="h_wm_order", p=[3, 3], shards=12, b="1..=3 arbitrary 3-bit elements"),
        dict(h="h_wm_order", p=[5, 1], shards=4, b="1..=5 arbitrary bits"),
        dict(h="h_wm_order_wide", p=[64], shards=4, t=120, b="3 elements and a symbol of 64 bits, equal up to 2 free bits each"),
        dict(h="h_wm_order_wide", p=[65], shards=4, t=120, b="65 bits"),
        dict(h="h_wm_order_big", p=[600, 2, 9, 3], shards=6, b="600 elements, two of them arbitrary, ranges around them, ranks around theirs, arbitrary symbol"),
        dict(h="h_wm_order_big", p=[70, 3, 4, 3], shards=6, b="70 elements of 3 bits"),
        dict(h="h_wm_order_arg", shards=4, b="arbitrary 64-bit range bounds and ranks"),
        dict(h="h_wm_reject", b="empty matrices"),
        dict(h="h_wm_rank_arg", shards=4, b="symbols of the wrong width"),
        dict(h="h_wm_order", p=[5, 2], shards=20, tier="thorough", tt=400, b="1..=5 arbitrary 2-bit elements"),
        dict(h="h_wm_order_big", p=[2000, 3, 9, 6], shards=12, tier="thorough", tt=400, steps=400000000, b="2000 elements"),
        dict(h="h_wm_order_big", p=[70000, 2, 6, 1], t=120, steps=4000000000, b="70000 elements, nearly all equal (counts beyond 2^16), one free"),
    ]),
    "C18": dict(jobs=[
        dict(h="h_bp_search_rel", p=[8, 2], shards=8, b="arbitrary sequences of 1..=8 parentheses (balanced or not), every start, both directions, arbitrary relative excess, block size 2"),
        dict(h="h_bp_search_rel", p=[8, 3], shards=8, b="block size 3"),
        dict(h="h_bp_search_rel", p=[7, 1], shards=7, b="block size 1"),
        dict(h="h_bp_search", p=[10, 4], shards=22, b="arbitrary sequences of 0..=10 parentheses, every start and relative excess, close, open, enclose, excess, block size 4"),
        dict(h="h_bp_search", p=[10, 2], shards=22, b="block size 2"),
        dict(h="h_bp_search", p=[9, 5], shards=20, b="block size 5"),
        dict(h="h_bp_search", p=[9, 1], shards=20, b="block size 1"),
        dict(h="h_bp_lookup", p=[8, 8, 8, 24], shards=12, t=60, b="an arbitrary byte between fixed ones, searched across from both sides, block size 8, arbitrary relative excess"),
        dict(h="h_bp_lookup", p=[12, 8, 6, 24], shards=12, t=60, b="6 arbitrary parentheses at the start of a byte, block size 12"),
        dict(h="h_bp_lookup", p=[16, 20, 6, 48], shards=12, t=80, var="u16", b="6 arbitrary parentheses inside a 16-bit lookup block, block size 16, 16-bit tables"),
        dict(h="h_bp_search", p=[8, 4], shards=18, var="u16", b="16-bit tables"),
        dict(h="h_bp_search_big", p=[60, 12, 4, 8], shards=4, var="u16", b="60 parentheses, block size 12, 16-bit tables"),
        dict(h="h_bp_search_big", p=[200, 16, 2, 8], shards=4, var="u16", b="200 parentheses, block size 16, 16-bit tables"),
        dict(h="h_bp_search_big", p=[60, 12, 4, 8], shards=4, b="60 parentheses with 4 free ones at 8 places, block size 12"),
        dict(h="h_bp_search_big", p=[60, 20, 2, 8], shards=4, b="block size 20"),
        dict(h="h_bp_search_big", p=[100, 8, 3, 8], shards=4, b="100 parentheses, block size 8"),
        dict(h="h_bp_search_big", p=[100, 5, 0, 8], shards=4, b="a deep chain, block size 5"),
        dict(h="h_bp_search_big", p=[90, 3, 1, 8], shards=4, b="a root with leaves, block size 3"),
        dict(h="h_bp_search_big", p=[400, 64, 4, 8], shards=8, b="400 parentheses, block size 64"),
        dict(h="h_bp_search_big", p=[2500, 512, 4, 4], shards=8, b="2500 parentheses, default block size"),
        dict(h="h_bp_search_big", p=[1500, 4, 2, 4], shards=4, t=120, steps=400000000, b="1500 parentheses, block size 4 (375 leaves in the min-max tree)"),
        dict(h="h_bp_search_big", p=[3000, 8, 4, 4], shards=4, tier="thorough", tt=300, steps=400000000, b="3000 parentheses, block size 8 (375 leaves)"),
        dict(h="h_bp_search_big", p=[1500, 7, 0, 4], shards=4, t=120, steps=400000000, b="a chain of depth 750, block size 7 (215 leaves)"),
        dict(h="h_bp_search_arg", p=[5, 2], b="every start beyond the end, every relative excess beyond the length, empty trees"),
        dict(h="h_bp_convert", p=[8], shards=6, b="the sequence comes back unchanged, 0..=8 parentheses"),
        dict(h="h_bp_search_rel", p=[10, 2], shards=20, tier="thorough", tt=400, b="1..=10 parentheses"),
        dict(h="h_bp_search", p=[13, 4], shards=28, tier="thorough", tt=400, b="0..=13 parentheses"),
        dict(h="h_bp_lookup", p=[512, 8, 8, 24], shards=12, tier="thorough", tt=400, b="default block size"),
        dict(h="h_bp_lookup", p=[16, 4, 8, 40], shards=12, tier="thorough", tt=400, b="an arbitrary stretch across lookup blocks"),
        dict(h="h_bp_search_big", p=[9000, 512, 2, 8], shards=16, tier="thorough", tt=400, steps=400000000, b="9000 parentheses, default block size"),
        dict(h="h_bp_huge", p=[80000, 512, 4, 2], shards=2, t=120, steps=4000000000, b="80000 parentheses with one free pair, searches at some 20 places"),
        dict(h="h_bp_huge", p=[280000, 512, 0, 1], t=150, steps=4000000000, b="a chain of depth 140000"),
        dict(h="h_bp_huge", p=[80000, 512, 1, 1], t=120, steps=4000000000, b="a root with 40000 leaves"),
        dict(h="h_bp_huge", p=[20000, 4, 4, 3], shards=3, t=120, steps=4000000000, b="block size 4, 5000 leaves in the min-max tree"),
        dict(h="h_bp_huge", p=[20000, 5, 2, 3], shards=3, t=120, steps=4000000000, b="block size 5"),
    ]),
    "C19": dict(jobs=[
        dict(h="h_bp_nav", p=[7, 2], shards=8, b="every tree of 0..=7 nodes, every node, pair of nodes and level, block size 2"),
        dict(h="h_bp_nav", p=[7, 4], shards=8, b="block size 4"),
        dict(h="h_bp_nav", p=[7, 512], shards=8, b="default block size"),
        dict(h="h_bp_nav", p=[6, 5], shards=7, b="block size 5"),
        dict(h="h_bp_nav", p=[6, 8], shards=7, var="u16", b="block size 8, 16-bit tables"),
        dict(h="h_bp_nav_big", p=[100, 8, 3, 8], shards=4, b="a tree of 50 nodes with 4 free parentheses at 8 places, nodes near them and near block borders"),
        dict(h="h_bp_nav_big", p=[200, 16, 2, 8], shards=4, b="100 nodes, block size 16"),
        dict(h="h_bp_nav_big", p=[300, 12, 4, 8], shards=4, b="150 nodes, block size 12"),
        dict(h="h_bp_nav_big", p=[300, 20, 0, 8], shards=4, b="a deep chain, block size 20"),
        dict(h="h_bp_nav_big", p=[300, 64, 1, 8], shards=4, b="a root with many leaves"),
        dict(h="h_bp_nav_big", p=[200, 16, 4, 8], shards=4, var="u16", b="16-bit tables"),
        dict(h="h_bp_nav_big", p=[2500, 512, 2, 8], shards=8, b="1250 nodes, default block size"),
        dict(h="h_bp_nav_big", p=[2500, 512, 4, 8], shards=8, b="1250 nodes, irregular"),
        dict(h="h_bp_nav_big", p=[1500, 4, 2, 4], shards=4, t=120, steps=400000000, b="750 nodes, block size 4 (375 leaves)"),
        dict(h="h_bp_unbalanced", p=[8, 3], shards=9, b="no navigation panics on any sequence of 0..=8 parentheses"),
        dict(h="h_bp_search_arg", p=[4, 2], b="empty trees"),
        dict(h="h_bp_nav", p=[9, 2], shards=10, tier="thorough", tt=400, b="every tree of 0..=9 nodes"),
        dict(h="h_bp_nav", p=[8, 3], shards=9, tier="thorough", tt=400, b="every tree of 0..=8 nodes, block size 3"),
        dict(h="h_bp_huge", p=[80000, 512, 4, 2], shards=2, t=120, steps=4000000000, b="80000 parentheses with one free pair, navigation at some 20 places"),
        dict(h="h_bp_huge", p=[280000, 512, 0, 1], t=150, steps=4000000000, b="a chain of depth 140000"),
        dict(h="h_bp_huge", p=[80000, 512, 1, 1], t=120, steps=4000000000, b="a root with 40000 leaves"),
        dict(h="h_bp_huge", p=[20000, 4, 4, 3], shards=3, t=120, steps=4000000000, b="block size 4, 5000 leaves in the min-max tree"),
        dict(h="h_bp_huge", p=[20000, 5, 2, 3], shards=3, t=120, steps=4000000000, b="block size 5"),
    ]),
    "C20": dict(jobs=[
        dict(h="h_bp_build", p=[9, 4], shards=10, b="every history of 0..=9 builder calls"),
        dict(h="h_bp_iter", p=[7, 2], shards=8, b="every forest of 0..=7 nodes, all iterators from every node, block size 2"),
        dict(h="h_bp_iter", p=[7, 512], shards=8, b="default block size"),
        dict(h="h_bp_iter", p=[6, 5], shards=7, b="block size 5"),
        dict(h="h_bp_iter", p=[6, 8], shards=7, var="u16", b="16-bit tables"),
        dict(h="h_bp_iter_big", p=[100, 8, 3, 8], shards=4, b="50 nodes with 4 free parentheses"),
        dict(h="h_bp_iter_big", p=[300, 12, 1, 8], shards=4, b="a root with 149 leaves"),
        dict(h="h_bp_iter_big", p=[2500, 512, 4, 4], shards=8, b="1250 nodes, default block size"),
        dict(h="h_bp_search_arg", p=[4, 2], b="empty trees"),
        dict(h="h_bp_build", p=[14, 4], shards=15, tier="thorough", tt=400, b="every history of 0..=14 builder calls"),
        dict(h="h_bp_iter", p=[10, 2], shards=11, tier="thorough", tt=400, b="every forest of 0..=10 nodes"),
        dict(h="h_bp_build_big", p=[300, 8, 4, 8], shards=4, b="histories of 300 builder calls, four of them free at 8 places"),
        dict(h="h_bp_build_big", p=[301, 512, 9, 4], shards=2, b="only openings otherwise"),
        dict(h="h_bp_build_big", p=[70000, 512, 0, 1], steps=4000000000, b="a chain of 35000 nodes"),
        dict(h="h_bp_build_big", p=[70000, 512, 9, 1], steps=4000000000, b="70000 openings"),
        dict(h="h_bp_iter_big", p=[80000, 512, 4, 1], t=120, steps=4000000000, b="40000 nodes"),
        dict(h="h_bp_iter_big", p=[140000, 512, 1, 1], t=120, steps=4000000000, b="a root with 70000 leaves"),
    ]),
    "C21": dict(jobs=[
        dict(h="h_sd_bits", var="serde", b="bit vectors of 0..=128 bits with junk behind the end; written and read back by position and by field name"),
        dict(h="h_sd_rs", var="serde", b="rank/select vectors of 0..=192 bits"),
        dict(h="h_sd_rs_big", p=[700, 9], var="serde", b="a rank/select vector of 5 super-blocks and 2 select blocks with free bits, all super-block and select tables compared by queries"),
        dict(h="h_sd_rs_big", p=[2600, 9], var="serde", b="the same with 166400 bits"),
        dict(h="h_sd_big", p=[1500], shards=7, var="serde", b="large Elias-Fano (two spreads), sparse, RMQ, wavelet and tree structures with free values at one place, queries at 24 spots compared with the original"),
        dict(h="h_sd_big", p=[20000], shards=7, steps=400000000, var="serde", b="the same with 20000 elements"),
        dict(h="h_sd_ef", var="serde", b="Elias-Fano vectors of 0..=3 arbitrary elements"),
        dict(h="h_sd_sparse", var="serde", b="sparse vectors of 0..=2 ones"),
        dict(h="h_sd_rmq", var="serde", b="both RMQ structures, 2 and 140 elements, two of them arbitrary"),
        dict(h="h_sd_wm", var="serde", b="wavelet matrices with free symbols"),
        dict(h="h_sd_bp", var="serde", b="trees with free parentheses"),
    ]),
    "C22": dict(jobs=[
        dict(h="h_tot_bv", shards=8, b="bit vectors of 0..=130 bits (8 lengths), every checked function, every pair of 64-bit arguments"),
        dict(h="h_tot_mask", b="masked views of the same"),
        dict(h="h_tot_rs", b="rank/select vectors of 0..=20000 bits (12 lengths), arguments beyond the end (those inside: C06-C09)"),
        dict(h="h_tot_ef", b="Elias-Fano vectors: empty, one arbitrary element, ends of the value range, repetitions, clusters; every argument"),
        dict(h="h_tot_sp", b="sparse vectors of every length, every argument"),
        dict(h="h_tot_wm", shards=6, b="wavelet matrices of 0..=3 elements and 1..=64 bits, every range (reversed ones too), rank and offset"),
        dict(h="h_tot_wm_bits", shards=4, b="the same for bit vector symbols, 3..=70 bits, also symbols of other widths"),
        dict(h="h_tot_bp", p=[2], shards=15, b="every parenthesis sequence of 0, 1, 3, 4 and one of 40, block size 2; every index, relative excess and level; navigation from every opening parenthesis"),
        dict(h="h_tot_bp", p=[512], shards=15, b="default block size"),
        dict(h="h_tot_bp", p=[8], shards=15, var="u16", b="16-bit tables"),
        dict(h="h_tot_bp", p=[1], shards=15, tier="thorough", b="block size 1"),
        dict(h="h_tot_it", b="element iterators, every argument beyond the end"),
    ]),
    "C23": dict(jobs=[
        dict(h="h_bs_small", p=[11], var="simd", b="bit-set iterators: every vector of 0..=11 bits"),
        dict(h="h_bs_words", p=[0, 4], var="simd", b="bit-set iterators: every length 0..=130, 8 free bits around the end, empty background, junk behind the end"),
        dict(h="h_bs_words", p=[1, 4], var="simd", b="full background"),
        dict(h="h_bs_words", p=[9, 4], var="simd", b="irregular background"),
        dict(h="h_bs_big", p=[140, 9], var="simd", b="bit-set iterators over 8957 bits, free bits at a chunk border"),
        dict(h="h_bs_big", p=[140, 0], var="simd", b="empty background"),
        dict(h="h_bs_big", p=[140, 1], var="simd", b="full background"),
        dict(h="h_rs_rank", var="simd", b="rank, 0..=192 bits"),
        dict(h="h_rs_big_rank", p=[700, 9, 6], var="simd", b="rank over 5 super-blocks"),
        dict(h="h_rs_select", p=[1], shards=24, t=60, tt=400, var="simd", b="select, two words with 8 free bits, every rank"),
        dict(h="h_rs_select_blocks", p=[128, 9], shards=4, var="simd", b="select in the last super-block (no vector comparison there)"),
        dict(h="h_rs_select_blocks", p=[260, 9], shards=8, var="simd", b="select in full super-blocks (vector comparison of the block counters), free bits at every block border, ranks around it"),
        dict(h="h_rs_select_blocks", p=[260, 0], shards=8, var="simd", b="empty background"),
        dict(h="h_rs_select_blocks", p=[260, 1], shards=8, var="simd", b="full background"),
        dict(h="h_rs_big_select", p=[700, 9, 6], shards=12, var="simd", b="select over 5 super-blocks and 2 select blocks"),
        dict(h="h_rs_big_select", p=[3000, 8, 4], shards=8, var="simd", b="select over many nearly empty super-blocks"),
        dict(h="h_rs_big_select", p=[3000, 10, 4], shards=8, var="simd", b="the complement of it"),
        dict(h="h_rs_iter", p=[3], shards=20, var="simd", b="select iterators, vectors of 0..=4 bits, histories of 3 calls"),
        dict(h="h_rs_big_iter", p=[700, 9, 3, 1], shards=4, var="simd", b="select iterators over 700 words"),
        dict(h="h_tot_rs", var="simd", b="arguments beyond the end"),
        dict(h="h_rs_big_select", p=[3000, 3, 4], shards=8, tier="thorough", var="simd", b="very sparse"),
        dict(h="h_rs_big_select", p=[3000, 4, 4], shards=8, tier="thorough", var="simd", b="very dense"),
        dict(h="h_rs_big_select", p=[9000, 9, 12], shards=24, tier="thorough", tt=400, var="simd", b="71 super-blocks"),
        dict(h="h_bs_small", p=[16], tier="thorough", var="simd", b="every vector of 0..=16 bits"),
        dict(h="h_rs_select_blocks", p=[120, 9], shards=4, var="simd", b="15 blocks in the last super-block"),
        dict(h="h_rs_select_blocks", p=[248, 9], shards=8, var="simd", b="15 blocks in the last super-block, a full one before it"),
        dict(h="h_rs_select_blocks", p=[248, 1], shards=8, var="simd", b="full background"),
        dict(h="h_rs_select_blocks", p=[256, 9], shards=8, var="simd", b="two exactly full super-blocks"),
        dict(h="h_rs_select_blocks", p=[240, 0], shards=8, var="simd", b="14 blocks in the last super-block"),
        dict(h="h_rs_big_select", p=[20000, 9, 1], shards=2, t=150, steps=4000000000, var="simd", b="1.28 million bits"),
        dict(h="h_rs_walk", p=[300, 9, 3], shards=8, steps=400000000, var="simd", b="select iterators consumed completely from both ends, 300 words"),
    ]),
}

NA = {}
