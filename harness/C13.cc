// Text search, splitting and affix operations match their definitions.
// BOUND: every valid haystack of up to 3 code units (quick; thorough 4) and needle of up to 2 (thorough 3) in UTF-8, UTF-16, UTF-32, Latin-1, ASCII and WTF-8, the same or mixed; every rune; every range of runes as a predicate; every order of taking pieces from either end; for malformed input of the same sizes, bounds and termination only
// ORACLE: the naive definition over the runes of an independent decoder; pieces are compared as subranges of the haystack, which lives in a buffer of exactly its size
#include "search.h"
constexpr size_t H = VPQ(3, 4), N = VPQ(2, 3);
VP_ENTRY(utf8) { strings<U8, U8>(H, N); }
VP_ENTRY(utf16) { strings<U16, U16>(H, N); }
VP_ENTRY(utf32) { strings<U32, U32>(H, N); }
VP_ENTRY(latin1) { strings<L1, L1>(H, N); }
VP_ENTRY(ascii) { strings<AS, AS>(H, N); }
VP_ENTRY(wtf8) { strings<W8, W8>(H, N); }
VP_ENTRY(utf8_in_latin1) { strings<L1, U8>(H, N); }
VP_ENTRY(latin1_in_utf8) { strings<U8, L1>(H, N); }
VP_ENTRY(utf16_in_utf8) { strings<U8, U16>(VPQ(3, 4), N); }
VP_ENTRY(utf8_in_utf16) { strings<U16, U8>(VPQ(2, 3), VPQ(3, 4)); }
VP_ENTRY(utf32_in_utf16) { strings<U16, U32>(VPQ(3, 4), N); }
VP_ENTRY(utf8_in_utf32) { strings<U32, U8>(H, VPQ(3, 4)); }
VP_ENTRY(ascii_in_utf8) { strings<U8, AS>(H, N); }
VP_ENTRY(wtf8_in_utf8) { strings<U8, W8>(H, N); }
VP_ENTRY(split_utf8) { split_strings<U8, U8>(H, N); }
VP_ENTRY(split_utf16) { split_strings<U16, U16>(H, N); }
VP_ENTRY(split_latin1_by_utf8) { split_strings<L1, U8>(H, N); }
VP_ENTRY(split_utf8_by_utf16) { split_strings<U8, U16>(VPQ(2, 4), N); }
VP_ENTRY(split_utf16_by_utf32) { split_strings<U16, U32>(H, N); }
VP_ENTRY(rune_utf8) { by_rune<U8>(VPQ(3, 4)); }
VP_ENTRY(rune_utf16) { by_rune<U16>(VPQ(2, 4)); }
VP_ENTRY(rune_utf32) { by_rune<U32>(VPQ(2, 3)); }
VP_ENTRY(rune_latin1) { by_rune<L1>(VPQ(2, 4)); }
VP_ENTRY(rune_ascii) { by_rune<AS>(VPQ(2, 3)); }
VP_ENTRY(rune_wtf8) { by_rune<W8>(VPQ(3, 4)); }
VP_ENTRY(predicate_utf8) { by_predicate<U8>(VPQ(3, 4)); }
VP_ENTRY(predicate_utf16) { by_predicate<U16>(VPQ(3, 4)); }
VP_ENTRY(predicate_latin1) { by_predicate<L1>(VPQ(3, 4)); }
VP_ENTRY(malformed_utf8) { malformed<U8, U8>(H, N); }
VP_ENTRY(malformed_utf16) { malformed<U16, U16>(H, N); }
VP_ENTRY(malformed_mixed) { malformed<U8, U16>(VPQ(2, 3), VPQ(2, 3)); }
VP_ENTRY(malformed_mixed16) { malformed<U16, U8>(VPQ(2, 3), VPQ(2, 3)); }
VP_ENTRY(malformed_latin1) { malformed<L1, U8>(H, N); }
