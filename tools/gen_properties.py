#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

NS = "src/nominalstring.rs"
p("C01", "A NominalString behaves like plain text under every history of operations",
  "For every sequence of appends (one character or a string), prepends, edits through the mutable text view, clones and conversions, starting from any constructor (forward, reverse, from text, from a character, from an owned String), a NominalString's content, length, equality, ordering, Display output and conversion to String are exactly those of an ordinary string given the same operations. The forward and the reverse constructor are indistinguishable by content. A string built in place stays inline for as long as it holds at most 62 bytes and moves to the heap on the first operation that takes it beyond 62 bytes, losing, duplicating or reordering nothing.",
  ["histories", "inputs"],
  "All operation histories over 1-4 byte characters and strings of every length around the 62-byte limit, from every constructor and every fill level, in both fill directions.",
  "The existing tests push at most four ASCII characters in a row and cross the capacity limit only from one full forward buffer; the reverse buffer is never filled, never overflowed and never sees multi-byte characters by those tests.",
  [NS],
  [("inline buffer with a length byte whose top bit is the fill direction", NS + " InlineString"),
   ("spill to the heap when the new length exceeds the inline capacity", NS + " MaybeInline::push/push_str/push_front"),
   ("comparison and formatting delegate to the text view", NS + " PartialEq/Ord/Display impls")],
  [{"name": "length", "meaning": "number of initialised bytes and fill direction", "where": NS},
   {"name": "bytes", "meaning": "62 possibly uninitialised bytes", "where": NS}],
  ["NominalString::try_push", "NominalString::try_push_str", "NominalString::try_push_front", "Deref<Target = str>", "is_inline"])

p("C02", "No safe use of the crate reads uninitialised bytes or goes out of bounds",
  "No sequence of calls to the safe public interface reads a byte of a nominal string that was never written, touches memory outside it, leaves an invalid UTF-8 text view, or causes any other undefined behaviour. This holds for both fill directions, at every fill level from empty to full, across the move to the heap, and for strings produced by every formatting system.",
  ["histories", "inputs"],
  "All operations at every reachable (storage, direction, fill level) state of the string, with and without heap support, plus a label of every system and every overflow shape.",
  "A unit test only sees the resulting text; reading stale or uninitialised memory usually yields the right bytes by luck, and the few tests that exist reach only a handful of the roughly 130 buffer states.",
  [NS],
  [("unsafe slices limited to the initialised range", NS + " as_bytes/as_bytes_mut/as_str"),
   ("raw copy into the uninitialised tail", NS + " InlineString::push_str"),
   ("in-place shifting of the buffer", NS + " InlineString::push/push_front")],
  [{"name": "length", "meaning": "which bytes are initialised", "where": NS}],
  ["every safe method of NominalString under an interpreter that tracks initialisation and bounds"])

D = "src/digital.rs"
p("C03", "Decimal and hexadecimal systems write the exact positional numeral",
  "For every unsigned integer of every supported width, each digit system that has a zero (the western, Arabic, Persian/Urdu, Indic, South-East Asian, Mongolian, Tibetan and CJK decimal systems, and upper- and lowercase hexadecimal) produces exactly the standard positional numeral of that value in its own script's digits: most significant digit first, no leading zeros, zero as the single zero digit. Formatting with these systems never fails.",
  ["inputs", "configurations"],
  "All values of all six integer widths, for each of the 22 systems.",
  "The tests format three decimal values and two hexadecimal ones; no other script's digit table, no value of 64 or 128 bits and no value near a power of the base is touched.",
  [D],
  [("repeated division pushing digits at the front", D + " blanket NominalSystem impl for DigitCollection"),
   ("per-script digit tables", D + " impl_digit_set! invocations"),
   ("hexadecimal as the first 16 symbols of decimal digits chained with letters", D + " HexUpper/HexLower")],
  None, ["try_to_nominal / try_format_nominal"])

p("C04", "Alphabet systems enumerate all words in order with no gap or repeat",
  "Each alphabet system (Latin, Greek, Hiragana, Katakana, both Iroha orders, Hangeul Jamo and Hangeul syllables) maps 0, 1, 2, ... to the sequence of all words over its alphabet, shortest first and alphabetically within one length (a, b, ..., z, aa, ab, ...), for every value of every supported width. Counted from one, the value n gets the word that n-1 gets by default, and 0 is refused with the no-zero-symbol error.",
  ["inputs", "configurations"],
  "All values of all six integer widths, for each of the 10 alphabets, zero-based and one-based.",
  "The tests look at six values; carries past two letters, the other nine alphabets, one-based counting beyond 27 and values near the top of a width are never exercised.",
  [D],
  [("bijective numeration with a special first digit", D + " blanket NominalSystem impl"),
   ("one-based adaptor", D + " OneBased"), ("alphabet tables", D + " impl_digit_set! invocations")],
  None, ["try_to_nominal on the alphabet and on alphabet.one_based()"])

E = "src/enumerated.rs"
p("C05", "Fixed symbol sets give each position its own symbol and stop at the end",
  "Circled numbers cover exactly 0 to 50, double-circled numbers exactly 1 to 10, the heavenly stems exactly 1 to 10 and the earthly branches exactly 1 to 12, each value getting its own symbol in the traditional order; the same holds for any user-supplied enumerated set or fixed-length digit collection over its own range. Past the end, stems, branches and any fixed collection with a declared fallback produce the entire number in the fallback system (CJK decimal for the two built-in ones), and sets without a fallback return the out-of-bounds error carrying the value. Zero in a set without a zero symbol is the no-zero-symbol error, and no value, however large, wraps around to a symbol.",
  ["inputs", "configurations"],
  "All values of all six widths, for the four built-in sets and for user-supplied sets of every small size, with and without zero, with each kind of fallback.",
  "No existing test formats any of these four systems or any user-supplied set; the preview tables sample about a dozen values of each.",
  [E, D],
  [("bounds-checked table lookup", E + " EnumeratedSet"), ("fixed-set range test and fallback", D + " blanket NominalSystem impl"),
   ("stem and branch tables", D + " CjkHeavenlyStem/CjkEarthlyBranch")],
  None, ["try_to_nominal / try_format_nominal"])

A = "src/additive.rs"
p("C06", "Additive systems write the exact greedy decomposition or report failure",
  "For every value, the Armenian, Georgian, Japanese and Korean (Hangeul and Hanja, formal and informal) systems write the symbols of their traditional tables from the largest value down, each used as often as it still fits, so that the symbols' values add up to exactly the number; values beyond the table repeat the largest symbols. A user-supplied additive set behaves the same for any table, refuses construction when the table is not strictly descending, uses its zero symbol for zero only (or the no-zero-symbol error if it has none), and returns the out-of-bounds error, never a label of a different number, when the symbols cannot reach the value. Values that a table entry cannot even be compared with in a narrow integer width do not disturb the result.",
  ["inputs", "configurations"],
  "All values (and all six widths) within the length bound, for the 8 built-in tables and for every user-supplied descending table over small values.",
  "Only Roman numerals are tested; none of the eight other tables (each 36 to 37 entries) nor any custom set, incomplete set or non-descending table is exercised.",
  [A],
  [("greedy subtraction over a descending table", A + " AdditiveSet::try_format_nominal"),
   ("construction-time order check and zero detection", A + " AdditiveSet::new"), ("symbol tables", A)],
  None, ["try_to_nominal / try_format_nominal", "AdditiveSet::new"])

p("C07", "Roman numerals read back, by the standard rules, as the formatted value",
  "For every value from 1 up, the upper- and lowercase Roman systems write the standard subtractive numeral, with an overline meaning a thousandfold from 4,000 on and the overlined M repeated beyond a million: each decimal place is written with its conventional pattern (for example IV, IX, XL, XC, CD, CM, and the same patterns overlined for thousands). Reading the numeral symbol by symbol, a smaller symbol before a larger one being subtracted, gives back exactly the value. Zero is N.",
  ["inputs"],
  "All values of all widths up to the length bound; every decimal digit at every decimal place, both cases.",
  "Eleven values are tested; most subtractive pairs, in particular those above 9,000, are never checked.",
  [A],
  [("Roman symbol tables including overlined symbols", A + " RomanLower/RomanUpper"), ("greedy subtraction", A + " AdditiveSet")],
  None, ["try_to_nominal(&RomanLower / &RomanUpper)"])

H = "src/hebrew.rs"
p("C08", "Hebrew numerals carry the exact value and avoid the two sacred spellings",
  "For every value from 1 up, the Hebrew system writes letters whose traditional values add up to exactly the number, largest first, with the letter for 400 repeated for larger hundreds; a label consisting of one single letter is wrapped in geresh and gershayim and no other label is. A remainder of exactly 15 or 16 in the last two decimal places is always written 9+6 or 9+7 with gershayim between, never 10+5 or 10+6, whatever hundreds precede it. Zero is refused with the no-zero-symbol error.",
  ["inputs"],
  "All values of all six widths up to the length bound.",
  "Four values are tested; 15 and 16 are tested only without preceding hundreds, and no 8- or 16-bit value is formatted.",
  [H],
  [("greedy subtraction with early exit for 15 and 16", H), ("single-letter wrapping", H)],
  None, ["try_to_nominal(&Hebrew)"])

ET = "src/ethiopic.rs"
p("C09", "Ethiopic numerals follow the standard two-digit grouping for every value",
  "For every value from 1 up to the largest 128-bit number, the Ethiopic system produces exactly the numeral of the W3C counter-style algorithm: two-digit groups, digits dropped for empty groups, for a leading group of one other than the units group, and for groups of one at odd positions, with the hundred sign after non-empty groups at odd positions and the ten-thousand sign after groups at even positions above the units. Zero is refused with the no-zero-symbol error.",
  ["inputs"],
  "All values of all six widths; every digit in every position, every pattern of empty and unit groups.",
  "Five values are tested, and the interplay of group parity, leading position and digit dropping has many more combinations than that, up to 20 groups.",
  [ET],
  [("group loop with parity and leading-group tests", ET + " format_ethiopic")],
  None, ["try_to_nominal(&Ethiopic)"])

C = "src/chinese.rs"
p("C10", "Chinese myriad numerals read back exactly, with zeros voiced correctly",
  "For every value of every width up to the largest 128-bit number, all four Chinese systems (simplified or traditional, informal or formal), with ordinary or financial characters, write the myriad-scale numeral: groups of four digits with the unit characters for ten, hundred and thousand, each non-empty group followed by its large-number character, so that reading the numeral gives back exactly the value. Between two non-zero digits every skipped run of zeros is voiced as exactly one zero character, unless the next non-zero digit is the thousands digit of the directly following group; zeros at the end are silent and zero itself is the zero character. The informal systems, and only they, drop the one before a leading ten.",
  ["inputs", "configurations"],
  "All values of all six widths, for 4 systems times 2 character usages.",
  "22 values per informal system are tested; the formal systems are not tested at all, and which zero patterns are voiced depends on combinations of up to 10 groups that no list of examples covers.",
  [C],
  [("four-digit group writer with a pending-zero flag", C + " format_chinese_inner"),
   ("rank recursion over the scale table", C + " ChineseScale::format_scaled*"), ("character tables", C)],
  [{"name": "last_char_is_zero", "meaning": "a zero was just voiced", "where": C}],
  ["try_to_nominal on the four Chinese types and .financial()"])

p("C11", "Chinese short, mid and long scales use their own units and limits exactly",
  "With the mid scale the large characters stand for ten thousand, 10^8, 10^16, 10^24 and 10^32, with the long scale for ten thousand, 10^8, 10^16 and 10^32, and with the short scale for every power of ten from 10^4 to 10^14; for every value of every width the numeral read back with those meanings is exactly the value, with zeros voiced by the same rule as in the myriad scale (in the short scale: one zero character for every skipped run). Mid and long scale cover every 128-bit value; the short scale covers exactly the values below 10^15 and answers every larger one with the out-of-bounds error carrying that value. The scale and usage selectors are independent of each other and of the order in which they are applied, the last scale chosen winning.",
  ["inputs", "configurations"],
  "All values of all six widths, for 3 scales times 4 systems times 2 usages, and every order of selector calls.",
  "Only one of the four systems is tested with these scales, at 22 values; the out-of-bounds border (10^15) is not approached and nested large characters (such as ten thousand 10^8) occur in a few examples only.",
  [C],
  [("per-scale rank tables and recursion", C + " SHORT_SCALE/MID_SCALE/LONG_SCALE, format_scaled_rank"),
   ("short-scale loop with range test", C + " format_short_rank"), ("selectors", C + " impl_chinese_options!")],
  None, ["try_to_nominal on .short_scale()/.mid_scale()/.long_scale()"])

p("C12", "Combining digit collections gives the system of the combined symbol list",
  "Any nesting of digit sets, chaining, restriction to a count and one-based counting formats every value exactly as a single digit set holding the resulting symbol list would: chaining concatenates the lists and takes zero and counting base from the first part, restriction keeps the first symbols (all of them if the count is larger), one-based counting has no effect when the list has a zero digit or already counts from one, and restriction and one-based counting keep a fixed collection fixed, with its fallback. This holds for every list length, including lists longer than the value range of the integer type being formatted. A one-symbol list without zero counts in tally marks.",
  ["programs", "inputs", "configurations"],
  "All expression trees over the combinators up to a nesting depth, over leaf sets of small, large and boundary lengths, and all values of the small widths plus boundary values of the large ones.",
  "The only combination in the tests is hexadecimal; custom digit sets, nested combinators, one-symbol sets, sets of more than 255 symbols and fixed sets under a combinator are never formatted.",
  [D],
  [("index arithmetic across parts", D + " Chain::digit"), ("count override", D + " Restrict"), ("counting base override", D + " OneBased"),
   ("shortcut for sets larger than the integer type", D + " blanket NominalSystem impl")],
  None, ["try_format_nominal on composed collections"])

L = "src/lib.rs"
p("C13", "Errors are truthful and the infallible path falls back to plain decimal",
  "Whenever fallible formatting returns an error, an out-of-bounds or out-of-memory error carries exactly the value that was asked for, and the no-zero-symbol error is returned for zero only. For every system and value, infallible formatting returns the fallible result when there is one and otherwise the plain western decimal numeral of the value asked for; converting the error itself to decimal, or unwrapping the result with the decimal fallback, gives that same numeral. A failed formatting never returns a truncated or partial label.",
  ["inputs", "configurations"],
  "Every built-in system, user-defined systems returning each kind of error, all six widths, all values incl. the largest.",
  "Two error cases are asserted in the tests, both for the value zero; error payloads are checked for one system and decimal fallback for none but zero.",
  [L, D, A, E, C, H, ET],
  [("error conversion", L + " Error::into_decimal, UnwrapOrDecimal"), ("payload attachment", L + " WithNominal"), ("default infallible method", L + " NominalSystem::format_nominal")],
  None, ["try_to_nominal vs to_nominal"])

p("C14", "The integer type used never changes the label or the error",
  "For any value that fits several of the supported unsigned types (8, 16, 32, 64, 128 bits and pointer size), every system and configuration produces the same label, or the same error with the same value, whichever of those types it is passed as. In particular values at and just below the largest value of a type, and types too narrow for some of a system's symbol values, get the same answer as in a wider type.",
  ["inputs", "configurations"],
  "All 8- and 16-bit values, and boundary and structured values of the wider types, for every system and every pair of types.",
  "Nearly all tests format one type only (u32, or u128 for Chinese); no test compares two types, and skipping of unrepresentable table entries is never exercised.",
  [L, A, C, D, H],
  [("checked conversion of table values into the integer type", A + ", " + C + ", " + H), ("checked conversion of the set length", D),
   ("usize conversion", L + " UnsignedInteger::as_usize, " + E)],
  None, ["try_to_nominal per type"])

p("C15", "Without heap support the same labels appear, or a clean out-of-memory error",
  "Built without the alloc feature, every system returns for every value exactly the label of the full build if that label is at most 62 bytes long, and the out-of-memory error carrying the value otherwise, so that infallible formatting falls back to decimal; it never panics, truncates or returns a different label. A push that does not fit returns the out-of-memory error and leaves the string exactly as it was, in either fill direction, and the string remains usable.",
  ["inputs", "histories", "configurations"],
  "Every system and width, values whose labels fall on both sides of the 62-byte limit, and all push histories around the limit, in the build without alloc.",
  "No test runs without the alloc feature: the project only compiles that configuration.",
  [NS, L, A, C, D, E, ET, H],
  [("capacity test before every inline write", NS + " MaybeInline::push/push_str/push_front"), ("error propagation", L + " WithNominal and per-system map_err")],
  None, ["the crate compiled with default-features = false"])

p("C16", "Within a system no two values ever share a label",
  "For every built-in system and configuration, two different values never get the same label, neither through fallible nor through infallible formatting, so that list entries are always distinguishable. This includes values served by a fallback system and values whose labels moved to the heap.",
  ["inputs"],
  "All pairs of values in an initial segment and in the structured large-value domain of each system.",
  "It is a statement about all pairs of values; the tests compare single labels with constants.",
  [D, A, E, H, ET, C],
  [("the per-system numeration algorithms", "src/*.rs")],
  None, ["to_nominal / try_to_nominal"])

p("C17", "Labels of up to 62 bytes are produced without touching the heap",
  "Formatting a value with any built-in system, by the fallible or the infallible path, performs no heap allocation at all when the resulting label is at most 62 bytes long, and the returned string reports itself inline; a longer label reports itself as heap allocated. Building a string by pushes allocates nothing until it exceeds 62 bytes.",
  ["inputs", "histories"],
  "Every system and width, all values of the bounded domain, on both sides of the 62-byte limit; all push histories up to the limit.",
  "No test observes allocations; is_inline is asserted for two forward strings only.",
  [NS, D, A, E, H, ET, C],
  [("inline buffer", NS + " InlineString"), ("in-place pushes", NS + " MaybeInline")],
  None, ["a counting global allocator", "NominalString::is_inline"])

p("C18", "Formatting calls never influence each other, in sequence or concurrently",
  "The result of formatting a value depends only on the system and the value: not on any call made before, not on calls running at the same time in other threads on the same shared systems, and not on a call made re-entrantly from a user-supplied symbol collection in the middle of another. Systems carry no hidden mutable state.",
  ["histories", "schedules"],
  "All call sequences of bounded length over an alphabet of (system, value) calls, all re-entrant nestings, and all interleavings of two calls in which one is suspended at an arbitrary machine instruction while the other runs to completion.",
  "The tests run single calls in isolation and compare constants; nothing interleaves two calls or repeats one after others.",
  [D, A, E, H, ET, C, NS],
  [("stateless unit systems and immutable tables", "src/*.rs"), ("per-call local buffers", "src/*.rs")],
  None, ["try_to_nominal under a controlled single-stepping scheduler"])

p("C19", "Every way of invoking a system gives the same result",
  "Calling through the number or through the system, and using a system directly, by reference or boxed, reference-counted or atomically reference-counted behind a trait object, gives identical labels and identical errors for every system and value, on both the fallible and the infallible path. A user-defined system that customises infallible formatting keeps that customisation behind every such wrapper.",
  ["inputs", "configurations", "programs"],
  "All systems times all access paths times all values of the bounded domain, and user-defined systems overriding either method, nested up to depth 3 of wrappers.",
  "One test formats the single value 1 through the three wrappers; errors and the infallible path through wrappers, and user-defined systems, are not tested.",
  [L],
  [("forwarding impls for Box, Rc and Arc", L), ("convenience methods", L + " Nominal::to_nominal/try_to_nominal")],
  None, ["to_nominal, try_to_nominal, format_nominal, try_format_nominal"])

p("C20", "Paired systems differ in their symbols only",
  "For every value, upper- and lowercase variants of a system (Latin, Greek, Roman, Armenian, hexadecimal) give labels that are each other's case mapping and Katakana labels are the Hiragana labels in the other kana; simplified/traditional and ordinary/financial Chinese labels differ exactly by the character substitution, and formal Chinese labels equal the informal ones except for the one before a leading ten. Renamed aliases (Urdu, Khmer) give the labels of the system they alias, and the formal and informal Japanese and Hanja systems denote the same digit structure. Both members of a pair fail on exactly the same values.",
  ["inputs", "configurations"],
  "All values of the bounded domain, for every pair.",
  "No test compares two systems; the tables were typed in independently for each member of a pair.",
  [A, D, C],
  [("parallel symbol tables", A + ", " + D + ", " + C)],
  None, ["try_to_nominal on both members of each pair"])

p("C21", "Formatting always ends with a label or an error, never a panic or a hang",
  "Every call to format a value, with any built-in system or any digit, enumerated or additive set a caller can construct, including empty sets, single-symbol sets, restrictions to zero or to more symbols than there are, and sets longer than the integer type's range, terminates without panicking or overflowing: it returns a label, which is not empty unless the caller's own symbols are, or one of the documented errors. An empty digit collection represents nothing and a lone zero digit represents only zero, every other value being out of bounds. For the systems whose labels grow with the number of digits this holds up to the largest value of every type.",
  ["inputs", "programs", "configurations"],
  "All values of the bounded domain up to the type maxima, and all small user-constructed collections including the degenerate ones.",
  "Tests use well-formed built-in sets and mostly small values; degenerate collections and type maxima (except one u128 value in Chinese) are never tried.",
  [D, E, A, C, ET, H, L],
  [("division by the set length", D), ("index arithmetic", E + ", " + D), ("rank arithmetic and expect/unreachable", C)],
  None, ["try_to_nominal under overflow checks, panic capture, a watchdog and an allocation cap"])

p("C22", "A digit collection describes the very list of symbols it formats with",
  "For every built-in digit collection and every nesting of digit sets, chaining, restriction to a count and one-based counting, the reported length is the number of symbols, the collection reports itself empty exactly when that number is zero, asking for the digit at any index below the length gives the symbol at that position of the combined list, and the zero-digit, counting-base and fixed flags are those of the list (a chain takes zero digit and base from its first part; the base means nothing beside a zero digit, and the flags of an empty collection mean nothing). A user's collection that forwards to these accessors therefore formats every value exactly as the collection itself.",
  ["programs", "configurations", "inputs"],
  "All trees of combinators up to a depth over leaves of every interesting size, every index of each, all built-in collections, and adaptors over user-written collections of up to usize::MAX digits.",
  "No test calls the accessors of DigitCollection at all; they are only exercised indirectly through a few formatted values.",
  [D],
  [("accessor forwarding in OneBased, Chain, Restrict and the digit-set macro", D), ("index translation in Chain::digit", D)],
  None, ["DigitCollection::len/is_empty/digit/fixed/has_zero_digit/zero_based"])

p("C23", "Results do not depend on the platform",
  "The library builds and gives the same results on 32-bit as on 64-bit platforms and on big-endian as on little-endian ones: for every system, digit collection and value, in every integer type that can hold the value there, the same label stored in the same way or the same error; for every sequence of string operations the same text, comparisons and inline capacity; and no undefined behaviour.",
  ["inputs", "configurations"],
  "All systems and string states of the bounded domain, on each platform.",
  "The tests run on the build machine only, a 64-bit little-endian one.",
  [L, NS, D, E],
  [("conversions through usize", L + " UnsignedInteger::as_usize, " + D + ", " + E + ", " + C), ("raw byte storage", NS)],
  None, ["every public function"])

p("C24", "Labels give back all the memory they take",
  "Once every label and string of a call history has been dropped, overwritten, or turned into an owned String that is dropped in turn, no heap memory taken by the library for that history is still held: repeating any formatting call, failing call, string operation, clone, conversion or comparison, also one cut short by a panic in a user's symbol collection, never makes memory use grow.",
  ["histories", "inputs", "programs"],
  "All systems and values of the bounded domain, all string histories, wrapper stacks and user-made collections up to the bounds of the other properties.",
  "No test observes memory; a leak changes no label.",
  [NS, D, A, L],
  [("switch from the inline buffer to the heap", NS + " MaybeInline"), ("conversions and clones", NS)],
  None, ["a balancing global allocator"])

p("C25", "Equal systems are interchangeable, and copies are equal",
  "Two values of a public system type (built-in systems, Chinese systems with their options, restrictions, chains, one-based wrappers, and nestings of them) that compare equal give the same label or error for every number. A value compares equal to itself, to another built from the same configuration (the final options of a Chinese system, the parts and counts of a collection), and to its clone, copy, or a value overwritten by clone_from, each of which formats as the original; == is symmetric and != its negation; equal built-in collections hash alike. Errors compare equal exactly when they are the same kind of failure of the same value.",
  ["configurations", "inputs"],
  "All pairs of the enumerated configurations of every public system type that can be compared, times probe values of several integer types; all pairs of errors of the probe values.",
  "Tests use each configuration once and compare none.",
  [D, C, L, E],
  [("comparisons and copies of Chinese systems and their options", C), ("comparisons and copies of restrictions, chains and one-based wrappers", D), ("comparison of errors", L)],
  None, ["equality, hash and labels of both members of a pair"])

os.chdir(os.path.join(os.path.dirname(__file__), ".."))
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
