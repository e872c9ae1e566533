import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["nanvm-lib/src/"+f if not f.startswith("nanvm/") else f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    if hook is not None: d["anchors"]["hook_needed"]=hook
    P.append(d)
JB="js/js_bigint.rs"
p("B01","BigInt addition, subtraction and negation are exact",
 "For any two JavaScript bigints, the VM's sum, difference and negation are the exact mathematical integers, for every sign combination, carry and borrow chain. Results are in the one canonical form (no superfluous leading words, zero is never negative), and the operands are left unchanged.",
 ["inputs"],"all pairs of canonical bigints (any sign, any word count)",
 "the tests use a few hand-picked pairs with tiny words; carry/borrow chains across words and cancellation to shorter results are value-dependent",
 [JB],[("add/sub/negate with sign dispatch and carry propagation",JB)],["results of add, sub, negate, read through the public accessors"])
p("B02","BigInt multiplication and exponentiation are exact",
 "For any two JavaScript bigints the product is the exact mathematical product with the right sign, and for a non-negative exponent the power is the exact repeated product. Results are canonical and no intermediate carry is lost.",
 ["inputs"],"all pairs of canonical bigints; all bases with non-negative exponents",
 "long-multiplication carries between partial products only occur for large words; tests multiply a few constants; sign of powers of -1 is untested",
 [JB],[("mul / pow",JB)],["results of mul and pow"])
p("B03","BigInt division identity",
 "Dividing a bigint by a non-zero bigint yields the quotient truncated toward zero and, together with the remainder's magnitude, reconstructs the dividend: |a| = |q|*|b| + |r| with |r| < |b|. The sign of the quotient follows the operand signs, zero is never negative, and division terminates without a panic for every non-zero divisor.",
 ["inputs"],"all pairs (dividend, non-zero divisor) of canonical bigints",
 "quotient estimation from leading words errs only for particular word patterns; the tests divide a few easy values",
 [JB],[("div_mod quotient estimation and correction loop",JB)],["results of div_mod"])
p("B04","BigInt bitwise operators follow two's complement",
 "And, or, xor and not of bigints give the result of the same operation on infinite two's-complement representations, for every sign combination. Results are canonical.",
 ["inputs"],"all pairs of canonical bigints",
 "conversion to and from two's complement depends on sign words and zero words that the few sampled values do not produce",
 [JB],[("to_twos_complement / from_twos_complement",JB)],["results of and, or, xor, not"])
p("B05","BigInt shifts are multiplication and floor division by powers of two",
 "Shifting a bigint left by n multiplies it by 2^n, shifting right by n divides by 2^n rounding toward negative infinity, and negative counts shift the other way. No bits are lost between words, and results are canonical.",
 ["inputs"],"all canonical bigints and shift counts",
 "bits crossing word boundaries depend on the shift amount modulo 64; tests use a handful of amounts",
 [JB],[("shl / shr",JB)],["results of shl and shr"])
p("B06","BigInt ordering and equality agree with the integers",
 "Comparing two bigints gives the order of the integers they denote, for all signs and lengths, and equality holds exactly when they denote the same integer. The order is total, antisymmetric and consistent with equality.",
 ["inputs"],"all pairs of canonical bigints",
 "tests compare a few values and no pair of negative values of equal length in each direction",
 [JB],[("compare / equals",JB)],["results of compare and equals"])
p("B07","Unsigned big numbers: exact arithmetic, shifts and order",
 "The arbitrary-precision unsigned integers compute exact sums, products, powers, shifts, quotients and remainders, and saturate differences at zero. Values stay canonical, so that equality and order agree with the integers denoted.",
 ["inputs"],"all pairs of canonical unsigned big numbers and all shift counts",
 "carry, borrow and quotient-correction paths depend on word patterns a few constants do not reach",
 ["big_numbers/big_uint.rs"],[("Add/Sub/Mul/Div/Shl/Shr/Ord impls","big_numbers/big_uint.rs")])
p("B08","Signed big numbers: exact arithmetic and order",
 "The arbitrary-precision signed integers compute exact sums, differences, products and truncated quotients for every sign combination, including the extreme machine integers as inputs. Zero has one representation, and order and equality agree with the integers denoted.",
 ["inputs"],"all pairs of canonical signed big numbers; all 64-bit signed inputs",
 "sign combinations times magnitudes times lengths are not enumerated by tests",
 ["big_numbers/big_int.rs"],[("sign dispatch over the unsigned arithmetic","big_numbers/big_int.rs")])
p("F01","Decimal number literals become the nearest double",
 "A decimal literal is evaluated to the double nearest to its exact value, ties to even, including subnormals, overflow to infinity and underflow to zero with the literal's sign. Evaluation always terminates without a panic.",
 ["inputs"],"all decimal literals (digits, optional fraction, optional exponent)",
 "correct rounding fails only for inputs near midpoints or at range ends; the tests convert a few literals",
 ["big_numbers/big_float.rs","tokenizer/mod.rs","js/js_bigint.rs"],[("decimal to binary scaling and rounding","big_numbers/big_float.rs")])
p("F02","Binary big float to double conversion rounds to nearest even",
 "A value given as an exact or inexact binary significand with an exponent and a sticky remainder converts to the double nearest to it, ties to even, across normal, subnormal, overflow and underflow ranges, with the value's sign. No input makes the conversion panic.",
 ["inputs"],"all significands, exponents, signs and sticky flags",
 "rounding positions, carry-out of rounding and the subnormal boundary are value-dependent and sampled by a few constants",
 ["big_numbers/big_float.rs"],[("BigFloat<2> to_f64","big_numbers/big_float.rs")])
p("F03","Decimal to binary scaling keeps the value, the bits asked for and the remainder",
 "Scaling a decimal big float to a given binary precision yields a significand of exactly that many bits and an exponent such that the value lies in [significand, significand+1) times the power of two, keeps the sign, and reports a remainder exactly when something was cut off. Zero stays zero, and everything used on the way is released.",
 ["inputs"],"all significands, decimal exponents, signs and precisions of at least one bit",
 "only the one precision the number tokenizer uses is tested, with a few constants; lost remainders show only for particular digits",
 ["big_numbers/big_float.rs","js/js_bigint.rs"],[("BigFloat<10>::to_bin: scaling by powers of five, increase/decrease of the significand","big_numbers/big_float.rs")],["significand, exp, sign and non_zero_reminder of to_bin's result"])
p("J01","Tagged values keep their type and content",
 "Every JavaScript value moved into the VM's universal value is recognised as exactly its own type, and converting back returns the same value; a request for any other type is refused. This holds for every double bit pattern, and NaN stays a NaN.",
 ["inputs"],"all doubles (2^64 bit patterns), booleans, null, strings, arrays, objects and bigints",
 "the value space of 2^64 patterns overlaps with tags; tests try a few constants",
 ["js/any.rs","js/any_internal.rs","js/bitset.rs","js/number.rs","js/any_cast.rs","js/ref_cast.rs","js/bool.rs","js/null.rs"],[("NaN boxing bit sets","js/bitset.rs")])
p("J02","Tag sets are disjoint and set algebra is sound",
 "A 64-bit tag set contains exactly the words made of its tag plus any payload; membership, intersection, join and splitting a set by a bit agree with that meaning, and payload extraction inverts tagging. What has no meaning is refused by a panic: an inconsistent set, a split by a bit that is not free, a join of sets of different shapes, an intersection of disjoint sets. No word belongs to two of the VM's type sets.",
 ["inputs"],"all tag/mask pairs and all 64-bit words",
 "set relations over 2^64 words cannot be sampled meaningfully",
 ["common/bit_subset64.rs","js/bitset.rs"],[("BitSubset64 const functions","common/bit_subset64.rs")])
p("J03","Walking a value visits each part once, in order",
 "Walking an array or object hands every item to the callback exactly once, in order, with its index or key and the value itself; an error from the callback stops the walk at once and is passed on; any other kind of value has no parts. Afterwards the container is unchanged, no reference to it or its parts is left behind, and a sole owner can still write to it.",
 ["inputs","histories"],"all containers, all contents, callbacks that fail at any item or keep what they are given",
 "the tests walk one or two literals to the end; stopping early and the references held meanwhile are not looked at",
 ["js/any.rs","js/js_array.rs","js/js_object.rs"],[("Any::for_each","js/any.rs")],["the callback's arguments, the result, blocks in use"])
p("M01","Reference counting frees each value exactly once",
 "Over any sequence of creating, sharing, storing, moving out and dropping values, every allocated block is released exactly when its last reference goes away: no leak, no double release, no access after release. Live data reads back unchanged throughout.",
 ["histories"],"all bounded histories of create/clone/drop/store operations over all value types and contents",
 "lifetimes depend on the order of operations and on the kind of value; tests run a few fixed sequences and most do not observe release",
 ["mem/ref_.rs","mem/block.rs","mem/block_header.rs","mem/local.rs","mem/global.rs","mem/optional_ref.rs","js/any_internal.rs"],[("reference counter in the block header; drop on last release","mem/optional_ref.rs, mem/block.rs")])
p("M02","Mutable access is granted only to a sole owner",
 "A shared value can be turned back into a mutable one exactly when no other reference to it exists; otherwise the request is refused and hands the reference back intact. So no mutation is ever visible through another reference.",
 ["histories"],"all bounded clone/drop histories before a request",
 "depends on the history of clones and drops",
 ["mem/ref_.rs","mem/mut_ref.rs","mem/block_header.rs"],[("try_to_mut_ref","mem/ref_.rs")])
p("M03","Heap objects never overlap their header or overrun their block",
 "For every header type, element type and length, an allocated variable-length object occupies disjoint, correctly aligned storage for its reference counter, header and elements, entirely inside the memory obtained for it. Each element written at construction is read back, and each is destroyed once.",
 ["inputs","configurations"],"element types of several sizes and alignments, all lengths within the bound, all contents",
 "layout arithmetic is only tested for a few types; out-of-block writes are invisible to tests",
 ["mem/flexible_array/mod.rs","mem/flexible_array/constructor.rs","mem/flexible_array/header.rs","mem/field_layout.rs","mem/block.rs","mem/global.rs","mem/local.rs"],[("FieldLayout, FlexibleArray sizes","mem/field_layout.rs")])
p("M04","Bump arena hands out disjoint aligned blocks",
 "Every block obtained from an arena is aligned as requested, lies inside the arena's buffer and overlaps no other live block, whatever the sequence of sizes and alignments. A request is refused only when it does not fit behind the blocks already handed out.",
 ["histories"],"all bounded sequences of allocation requests",
 "overlap depends on the sequence of sizes and alignments; tests allocate a couple of values",
 ["mem/arena.rs"],[("Arena bump pointer","mem/arena.rs")],None,"the arena is a private module: reached through a guarded re-export")
p("M05","The pipeline releases everything under any memory manager",
 "Reading a document with all the modules it imports and writing the value again, whatever the text and wherever it goes wrong, leaves no memory behind once the result is dropped: a local heap reports size zero and the global one has as many blocks as before. The verdict, the form and the texts written do not depend on the memory manager.",
 ["inputs","histories"],"all texts and imported modules, valid or not, under the global and a local memory manager",
 "the tests run the reader under the global manager only and never look at what is left in use after an error",
 ["tokenizer/mod.rs","parser/parser.rs","parser/any_state.rs","parser/shared.rs","serializer/to_json.rs","serializer/to_djs.rs","mem/local.rs"],[("tokenize, parse, to_json, to_djs under Local and Global","parser/parser.rs")],["Local::size(), allocator's live blocks, returned texts"])
p("R01","Range map lookup and merge are pointwise",
 "Looking up a key in a range map returns the value of the range containing it, and merging two maps yields the map whose value at every key is the pointwise combination of the two. Merged maps stay sorted, and maps that give different values to the same key are refused.",
 ["inputs"],"all sorted range maps of bounded size and all keys",
 "merging interleaves two boundary lists in many orders; tests use a few",
 ["range_map.rs"],[("merge iterator / binary search get","range_map.rs")])
p("R02","Single-character and range tables cover exactly what they name",
 "A range map built for one character or for an inclusive character range has the given value exactly on those characters and the default everywhere else, for every Unicode scalar value including the extremes and the borders of the surrogate gap. Building it never panics.",
 ["inputs"],"all characters and all ranges of characters; all looked-up characters",
 "about 1.1 million characters squared; the tests use a few ASCII letters",
 ["range_map.rs"],[("from_one / from_range","range_map.rs")])
p("T01","Tokenizer is total",
 "Every text is tokenized in finite time without a panic, and every token list ends up covering the whole input: no character that matters is silently dropped. Text that is not lexically valid always leaves an error token.",
 ["inputs"],"all texts up to the bound over all characters",
 "the state machine has many states times character classes; tests feed fixed strings",
 ["tokenizer/mod.rs"],[("tokenizer state machine","tokenizer/mod.rs")])
p("T02","String literals decode exactly as JSON/JavaScript specify",
 "A quoted literal is accepted exactly when it is well formed (closed, known escapes, four hex digits after a unicode escape, no raw line end; other raw control characters are accepted) and decodes to exactly the characters it denotes, including escaped surrogate pairs. Malformed literals give an error token, never a wrong string.",
 ["inputs"],"all literal bodies up to the bound",
 "escape combinations are unbounded; tests use fixed literals",
 ["tokenizer/mod.rs"],[("string and escape states","tokenizer/mod.rs")])
p("T03","Number tokens follow the number grammar and carry the right value",
 "A numeric token is produced exactly for the text of a valid number (no leading zeros, digits after point and exponent mark), and bigint literals with suffix n denote exactly their decimal value. Malformed numbers give an error token and never a number.",
 ["inputs"],"all numeric texts up to the bound",
 "digit/sign/point/exponent combinations are many; tests use fixed literals",
 ["tokenizer/mod.rs","big_numbers/big_float.rs"],[("number states","tokenizer/mod.rs")])
p("T04","Words, operators and layout are split as the language says",
 "Identifiers and keywords are maximal runs of identifier characters; each operator is one character; whitespace, newlines and comments separate tokens and leave no trace except newline tokens. Each source text thus yields the same token list as the reference lexer.",
 ["inputs"],"all texts up to the bound over the ASCII alphabet",
 "adjacency of token kinds is combinatorial",
 ["tokenizer/mod.rs"],[("operator/id/comment states","tokenizer/mod.rs")])
p("P01","The parser never panics",
 "For every token sequence and for every source text, parsing returns either a value or one of the defined errors; it never panics, loops or reads freed memory. A sequence containing an error token or left incomplete is never accepted.",
 ["inputs"],"all token sequences and texts up to the bound",
 "states times tokens; tests parse fixed documents",
 ["parser/parser.rs","parser/any_state.rs","parser/root_state.rs","parser/json_state.rs","parser/const_state.rs","parser/shared.rs"],[("pushdown parser states","parser/any_state.rs")])
p("P02","JSON documents: accepted iff grammatical, with the right value",
 "A token sequence forms an accepted JSON document exactly when it derives from the JSON grammar (extended by a trailing comma and by bigint literals), and the resulting value has exactly the structure and leaves the document spells. A repeated object key keeps the last value.",
 ["inputs"],"all token sequences up to the bound, with symbolic leaves",
 "nesting and comma/colon placements are combinatorial",
 ["parser/json_state.rs","parser/any_state.rs","parser/parser.rs"],[("json pushdown parser","parser/json_state.rs, parser/any_state.rs")])
p("P03","Constants in modules mean their definitions",
 "In a module, a reference to a declared constant denotes exactly the value it was declared with, wherever it appears, and all references share that one value. Undeclared names, duplicate or malformed declarations are errors and never a wrong value.",
 ["inputs","programs"],"all bounded modules made of constant declarations and an exported expression",
 "program space; tests parse fixed modules",
 ["parser/root_state.rs","parser/const_state.rs","parser/any_state.rs"],[("const tables in the parser state","parser/shared.rs")])
p("P04","Module paths are resolved relative to the importing module",
 "Joining a module's folder with a relative import path and normalising it gives the path a file system would: single dots and empty parts vanish, double dots go one folder up; those that lead above the start of a relative path are kept, and those above the root of an absolute path vanish. Two spellings of the same file give the same module identity.",
 ["inputs"],"all bounded path strings",
 "paths are free text; tests try a few",
 ["parser/path.rs"],[("split/concat/normalise","parser/path.rs")])
p("P05","Imports: each module is loaded once and cycles are reported",
 "For every graph of modules importing each other, parsing the root reads each reachable module at most once, substitutes for each import exactly the imported module's exported value, and reports an error for a missing file or an import cycle. It always terminates.",
 ["configurations","programs"],"all import graphs up to the bound, all placements of missing files",
 "graph shapes are combinatorial; tests use a handful",
 ["parser/parser.rs","parser/any_state.rs","parser/root_state.rs","parser/shared.rs"],[("module cache: complete map and in-progress set","parser/shared.rs")])
p("P06","Reading tokens one at a time agrees with the grammar",
 "Pushing the tokens of a document without imports one at a time into the incremental parser ends in the same verdict, value and form as the grammar gives the whole sequence; it is an error before the document is complete and stays an error once one occurred, whatever follows. No sequence panics, and everything held is released.",
 ["inputs","histories"],"all token sequences without imports, ended at any point",
 "the tests push a few complete documents; sequences cut short or continued after an error are combinations nobody lists",
 ["parser/json_state.rs","parser/any_state.rs","parser/const_state.rs","parser/root_state.rs"],[("JsonState::push / end","parser/json_state.rs")],["result of end()"])
p("S01","JSON output is valid JSON denoting the value",
 "Serialising any JSON-representable value produces a text that a strict JSON parser accepts and reads as the same value: structure, key set, booleans, null, and strings with every character correctly escaped. Values with no JSON form are reported as an error and not written.",
 ["inputs"],"all values up to the bound in depth and width, all string contents",
 "string contents and shapes are unbounded; tests serialise fixed values",
 ["serializer/to_json.rs"],[("WriteJson escapes and recursion","serializer/to_json.rs")])
p("S02","JSON round trip through the VM",
 "Parsing the JSON text the VM writes for a value gives back an equal value, for all nested arrays, objects and strings including every Unicode character; writing a value with sorted keys (as every value read has) again gives the same text.",
 ["inputs"],"all values up to the bound",
 "as S01; both directions must agree for all characters",
 ["serializer/to_json.rs","tokenizer/mod.rs","parser/parser.rs"],[("writer and reader must agree","serializer/to_json.rs, tokenizer/mod.rs")])
p("S03","Module output preserves value and sharing",
 "Serialising any value as a module writes each shared array or object once, declared before its first use, and every use refers to it; reading the module back yields an equal value, bigints included. Numbers without a literal (NaN, infinities) are an error. The text is a function of the value: it does not vary from run to run.",
 ["inputs","programs"],"all bounded values with arbitrary sharing",
 "sharing patterns are combinatorial and the order of declarations depends on a randomised table",
 ["serializer/to_djs.rs"],[("tracking of shared references","serializer/to_djs.rs")])
p("A01","Conversion writes the output only when the input is valid",
 "Running the converter on any input text writes an output file exactly when the parser accepts the input, the value has a form in the output's format and the output's name has one of the extensions .json, .d.cjs and .d.mjs; then the output denotes the same value in the format of that extension. On any failure an error is returned and no other file is touched.",
 ["inputs","fault_sequences"],"all bounded input texts, extensions, and file-system faults",
 "tests run a few fixed files with no faults",
 ["app/mod.rs","parser/parser.rs","serializer/to_json.rs","serializer/to_djs.rs"],[("run pipeline","app/mod.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["title"]
print(len(P))
