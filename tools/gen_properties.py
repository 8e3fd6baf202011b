#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
A='include/bitlib/bit-algorithms/'; I='include/bitlib/bit-iterator/'; C='include/bitlib/bit-containers/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
D=A+'bit_algorithm_details.hpp'; BD=I+'bit_details.hpp'
CFG="word types of 8, 16, 32, 64 and 128 bits and unsigned long long, C++17 and C++20, with and without SIMD, vector iterators and raw word pointers"
def algo(id,name,title,statement,text,why,extra=[],files=None,mech=None):
    f=files or [A+name+'.hpp']
    p(id,title,statement,['inputs','configurations'],text+"; "+CFG,why,f+[D,BD],mech or [(m,w) for m,w in extra],
      ['the whole buffer around the ranges, and the returned iterator'])

algo('C01','copy','copy and move transfer exactly the source bits',
 "Copying or moving a bit range makes destination bit i equal to the original source bit i for every i, returns the iterator just past the last destination bit, and changes no bit outside the destination range. This also holds when source and destination overlap, or share words, with the destination starting before the source.",
 "every first, last and destination bit position and every content, including both ranges in one buffer",
 "The tests copy random contents of whole containers at a few random offsets, into a second container, and compare only against std::copy for ranges that mostly end at end(); the word-boundary cases form a three-dimensional space (two alignments and a length) per word size and overlapping ranges are not tried.",
 [('align destination, then whole words, then tail','copy'),('same for move','move.hpp: move'),('unaligned word read','get_word'),('bit merge','_bitblend')],files=[A+'copy.hpp',A+'move.hpp'])
algo('C02','copy_backward','copy_backward transfers exactly the source bits',
 "Copying a bit range backward makes the i-th bit from the end of the destination equal to the original i-th bit from the end of the source, returns the iterator to the first destination bit, and changes no bit outside the destination range. This also holds when the ranges overlap, or share words, with the destination ending after the source.",
 "every first, last and destination-end bit position and every content, including both ranges in one buffer",
 "Same as copy: a few random offsets between separate containers; no exhaustive alignment pairs, no overlap.",
 [('align destination end, then whole words, then head','copy_backward'),('unaligned word read','get_word')])
algo('C03','fill','fill sets every bit of the range and nothing else',
 "Filling a bit range with a value sets every bit of that range to that value and changes no other bit of the words that hold it or of their neighbours.",
 "every first and last bit position, both values and every previous content, for ranges from empty to longer than any vector register at every memory alignment",
 "Tests fill random sub-ranges of randomly filled containers; the SIMD loop, its alignment prologue and both boundary words have independent cases.",
 [('boundary words and whole words','fill'),('SIMD stores','fill under BITLIB_HWY')])
algo('C04','shift','shift_left moves the kept bits toward the front, exactly',
 "Shifting a bit range left by n makes bit i of the range equal to the original bit i+n for every kept position, returns the iterator past the last kept bit, and changes no bit outside the range. A count of zero or less returns the end and changes nothing; a count of at least the length returns the beginning.",
 "every first and last bit position, every shift count from below zero to beyond the length, every content",
 "Tests shift containers of random content by random counts and never look at the bits outside the range; three alignments interact with three code paths and a SIMD loop.",
 [('align, whole-word shift, funnel shift','shift_left'),('word shift','word_shift_left / std::shift_left'),('SIMD funnel shift','shift_left under BITLIB_HWY')])
algo('C05','shift','shift_right moves the kept bits toward the back, exactly',
 "Shifting a bit range right by n makes bit i+n of the range equal to the original bit i for every kept position, returns the iterator to the first kept bit, and changes no bit outside the range. A count of zero or less returns the beginning and changes nothing; a count of at least the length returns the end.",
 "every first and last bit position, every shift count from below zero to beyond the length, every content",
 "Tests shift containers of random content by random counts and never look at the bits outside the range; three alignments interact with three code paths and a SIMD loop.",
 [('align, whole-word shift, funnel shift','shift_right'),('word shift','word_shift_right / std::shift_right'),('SIMD funnel shift','shift_right under BITLIB_HWY')])
algo('C06','rotate','rotate makes the middle bit the first and keeps the cyclic order',
 "Rotating a bit range about a middle position moves the bit at the middle to the front and keeps the cyclic order of all bits of the range, changes no bit outside the range, and returns the iterator to where the original first bit went. The middle may be anywhere in the closed range, its two ends included.",
 "every first, middle and last bit position with first <= middle <= last, every content",
 "Tests rotate random contents about random middles and never rotate about the end; the recursive swap scheme depends on the Euclid sequence of the two part lengths.",
 [('in-word rotate','rotate'),('short head or tail','rotate via shift_left / shift_right'),('block swaps','_rotate_via_raw')])
algo('C07','reverse','reverse reverses exactly the bits of the range',
 "Reversing a bit range exchanges its i-th bit from the front with its i-th bit from the back for every i, and changes no bit outside the range. Reversing the same range twice restores the memory.",
 "every first and last bit position and every content",
 "Tests reverse whole containers of random content at few alignments; the correction shift has a separate case for each order of the two boundary offsets.",
 [('reverse words, swap bits in words, correct by shift, restore borders','reverse'),('bit swap of a word','_bitswap')])
algo('C08','swap_ranges','swap_ranges exchanges the two ranges bit by bit',
 "Swapping two non-overlapping bit ranges of equal length exchanges their i-th bits for every i, changes no bit outside the two ranges, and returns the iterator past the last bit of the second range. This holds also when the two ranges share a word.",
 "every pair of ranges in one buffer or in two, that do not overlap, and every content",
 "Tests swap ranges of two separate containers at random offsets; equal, larger and smaller relative alignment are three code paths, and ranges that share a word (as rotate uses them) are not tried.",
 [('exchange bits between words','_bitexch'),('three alignment cases','swap_ranges')])
algo('C09','transform','unary transform applies the word operation to each bit of the range',
 "Transforming a bit range with a bitwise word operation stores into destination bit i the operation applied to source bit i for every i, changes no bit outside the destination range, and returns the iterator past the last destination bit. It works in place, and when source and destination are different parts of one buffer.",
 "every first, last and destination bit position, every content, and the four bitwise functions of one bit, including the library's own SIMD-aware complement",
 "Tests transform whole random containers with a complement; alignment pairs are sampled and bits outside the destination are not compared.",
 [('boundary words, whole words, tail','transform (unary)'),('SIMD complement','transform with bit_not')],files=[A+'transform.hpp'])
algo('C10','transform','binary transform combines the two ranges bit by bit',
 "Transforming two bit ranges with a bitwise word operation stores into destination bit i the operation applied to bit i of the first and bit i of the second range, changes no bit outside the destination range, and returns the iterator past the last destination bit. The destination may be either source range itself.",
 "every combination of first-range, second-range and destination bit positions, every length and content, and all sixteen bitwise functions of two bits",
 "Tests use one operation on random containers; three independent alignments give a four-dimensional case space per word size.",
 [('boundary words, whole words, tail','transform (binary)'),('unaligned word read','get_word')],files=[A+'transform.hpp'])
p('C11','count returns the number of matching bits',
 "Counting a value in a bit range returns exactly the number of bits of that range with that value, for ranges of any length over any sequence of words, adjacent in memory or not, and modifies nothing. The result does not depend on which hardware population-count instructions the processor offers.",
 ['inputs','configurations'],"every first and last bit position, both values, every content; range lengths across every size threshold of the population-count kernels; every processor feature level; "+CFG,
 "Tests count random contents on the one machine they run on, so one of four kernels is used, with lengths that rarely cross the kernels' block and tail boundaries.",
 [A+'count.hpp',A+'libpopcnt.h',BD],[('masking of boundary words','count'),('bulk kernel and its processor dispatch','libpopcnt.h: popcnt')],['the returned count'])
p('C12','find returns the first matching bit or the end',
 "Finding a value in a bit range returns the iterator to the first bit of that range with that value, or the end of the range if there is none, and modifies nothing.",
 ['inputs','configurations'],"every first and last bit position, both values, every content, including a single match at every position of ranges longer than several vector registers at every memory alignment; "+CFG,
 "Random contents have a match in the first few bits, so the tests rarely get past the first word; long prefixes without a match, matches just outside the range and the SIMD loop need chosen contents.",
 [A+'find.hpp',D,BD],[('padded boundary reads','_padded_read'),('SIMD scan','find under BITLIB_HWY'),('trailing zero count','_tzcnt')],['the returned iterator'])
p('C13','equal holds exactly when all bits agree',
 "Comparing two bit ranges of the same length returns true exactly when their i-th bits agree for every i; bits outside the two ranges never influence the answer, and nothing is modified.",
 ['inputs','configurations'],"every pair of start bit positions, every length, and every content, including a single difference at every position inside the ranges and differences only outside them; "+CFG,
 "Tests compare a range with itself or with a random one; a comparison that ignores one boundary bit, or looks one bit too far, passes nearly always.",
 [A+'equal.hpp',D,BD],[('aligned, boundary and unaligned comparison','equal'),('unaligned word read','get_word')],['the returned truth value'])
p('C14','algorithms touch only the words that hold their ranges',
 "No algorithm reads or writes memory outside the words that hold its argument ranges, and none writes a word that holds no bit of a range it is documented to modify. In particular empty ranges need not be dereferenceable, and ranges that end at the last bit of an allocation never cause an access behind it.",
 ['inputs','configurations'],"every algorithm, every combination of bit positions and lengths, with the words directly between inaccessible pages, and with every access of instrumented code checked against the words of its ranges",
 "Over-reads do not change results, so comparing results cannot see them; the address-sanitized tests see only ranges that happen to end at the end of an allocation.",
 [A+f for f in ('copy.hpp','move.hpp','copy_backward.hpp','fill.hpp','shift.hpp','rotate.hpp','reverse.hpp','swap_ranges.hpp','transform.hpp','count.hpp','find.hpp','equal.hpp','bit_algorithm_details.hpp')],
 [('dereference of the end word only when it is not aligned','every algorithm'),('second-word read only when needed','get_word, write_word')],['the memory accesses of the running code'])
p('C15','operations on disjoint words and concurrent readers do not interfere',
 "Threads that run algorithms on bit ranges with no common word, or that only read common ranges, obtain in every interleaving the same results and final memory as when they run one after another; the library keeps no hidden shared state that could make them interfere.",
 ['schedules'],"every interleaving at memory-access granularity, up to a preemption bound, of two threads that each run one algorithm, for every pair of algorithms and several placements, including neighbouring words of one container",
 "All tests are single-threaded; a static scratch buffer, a cached state or a read-modify-write of a neighbouring word passes all of them.",
 [A+f for f in ('copy.hpp','shift.hpp','rotate.hpp','reverse.hpp','swap_ranges.hpp','fill.hpp','count.hpp','libpopcnt.h')],
 [('stack-only scratch state','rotate, reverse'),('one-time processor detection','libpopcnt.h: popcnt'),('word-confined writes','_bitblend at range borders')],['returned values and final memory of each schedule'])
p('C16','bit iterators form a random access sequence over all bits',
 "Bit iterators over a word sequence behave as random access iterators over its bits: stepping, jumping by any positive or negative amount, indexing, distance, and all six comparisons agree with integer arithmetic on the bit index, and dereferencing at an index always reaches that same bit. Default, copy and converting construction and assignment preserve the position.",
 ['inputs','programs'],"every pair of bit positions of a multi-word sequence (ends included) and every jump between them, for every word type, mutable and constant sequences, vector iterators, deque iterators, list iterators where the operation exists, and raw pointers",
 "There is no iterator test at all; iterators are used only along the paths the algorithm tests happen to take.",
 [I+'bit_iterator.hpp',D],[('floor division of position plus offset','operator+, operator-, operator[]'),('lexicographic comparison','operator<'),('distance','operator-, bit::distance')],['index reached, comparison results, the bit seen through the iterator'])
p('C17','bit pointers behave as pointers to bits',
 "A bit pointer obtained from a bit, or constructed from a word address and a position, points to that bit; pointer arithmetic by any positive or negative amount, indexing, differences and comparisons agree with integer arithmetic on the bit index, and writes through it reach that bit only. Null pointers compare equal to each other and unequal to any bit's address, and assigning a pointer rebinds it without touching the bits.",
 ['inputs','programs'],"every pair of bit positions of a multi-word array and every jump between them, mutable and constant word types, all word sizes",
 "No test uses bit pointers.",
 [I+'bit_pointer.hpp',I+'bit_reference.hpp'],[('floor division of position plus offset','bit_pointer::operator+, operator-, operator[]'),('address-of on references','bit_reference::operator&')],['index reached, comparison results, memory after writes'])
p('C18','bit references and bit values behave as proxies of one bit',
 "Reading, assigning, flipping, setting, resetting, compound-assigning and swapping through a bit reference, or on a bit value, has the effect of the same operation on one boolean, and a reference never changes any other bit of its word. Assigning a reference to a reference copies the bit and does not rebind, and writing a bit to a stream and reading it back gives the same bit.",
 ['inputs','histories'],"every bit position, every content of the byte around it, every operation and operand kind, every pair of references in the same or different words, and every two-step history of operations",
 "No test exercises the proxies directly; the container tests use plain reads and assignments of single bits.",
 [I+'bit_reference.hpp',I+'bit_value.hpp'],[('mask of one bit','bit_reference'),('swap overloads','bit_reference.hpp: swap'),('stream operators','operator<<, operator>>')],['the bit, its word, the stream text'])
p('C19','a bit vector is observably the sequence its operation history defines',
 "After any history of insertions, erasures, appends, removals, resizes, clears, reservations, shrinking, assignments and element writes, a bit vector has exactly the length and bits that the same history gives on a plain sequence of bits, and every returned iterator has the position the standard vector would return. Bits that were once in the container and were removed never reappear: bits added by a resize have the requested value, or zero.",
 ['histories','configurations'],"every operation history over a small alphabet of positions, counts and values, explored over all reachable container states (length, stored words including unused bits, capacity) up to a bound, and every single operation with every position and count on containers of several words, for every word type",
 "Tests call each operation once or a few times on random vectors, never resize with a value, and never chain a shrink with a later growth, so stale bits, exactly full words and capacity corner cases are not reached.",
 [C+'bit_vector.hpp',A+'shift.hpp',A+'copy.hpp',A+'fill.hpp'],[('word array plus bit length','bit_vector'),('insert = grow, shift, write','insert'),('erase = shift, shrink','erase'),('resize','resize')],['size, elements, iterators returned, data'])
p('C20','every constructor yields exactly the specified bits',
 "A bit vector built from a count, a count and a value, a range of bits, of booleans or of words, a list of booleans, bits or words, or a text of zeros and ones (other characters skipped) has exactly the bits so specified, in order, and is empty when the source is empty. Later operations cannot tell which constructor built it.",
 ['inputs','programs'],"every constructor, every length across several words, every start offset of a source range, every content of small lengths, every text over a small alphabet up to a length, and every one-step continuation",
 "Tests build a few vectors of random length per constructor from whole containers, and do not use the offset ranges, texts with separators at every place, or further operations on the result.",
 [C+'bit_vector.hpp'],[('constructors and range dispatch','bit_vector::bit_vector, range_constructor')],['size, elements, and behaviour under a following operation'])
p('C21','copies are independent and moves transfer the bits',
 "A copied or copy-assigned bit vector equals its source and shares no storage with it, so later changes of one never show in the other; self-assignment changes nothing. A moved-to vector has the source's bits and takes over its storage without copying, and the moved-from vector stays usable.",
 ['histories'],"every history of a bounded number of copy, move, assign, self-assign, swap and modify steps over three vectors that start in different states",
 "Tests copy and move once and compare the result, never look at the source again, and cannot see an extra copy.",
 [C+'bit_vector.hpp'],[('copy and move construction and assignment','bit_vector')],['elements of all vectors after every step, addresses of the words'])
p('C22','checked access throws exactly for positions at or beyond the size',
 "Checked access to any position below the size refers to the same bit as unchecked access and iteration, on mutable and constant vectors, and throws an out-of-range exception for every position from the size on, without changing anything. First and last element access refer to the first and the last bit of the sequence.",
 ['inputs','histories'],"every length up to several words, every position around and far beyond the size up to the largest representable one, after every short history that leaves unused capacity or unused bits behind the end",
 "Tests try one position or two; positions inside the last word but behind the last bit, and wrap-around positions, are not tried, and constant vectors are never accessed.",
 [C+'bit_vector.hpp'],[('bound test against the bit length','at'),('front, back','front, back')],['exception or bit, and the container afterwards'])
p('C23','a failed allocation leaves a bit vector intact',
 "When an allocation fails during any container operation, the exception reaches the caller and the vector on which a modifying operation was called keeps its size and all its bits, stays usable, and no memory leaks. Operations that promise not to throw never need memory.",
 ['fault_sequences','histories'],"every operation from every reachable small state, with the first, second, ... allocation made to fail until the operation succeeds",
 "No test makes an allocation fail.",
 [C+'bit_vector.hpp'],[('grow the word array before touching length and bits','insert, push_back, resize, reserve'),('noexcept moves','move construction and assignment')],['size and elements after the exception, live allocations'])
p('C24','reserved capacity is honoured: no reallocation, stable addresses',
 "Capacity is never below the size, is at least what was reserved, never shrinks except on request, and while the size stays within it no operation reallocates, so word addresses and iterators before the modified position stay valid. Appending bits one at a time allocates only logarithmically often, and storage is proportional to the bits held: no constructor allocates more than the words needed.",
 ['histories'],"every operation history over a small alphabet, over all reachable states, with every allocation observed",
 "Tests look at capacity once after reserve; nothing observes allocations or addresses over a history.",
 [C+'bit_vector.hpp'],[('number of words for a number of bits','word_count'),('delegation to the word vector','reserve, capacity, shrink_to_fit')],['capacity, data address, allocations'])
p('C25','bits are packed least significant first in consecutive words',
 "Bit i of a bit vector is bit i mod w, counted from the least significant, of word i div w of its data, where w is the word width; construction from words, iterators over raw words, references, pointers and the container's data all agree on this layout. Writing a word through data changes exactly those w bits and no others.",
 ['inputs','configurations'],"every bit index of multi-word sequences, every word type, every view, single-bit and arbitrary word contents, and after every kind of modifying operation",
 "Tests compare bit views with bit views, so a consistently different layout or a mismatch between two views would pass.",
 [C+'bit_vector.hpp',I+'bit_iterator.hpp',I+'bit_reference.hpp'],[('position counts from the least significant bit','bit_reference, bit_iterator::mask'),('data pointer','bit_vector::data')],['words in memory'])
p('C26','the text form shows every bit in order and reads back to the same vector',
 "The text form of a bit vector, or of a part of it, lists its bits in order as zeros and ones, with a separator after every eighth bit and a blank at every word boundary, none at the ends, and constructing a vector from that text gives the same bits.",
 ['inputs'],"every content up to a length, every length up to several words, every word type, every sub-range",
 "Tests compare a few fixed texts.",
 [C+'bit_vector.hpp'],[('separators by position','debug_string'),('text constructor','bit_vector(std::string_view)')],['the text'])
p('C27','all memory comes from, and returns to, the given allocator',
 "A bit vector with a custom allocator obtains all its memory from that allocator instance, returns every block to an equal one with the same size, propagates or keeps the allocator in copies, moves and assignments as standard allocator-aware containers do, and behaves otherwise like one with the default allocator.",
 ['histories','configurations'],"every operation history of bounded length over two vectors with distinguishable allocator instances and each combination of propagation traits",
 "No test uses a custom allocator.",
 [C+'bit_vector.hpp'],[('allocator parameter','bit_vector'),('allocator-extended constructors','bit_vector')],['allocate and deallocate calls per allocator instance'])
p('C28','sizes beyond 2^24, 2^31 and 2^32 bits work like small ones',
 "Containers and algorithms behave the same for long sequences: lengths, positions, distances and counts beyond the range of single-precision floats, 31-bit and 32-bit integers are exact, enough storage is obtained before it is used, and no bit is lost.",
 ['inputs'],"every algorithm and container operation at sizes around 2^24, 2^31 and 2^32 bits, at boundary bit positions on both sides of each limit",
 "Tests stay below a million bits.",
 [C+'bit_vector.hpp',D,A+'rotate.hpp'],[('number of words for a number of bits','word_count'),('available bits','insert'),('block count','_rotate_via_raw')],['size, storage, marker bits'])
p('C29','word-level bit operations compute their mathematical definitions',
 "The word-level building blocks (population count, leading and trailing zeros, field extraction, parallel deposit and extract, byte and bit reversal, masked blend, field exchange, double-word shifts, add with carry, subtract with borrow, wide multiply, and reading or writing a word at any bit position of a sequence of the same or another word type) return the value their definition gives, whether they are implemented with processor instructions or portably.",
 ['inputs','configurations'],"all operands for 8-bit words, all operands of one-operand functions for 16-bit words (thorough: all pairs, and all single 32-bit operands), structured operand sets for wider ones up to 128 bits, every position and length argument in their documented range, portable and processor-specific builds",
 "No test calls them directly; the algorithms use a few, with random data.",
 [BD],[('compiler-builtin or portable variants','bit_details.hpp')],['returned words'])
p('C30','standard algorithms on bit iterators behave as on booleans',
 "Standard library algorithms applied to bit iterators and bit vectors, in the range forms the standard prescribes, give the same bits, the same returned positions and the same values as on a sequence of booleans.",
 ['programs','inputs'],"a catalogue of non-modifying, modifying, partitioning, sorting, heap, set, merge, permutation and numeric algorithms, every content and every sub-range of sequences that cross word boundaries",
 "The test-suite uses standard algorithms as oracle on bit iterators in a few places but never checks them against sequences of booleans.",
 [I+'bit_iterator.hpp',I+'bit_reference.hpp',I+'bit_value.hpp'],[('proxy swap and assignment','bit_reference'),('value type independent of the sequence','bit_value'),('iterator category','bit_iterator')],['bits and results after the algorithm'])
p('C31','valid calls execute no undefined behaviour',
 "No operation of the library, called with valid arguments, executes undefined behaviour as the language defines it: no shift by the width of the word or more, no signed overflow, no access through a null, misaligned or out-of-bounds address, no iterator of the words moved or dereferenced outside its sequence, no iterator returned or used that an operation has invalidated, no use of an object after its life, no invalid truth value, whatever the alignment of the range, its length, the word type and the state of the container, and even where the result happens to be right on a particular machine and compiler.",
 ['inputs','histories','configurations'],"every geometry, state and operation of bounded size of the algorithms, views, containers and word operations, in builds that stop at undefined behaviour",
 "The test suite is built without any monitor for undefined behaviour; results look right because the processor masks shift counts and allows misaligned loads, until an optimiser uses the freedom.",
 [A+'libpopcnt.h',D,BD,I+'bit_reference.hpp',I+'bit_iterator.hpp',C+'bit_vector.hpp'],[('word loads from byte addresses','libpopcnt.h: popcnt'),('masks and shifts by bit positions','_bitblend, _bitexch, get_word, write_word'),('border words','all algorithms'),('iterators of the words around the last one','shift_left, shift_right, count, transform'),('iterator returned','erase, insert')],['reports of the monitors'])
def main():
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here,'properties.jsonl'),'w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
if __name__=='__main__': main()
