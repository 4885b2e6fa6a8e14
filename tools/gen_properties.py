#!/usr/bin/env python3
# Source of properties.jsonl (kept as code so it is easy to keep in step).  Usage: gen_properties.py > properties.jsonl
import json
H='src/jstd/hashmap/'
G15=[H+'group15_flat_map.hpp',H+'group15_flat_table.hpp',H+'flat_map_group15.hpp',H+'flat_map_iterator15.hpp']
G16=[H+'group16_flat_map.hpp',H+'group16_flat_table.hpp',H+'flat_map_group16.hpp',H+'flat_map_iterator.hpp']
ROB=[H+'robin_hash_map.h']
OLD=[H+'robin16_hash_map.h',H+'flat16_hash_map.h']
SLOT=[H+'map_slot_policy.h',H+'slot_policy_traits.h',H+'flat_map_slot_policy.hpp',H+'flat_map_slot_storage.hpp']
P=[]
def p(id,title,stmt,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
BENCH='The suite only compares checksums of a few fixed benchmark runs over int/size_t/string_view keys with one random seed; '
MODEL=('at every step each single-key operation (lookup by find/count/contains/at/operator[], insertion by insert/emplace/try_emplace/'
 'insert_or_assign/operator[], erasure by key, clear, size, empty) returns exactly what a mathematical map given the same history returns, '
 'also when its argument is a key or value that lies in the map itself (for insertions: of a key that is present), '
 'and at() throws std::out_of_range exactly for absent keys. This holds for every key, value, hash function and equality function that is '
 'consistent with it, however badly the hash distributes')
p('C01','group15_flat_map behaves as a mathematical map on every history',
  'For every history of operations on a group15 flat map, '+MODEL+'.',['histories','inputs','configurations'],
  'all operation histories; all key/value types (trivial, non-trivial, large, move-aware) and hash functions incl. constant and low-entropy ones',
  BENCH+'adversarial collisions, full groups, overflow marks, erase/re-insert histories and non-trivial element types are never driven.',
  G15+SLOT,[('tag-group probing with overflow byte',H+'group15_flat_table.hpp find_impl/find_or_insert'),('erase keeps overflow marks',H+'group15_flat_table.hpp erase_index')])
p('C02','group16_flat_map behaves as a mathematical map on every history',
  'For every history of operations on a group16 flat map, '+MODEL+'.',['histories','inputs','configurations'],
  'all operation histories; all key/value types and hash functions incl. constant and low-entropy ones',
  BENCH+'per-slot overflow bits, slot reuse and threshold re-raising are only driven by a uniform hash.',
  G16+SLOT,[('7-bit hash + per-slot overflow bit probing',H+'group16_flat_table.hpp'),('rehash transfers every element',H+'group16_flat_table.hpp rehash_impl')])
p('C03','robin_hash_map behaves as a mathematical map on every history',
  ('For every history of operations on a robin-hood hash map, '+MODEL.replace(', however badly the hash distributes','').replace('find/count/','find/count/equal_range/').replace('insert/emplace/','insert/insert_always/emplace/')+
   ', as long as the hash spreads the keys: at most a handful of keys share one hash value, so that growing the table can bring every key within the probe limit.'),['histories','inputs','configurations'],
  'all operation histories; direct and indirect element layouts, stored and non-stored hash layouts; all hash functions with bounded full-hash collision',
  BENCH+'displacement chains across the distance limit, backward-shift erase in clusters and the indirect layout are not reached.',
  ROB+SLOT,[('robin-hood displacement with distance limit',H+'robin_hash_map.h insert_to_place'),('backward shift erase',H+'robin_hash_map.h erase_slot'),('index-indirect layout',H+'robin_hash_map.h indirect_*')])
p('C04','robin16 and flat16 hash maps behave as mathematical maps',
  ('For every history of operations on the two older 16-way maps (robin16_hash_map, flat16_hash_map), every lookup (find, count, contains, equal_range, at, operator[]), insertion (insert, insert_always, emplace, try_emplace, insert_or_assign, with and without hints, lvalues left alone), '
   'erasure by key, clear, size, traversal and capacity call (reserve, rehash, shrink_to_fit and their exact forms, max_load_factor) '
   'returns and leaves exactly what a mathematical map given the same history does, also for arguments lying in the map itself (insertions: of a present key), with nothing read or written outside the map and no element leaked or destroyed twice, as long as at most a handful of keys share one full hash value. '
   '(Nothing is claimed about copying, moving, swapping or erasing through iterators of these two.)'),['histories','inputs'],
  'all operation histories over ints, strings, large, tracked and over-aligned types, with uniform, clustered and low-entropy hashes',
  BENCH+'these maps are compiled in but at most a benchmark column.',
  OLD,[('16-slot SIMD probing',H+'flat16_hash_map.h'),('robin-hood distance + SIMD',H+'robin16_hash_map.h')])
p('C05','Iteration visits every element exactly once, in any reachable state',
  ('In every reachable state of a group15, group16 or robin hash map, walking from begin() to end() (const or not, pre- or post-increment, range-for) visits each stored element exactly once '
   'and nothing else, begin()==end() exactly when the map is empty, and the number of steps equals size(). An iterator returned by find, insert or emplace '
   'refers to the element with that key, lets its mapped value be modified in place, and can be incremented through the rest of the traversal to end().'),['histories','inputs'],
  'all reachable states (after growth, erasure of any subset, clear, shrink, copy, move, swap)',
  BENCH+'iteration is only timed, its visits are never compared with the contents after erasures.',
  [H+'flat_map_iterator.hpp',H+'flat_map_iterator15.hpp']+ROB+[G15[1],G16[1]],[('skip unused slots by group bitmask',H+'flat_map_iterator15.hpp'),('begin() scan',H+'group16_flat_table.hpp begin'),('basic_iterator',H+'robin_hash_map.h')])
p('C06','Erasing through iterators, ranges and predicates removes exactly those',
  ('On the group15, group16 and robin hash maps, erase(iterator) removes exactly the referenced element and returns an iterator from which the rest of the traversal continues without skipping or repeating any surviving element; '
   'erase(first,last) removes exactly the elements of that iterator range; erase_if removes exactly the elements satisfying the predicate and returns their number. All other elements keep their values.'),
  ['histories','inputs'],'all states, positions, sub-ranges and predicates; erase-while-iterating loops',
  'No test calls erase with an iterator, a range or a predicate.',[G15[0],G15[1],G16[0],G16[1]]+ROB,[('erase(iterator)',H+'group15_flat_table.hpp'),('erase_if',H+'group16_flat_map.hpp'),('erase(pos) with backward shift',H+'robin_hash_map.h')])
p('C07','Copies are equal to and independent of their source',
  ('Copy construction (with or without an allocator) and copy assignment (including self-assignment and assignment over a non-empty map) of a group15, group16 or robin hash map yield a map with exactly the source contents, size, hasher and equality, fully usable afterwards, '
   'and leave the source unchanged; later changes to either are never visible in the other.'),['histories','inputs','configurations'],
  'all source states (empty, default-constructed, after erasures, heavily colliding), all target states, all element types',
  'No test copies a map.',[G15[1],G16[1]]+ROB,[('copy constructor',H+'group15_flat_table.hpp copy_slots_from'),('copy-and-swap assignment',H+'robin_hash_map.h operator=')])
p('C08','Move and swap transfer the whole state and leave both maps usable',
  ('Move construction, move assignment (including self-move-safe replacement of a non-empty target) and swap of group15, group16 and robin hash maps transfer exactly the contents, size and function objects; after them every involved map, including the moved-from one, '
   'is a valid map that can be looked up, iterated, inserted into, cleared, assigned and destroyed. Move construction, and move assignment and swap between equal or propagating allocators, also transfer max_load_factor(), copy no key or mapped object and leave references to elements valid.'),['histories','inputs','configurations'],
  'all pairs of states and sizes, equal and unequal stateful allocators',
  'No test moves or swaps a map and then keeps using both.',[G15[1],G16[1]]+ROB,[('swap_content/swap_policy',H+'robin_hash_map.h swap_impl'),('move_assign',H+'group15_flat_table.hpp')])
p('C09','Bulk construction and insertion add every new key of the input once',
  ('On the group15, group16 and robin hash maps, constructing from, assigning from or inserting an iterator range or initializer list stores, for each distinct key in the input, the first pair having that key (keys already present keep their old value), '
   'regardless of input order, duplicates, iterator category or requested initial capacity.'),['inputs','histories'],
  'all input sequences (duplicates, empty, input iterators), any prior map contents','No test builds a map from a range or list.',[G15[0],G16[0]]+ROB,[('insert(first,last)',H+'group15_flat_map.hpp'),('range constructor',H+'robin_hash_map.h')])
p('C10','Capacity operations never change contents and honour what they promise',
  ('On the group15, group16 and robin hash maps, reserve, rehash, shrink_to_fit, max_load_factor and clear never lose, duplicate or alter an element (clear removes all and leaves a usable map) for any argument including 0; afterwards size() never exceeds capacity(), '
   'and load_factor() never exceeds 1; with more than 64 buckets it never exceeds max_load_factor() either, as long as nobody uses the exact forms reserve(n, true), rehash(n, true), shrink_to_fit(true) or, on the robin map, asks rehash or reserve for less than size(). '
   'max_load_factor(x) with x from 0.5 to 0.875 (0.3 to 0.6 on the robin map) is what max_load_factor() then returns, up to rounding. After reserve(n) on a group map from which nothing was erased since it was last cleared or rehashed, inserting until size() reaches n neither changes capacity() nor moves existing elements.'),['histories','inputs','configurations'],
  'all interleavings of capacity calls with other operations, all arguments and load factors','Tests call reserve once before filling and never check contents afterwards.',
  [G15[1],G16[1]]+ROB,[('rehash_impl',H+'group15_flat_table.hpp'),('calc_capacity/min_require',H+'group16_flat_table.hpp'),('create_slots',H+'robin_hash_map.h')])
p('C11','Steady-state churn keeps memory and probe work bounded',
  ('With a hash that distributes well, a history of a group15, group16 or robin hash map that never holds more than n elements at once keeps capacity() (and thus memory) within a constant factor of n however long insertions and erasures alternate, and every single operation finishes after a bounded number of key comparisons: '
   'the average comparisons per operation stay below a small constant, and a lookup of an absent key terminates even when the map is at its fullest.'),['histories','inputs'],
  'arbitrarily long insert/erase/clear/lookup histories at bounded size','Benchmarks run a fixed short insert/erase pass and never read capacity or comparison counts.',
  [G15[1],G16[1]]+ROB,[('anti-drift threshold on erase',H+'group15_flat_table.hpp erase'),('threshold re-raise on reuse',H+'group16_flat_table.hpp'),('backward shift leaves no tombstones',H+'robin_hash_map.h')])
p('C12','Every element is constructed once and destroyed once',
  ('Over any history ending with destruction of the maps, every key and mapped object a group15, group16 or robin hash map constructs is destroyed exactly once, no object is used after destruction or before construction, and at every quiescent point the number of live key and mapped objects owned by a map equals its size().'),['histories','inputs','configurations'],
  'all histories incl. duplicate inserts, growth, erase, assign, copy, move, swap, clear; self-referential (non-relocatable) element types','Tests use trivially destructible keys/values or never count them.',
  [G15[1],G16[1]]+ROB+SLOT,[('slot construct/transfer/destroy',H+'map_slot_policy.h'),('transfer by memcpy only if trivially relocatable',H+'flat_map_slot_policy.hpp')])
p('C13','Allocator use is balanced, sized correctly and instance-faithful',
  ('Every block a group15, group16 or robin hash map obtains from its allocator is returned exactly once, with the same size, to an equal allocator, by the time the map is destroyed; copies, moves, assignments and swaps (between equal or propagating allocators) propagate allocators as the allocator traits demand, and the element storage a map uses never exceeds the blocks obtained.'),['histories','configurations'],
  'all histories, stateful allocators with every propagation trait combination, equal and unequal instances','All tests use std::allocator.',
  [G15[1],G16[1]]+ROB,[('create_slots/destroy_*',H+'group15_flat_table.hpp'),('separate group/slot allocations',H+'group16_flat_table.hpp')])
p('C14','Arguments are consumed exactly when and how the call says',
  ('No operation of a group15, group16 or robin hash map modifies an lvalue argument; rvalue key and value arguments are moved from (not copied) when a new element is created (except the key of a piecewise emplace, of which the map makes its own copy, and a key that is const inside its pair); try_emplace and insert_or_assign and operator[] never consume the key when it already exists, try_emplace never consumes the mapped arguments then; move-only mapped types are supported by the moving forms.'),['inputs','histories'],
  'all insertion entry points x value categories x present/absent key','Tests insert scalars, for which stealing is invisible.',
  [G15[0],G15[1],G16[0],G16[1]]+ROB,[('emplace_impl / try_emplace_impl forwarding',H+'group16_flat_table.hpp')])
p('C15','A throwing hash, comparison, constructor or allocation leaves a valid map',
  ('When an allocation, the constructor, copy or assignment of an element, or a hash or equality call made to look a key up throws during an operation of a group15, group16 or robin hash map (not a hash or move made while elements are transferred to a grown table), the exception reaches the caller, the map stays valid, every element it contained before is still there unchanged, no half-inserted element is visible, nothing leaks, and the operation can be retried successfully.'),['fault_sequences','histories'],
  'every throw point of every operation in every reachable state','No test throws anything.',[G15[1],G16[1]]+ROB,[('allocate before modifying',H+'group15_flat_table.hpp rehash_impl'),('control byte set around construction',H+'group16_flat_table.hpp emplace_impl')])
p('C16','No operation reads or writes outside its storage or has undefined behaviour',
  ('Whatever the element size and alignment (1 byte to large, over-aligned, empty) and whatever the history, no operation of a group15, group16 or robin hash map reads or writes outside its allocations, uses freed or misaligned storage, or executes undefined behaviour; every element is placed at an address aligned for its type.'),['histories','inputs','configurations'],
  'all histories x element sizes/alignments x hash distributions','Tests run uninstrumented optimized builds with 4/8/16-byte elements.',
  G15+G16+ROB+SLOT,[('alignment of slot block',H+'group15_flat_table.hpp AlignedSlots'),('sentinel group',H+'flat_map_group15.hpp')])
p('C17','The supplied hash and equality objects alone decide key identity',
  ('Key identity is decided only by the hash and equality objects given to a group15, group16 or robin hash map (their state included): equal-by-predicate keys are one key even if their representations differ, unequal keys are distinct even if all their hashes collide; hash_function() and key_eq() return objects equivalent to those given, also after copy, move and swap; lookups, insertions and erasures with an argument of a convertible type agree with those by key.'),['inputs','configurations','histories'],
  'stateful hashers and predicates, case-insensitive and modular equalities, colliding hashes, copy/move/swap of the holders','Tests use stateless standard functors.',
  [G15[1],G16[1]]+ROB,[('key_equal_ after tag match',H+'group15_flat_table.hpp find_impl'),('hasher_ copies',H+'robin_hash_map.h')])
p('C18','Concurrent read-only use is free of data races',
  ('Any number of threads may concurrently call const operations (lookup, size, iteration, copying from it, inserting from a range of it into another map) and the lookups and iterations of a map that is not const on one group15, group16 or robin hash map, and operate on distinct map objects, without data race and with the same results as sequentially; in particular empty maps share no mutable state.'),['schedules','histories'],
  'all interleavings of const calls on shared maps and any calls on distinct maps','All tests are single threaded.',
  G15[:2]+G16[:2]+ROB,[('shared static empty group',H+'flat_map_group15.hpp / robin_hash_map.h default_empty_ctrls')])
p('C19','Byte-string hash functions depend exactly on the bytes given',
  ('Each string hash (CRC32C, Times31/BKDR variants, AP, DJB, FNV-1a variants, OpenSSL-style, SHA-1 based and the string hash helpers built on them) returns the same value for the same bytes and length wherever they are stored, never reads outside those bytes, and equals its published/reference definition; equal string, string_view and char-pointer keys get equal hash codes from one helper family.'),['inputs'],
  'all byte strings, lengths, alignments and surrounding memory','Benchmarks hash a fixed word list and only compare map checksums.',
  ['src/jstd/hasher/hashes.h','src/jstd/hasher/hash_crc32.h','src/jstd/hasher/hash_helper.h','src/jstd/hasher/fnv1a.h'],[('tail masking','src/jstd/hasher/hash_crc32.h intel_crc32_x64'),('unrolled BKDR','src/jstd/hasher/hashes.h')])
p('C20','Integer hash mixers equal their defining arithmetic',
  ('Each integer mixer (Fibonacci, MUM multiply-mix in 32/64 bit, CRC32 of an integer, 128-bit multiplication helpers) returns for every argument exactly the value of its defining modular arithmetic, deterministically.'),['inputs'],
  'all 32/64-bit arguments','Tests use one mixer only as a map hash, where wrong values still give right checksums.',
  ['src/jstd/hasher/hashes.h','src/jstd/hasher/hash_crc32.h'],[('uint128_mul','src/jstd/hasher/hashes.h'),('mum_hash','src/jstd/hasher/hashes.h')])
p('C21','string_view agrees with the standard string_view on every query',
  ('For all byte strings (embedded NULs and high bytes included), equality, inequality, the four orderings and compare of string views give the sign/truth the standard string_view gives, they are a total order consistent with equality, and substr, copy, at, front, back, iteration and to_string return what the standard type returns, throwing out_of_range in the same cases.'),['inputs'],
  'all pairs of strings, positions and counts, any memory placement','string_view keys are only hashed and compared for equality over a word list.',
  ['src/jstd/string/string_view.h','src/jstd/string/string_utils.h'],[('relational operators','src/jstd/string/string_view.h'),('SIMD compare','src/jstd/string/string_utils.h')])
p('C22','String comparison primitives match memcmp/strcmp and stay in bounds',
  ('The length-delimited and NUL-terminated equality and three-way comparison helpers (C-library, STL and SIMD flavours, safe and unsafe entry points, char and wchar_t where provided) return the truth/sign of the lexicographic comparison of the given characters as unsigned units and never access memory outside the given strings.'),['inputs'],
  'all string pairs and lengths, strings ending at an inaccessible page','Only reached through benchmark map look-ups.',
  ['src/jstd/string/string_utils.h','src/jstd/string/string_libc.h','src/jstd/string/string_stl.h'],[('cmpestri block compare','src/jstd/string/string_utils.h')])
C23_DRAFT='''p('C23','Text formatting renders every argument exactly',
  ('Formatting integers, floats, characters, strings and pointers through the formatter produces exactly the text its format directives prescribe for every argument value (full range of each integer type, any string length), writes nothing outside its destination and leaves the remaining text intact.'),['inputs'],
  'all argument values, format strings, buffer sizes','The formatter is not tested.',['src/jstd/string/formatter.h'],[('append/sprintf family','src/jstd/string/formatter.h')])
'''
p('C24','Bit and power-of-two arithmetic is exact over the whole range',
  ('Every bit-scan, population-count, lowest/highest-bit, is-power-of-two, round-up/round-down/next-power, integer log2 and log10 function (compile-time and run-time forms) returns its mathematical value for every argument in its domain, and the compile-time and run-time forms agree.'),['inputs'],
  'all values of each width incl. boundaries 0, 2^k-1, 2^k, 2^k+1, max','power2_test prints a table whose content is not checked.',
  ['src/jstd/support/Power2.h','src/jstd/support/BitUtils.h','src/jstd/math/log10_int.h'],[('bsf/bsr/popcnt wrappers','src/jstd/support/BitUtils.h')])
p('C25','SIMD bit vectors equal their lane-by-lane meaning',
  ('Every wrapper over the 128- and 256-bit SIMD vectors (extracting and inserting a 16/32/64-bit lane, broadcasting, all-ones, signed byte comparison, reading the low lanes, joining halves, bit tests, the lane unions) gives for every operand and every lane exactly the value its definition on an array of lanes gives, and leaves the other lanes as they were, whatever instruction set and signedness of char it is compiled for.'),['inputs'],
  'all operand bit patterns, all lane indexes; AVX and AVX2, signed and unsigned char','Not tested directly.',['src/jstd/support/BitVec.h'],[('_mm/_mm256 wrappers','src/jstd/support/BitVec.h')])
p('C26','Random generators are the generators they claim and stay in range',
  ('The 32- and 64-bit Mersenne Twister generators produce, for every non-zero seed and every non-empty key array, exactly the sequence of the reference generators (mt19937ar, mt19937-64) for as long as they are drawn from; re-seeding restarts the sequence, equal seeds give equal sequences, a copy continues on its own where the original stood; and every ranged integer or real draw, over any range up to the full one and with its bounds in either order, lies within its inclusive bounds, with every value of an integer range able to come up.'),['inputs','histories'],
  'all seeds and key arrays, draw counts, interleavings of drawing, re-seeding and copying, ranges','Benchmarks consume the numbers without checking them.',['src/jstd/system/MT19937_32.h','src/jstd/system/MT19937_64.h','src/jstd/system/RandomGen.h'],[('twist/temper','src/jstd/system/MT19937_64.h'),('nextUInt ranges','src/jstd/system/RandomGen.h')])
p('C27','string_view_array owns its entries; pairs copy, move and swap whole',
  ('A string_view_array owns every pair handed to it: in every history of push_back, pop_back, clear, resize, reserve, copying, moving and swapping, each pair is destroyed exactly once, when its entry is removed or the array holding it dies, never before and never leaked; entries keep their order, address and values until then; a copy (of an array into an empty one) has equal values in pairs of its own, null entries staying null; moving and swapping hand over the entries themselves; every reading form agrees and at() throws out_of_range outside; and a string_view_pair copies, moves, assigns and swaps both halves.'),['inputs','histories'],
  'all operation histories over several arrays, null entries included, element types with observable lifetimes','Only benchmarks use it; nothing checks it.',['src/jstd/string/string_view_array.h'],[('destroy/clear/copy_impl','src/jstd/string/string_view_array.h')])
p('C28','Assertions of the library hold in debug builds, with the same results',
  ('In a build with assertions on (NDEBUG not defined, with or without _DEBUG, as the project\'s own Debug configuration makes it) no assertion of the library fails in any use that meets the documented preconditions: every history of map operations over every layout and element type, and every call of the hash, string, bit, SIMD and random number functions on arguments of their domain, ends with the results of the release build, never with an abort.'),['inputs','histories'],
  'all operation histories of the maps, all arguments of the functions, both ways of switching assertions on','The tests are built with NDEBUG: no assertion is evaluated by them.',['src/jstd/hashmap/robin_hash_map.h','src/jstd/hashmap/group15_flat_table.hpp','src/jstd/hashmap/group16_flat_table.hpp','src/jstd/hashmap/flat16_hash_map.h','src/jstd/hashmap/robin16_hash_map.h','src/jstd/support/Power2.h','src/jstd/string/string_utils.h','src/jstd/hasher/hash_crc32.h'],[('assert() on slot and control indexes','src/jstd/hashmap/robin_hash_map.h'),('assert() on the matched index','src/jstd/string/string_utils.h')])
if __name__=='__main__':
    for x in P: print(json.dumps(x))
