#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for titles/statements)."""
import json
CO='frozen-collections-core/src/'
FM=CO+'facades/frozen_map.rs'; FS=CO+'facades/frozen_set.rs'
HT=CO+'specialized_maps/hash_table.rs'
AN=[CO+'analyzers/hash_code_analyzer.rs',CO+'analyzers/int_key_analyzer.rs',CO+'analyzers/slice_key_analyzer.rs']
SM=[CO+'specialized_maps/'+x+'.rs' for x in 'common_map integer_map integer_range_map left_slice_map right_slice_map length_map scanning_map'.split()]
SS=[CO+'specialized_sets/'+x+'.rs' for x in 'common_set integer_set integer_range_set left_slice_set right_slice_set length_set scanning_set'.split()]
IM=CO+'specialized_maps/iterators.rs'; IS=CO+'specialized_sets/iterators.rs'
OPS=CO+'specialized_sets/set_ops.rs'; SET=CO+'specialized_sets/set.rs'
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
p('C01','Map lookups are exact',
 'For every frozen map built from entries with pairwise distinct keys, looking up a stored key (get, get_key_value, contains_key, indexing, mutable get) yields exactly the value, and the key, it was built with. Looking up any key that was not supplied reports absence (indexing panics), however similar the key is to stored ones. This holds for every key type, collection size, key shape and insertion order.',
 ['inputs','configurations'],'all payloads x all probe keys x key types (u32, strings, every other Hash+Eq type) x sizes across every representation threshold x insertion orders',
 'Tests build a handful of contiguous/even u32 maps and one i32 map; strings are only touched by doc examples, absent keys hardly at all, and the right-hand-slice representation is never built.',
 [FM,HT]+AN+SM,[('representation selection',FM),('hash table layout and probing',HT),('key analysis',AN[2])],
 [('map representation','which of the eleven representations holds the entries',FM),('slots/entries','slot -> contiguous run of entries',HT)],
 ['FrozenMap::get','get_key_value','contains_key','Index','get_mut'])
p('C02','Construction accepts every payload',
 'Building a frozen map or frozen set succeeds - no panic, abort or hang - for every payload: any key type, any number of entries, any key contents (empty, long, non-ASCII, sharing prefixes or suffixes, extreme integers) in any order. Every construction route (vector, array, iterator, collect, default, with or without an explicit hasher) gives a collection with the same contents.',
 ['inputs','configurations'],'all payloads x construction routes x key types',
 'Tests construct a few dozen payloads; key analysis has data-dependent branches (slice length/position, contiguous ranges, collision budgets, prime tables) most of which no test reaches.',
 [FM,FS]+AN+[HT],[('analysis',AN[2]),('table sizing',AN[0]),('construction',FM)],(),['FrozenMap::from*','FrozenSet::from*','FromIterator','Default'])
p('C03','Value updates hit exactly one entry',
 'Over any sequence of in-place value updates (mutable get, mutable indexing, multi-get) and reads, each read returns the last value written to that key, or its original value. Updating one key never changes another key\'s value, the set of keys, the number of entries or the iteration order, and an update attempt on an absent key changes nothing.',
 ['histories','inputs'],'all update/read histories on all maps of every representation',
 'Unit tests perform at most one mutation and read it back through the same accessor; interference between entries is a property of histories.',
 [FM]+SM,[('get_mut per representation',FM),('slot run scan',SM[0])],(),['get_mut','IndexMut','get_many_mut','get','iter'])
p('C04','Multi-key mutable access is all-or-nothing',
 'Requesting mutable access to several keys at once succeeds exactly when all requested keys are present and pairwise distinct, and then yields, in request order, one non-aliasing reference to each requested key\'s own value. In every other case it yields nothing and changes nothing.',
 ['inputs','histories'],'all arrays of requested keys (any length, with repeats and absentees in any position) on maps of every representation',
 'One doc example with two keys; position, arity, repetition and representation are all quantified.',
 [FM]+SM,[('uniqueness pre-check and unchecked writes',FM)],(),['get_many_mut'])
p('C05','Iteration is complete and duplicate-free',
 'Iterating a collection (entries, keys, values, by reference or consuming) visits every stored entry exactly once and nothing else, in one fixed order shared by all iterations of that collection; values keep the position of their key. The reported length, emptiness and debug rendering agree with what iteration visits.',
 ['inputs','histories'],'all collections of every representation x all ways of iterating',
 'Only one test iterates, over four entries, and asserts nothing about the items.',
 [FM,FS,IM,IS,HT],[('entry array',HT),('iterators',IM)],(),['iter','keys','values','IntoIterator','len','is_empty','Debug'])
p('C06','Iterators honour the iterator contract',
 'At every point of every iterator over a map, a set, or a set combination: the size bounds bracket the number of items still to come (and are exact where an exact length is offered), counting, folding or rendering the rest gives precisely the items still to come, skipping n items passes over exactly n (or exhausts the iterator, however large n is), a cloned iterator continues independently from the same position, and an exhausted iterator keeps reporting exhaustion.',
 ['histories','inputs'],'all interleavings of next / size query / count / fold / nth / clone on all iterators',
 'Tests never advance an iterator before asking for its size, count or clone.',
 [IM,IS],[('position-based iterators',IM),('set combination iterators',IS)],[('index','items already returned',IM)],['Iter','Keys','Values','IntoIter','Union','Intersection','Difference','SymmetricDifference'])
p('C07','Set membership is exact',
 'A frozen set reports a value as contained, and hands back the stored equal value, exactly when an equal value was supplied at construction. This holds for every element type, size, shape and insertion order.',
 ['inputs','configurations'],'all payloads x all probes x element types x sizes',
 'One test over contiguous usize ranges; string and u32 representations of sets are never probed.',
 [FS]+SS,[('representation selection',FS),('sets as maps to unit',SS[0])],(),['FrozenSet::contains','FrozenSet::get','Set::contains'])
p('C08','Set combinations are mathematically exact',
 'Union, intersection, difference and symmetric difference between a frozen or specialized set and any other set type - as lazy iterators and through the |, &, - and ^ operators - produce exactly the mathematical result, each element once. This holds whichever operand is larger, and for empty, equal, nested and disjoint operands.',
 ['inputs','configurations'],'all pairs of sets x operand representations (frozen, specialized, HashSet, BTreeSet) x relative sizes',
 'Doc examples cover one operand pair with equal sizes.',
 [IS,SET,FS]+SS,[('combination iterators',IS),('operators',FS)],(),['union','intersection','difference','symmetric_difference','BitOr','BitAnd','Sub','BitXor'])
p('C09','Set relations and equality are exact',
 'Subset, superset, disjointness and equality tests between sets answer exactly the mathematical question about their elements. They depend only on the elements, not on either operand\'s representation, insertion order, hasher state or relative size.',
 ['inputs','configurations'],'all pairs of sets x operand representations',
 'No test exercises these operations.',
 [OPS,SET,FS]+SS,[('length pre-checks plus membership scans',OPS),('PartialEq',FS)],(),['is_subset','is_superset','is_disjoint','PartialEq'])
p('C10','Map equality is extensional',
 'Two maps compare equal exactly when they hold the same keys with equal values (equal as their type has it, so that a value unequal to itself makes its map unequal to itself), whatever their insertion order, hasher state or internal representation. In-place updates change the verdict exactly when they make the contents differ or coincide.',
 ['inputs','histories'],'all pairs of maps, before and after any updates',
 'No test compares two maps.',
 [FM]+SM,[('length check then lookup of every entry',FM)],(),['PartialEq'])
p('C11','Clones are equal and independent',
 'A clone of a collection (made by clone or by clone_from) answers every query as the original did at the moment of cloning, and afterwards updating or dropping either one is never visible through the other.',
 ['histories'],'all interleavings of clone, update, drop and reads on originals and clones of every representation',
 'No test clones a collection.',
 [FM,FS]+SM,[('derived Clone over boxed storage',FM)],(),['Clone'])
p('C12','Repeated keys collapse like a standard map or set',
 'Building a frozen map or set from a payload with repeated keys gives the same contents as a standard hash map or set built from it: one entry per distinct key, holding the last value supplied. Length, iteration, equality, lookups and set operations all see the collapsed contents, and no key that was not supplied becomes present.',
 ['inputs'],'all payloads with repeated keys (any multiplicity, position and representation)',
 'Tests never supply a repeated key.',
 [FM,FS]+AN[:2],[('payload collapsing at construction',FM)],(),['FrozenMap::from*','FrozenSet::from*'])
p('C13','Results never depend on the hasher',
 'Observable behaviour of a frozen collection built with an explicit hasher - contents, lookups, updates, iteration contents, length - is the same for every well-behaved hash builder, including constant, low-entropy, high-bits-only and identity-like ones. Hash quality may affect speed only.',
 ['configurations','inputs'],'all deterministic hash builders x payloads x probes',
 'Tests use only the default random hasher, under which collisions practically never occur.',
 [FM,FS,HT,CO+'specialized_maps/common_map.rs',AN[0],AN[2]],[('equality check within a slot',SM[0]),('slot count choice',AN[0])],(),['with_hasher','from_vec_with_hasher','from_iter_with_hasher'])
p('C14','Index-size limits are enforced, never corrupting',
 'A specialized map or set parameterised by a small index type accepts every payload up to that type\'s maximum count and then behaves exactly, and panics at construction for anything larger. It never silently loses or corrupts entries.',
 ['inputs','configurations'],'payload sizes around every index type limit x specialized types',
 'Tests build specialized maps with at most a few entries.',
 [HT]+SM,[('capacity check',HT)],[('slots','entry ranges stored in the small index type',HT)],['CommonMap','IntegerMap','LengthMap','LeftSliceMap','RightSliceMap and set counterparts'])
p('C15','Range collections cover exactly their range',
 'A range-based integer collection can be built exactly from payloads whose keys are distinct and contiguous, in any order and for any integer type, and panics otherwise. Lookups then succeed exactly from the smallest to the largest key, including at the extremes of the integer type, and never panic.',
 ['inputs','configurations'],'all integer types x ranges (incl. touching the type limits, empty, wider than the signed maximum) x probes',
 'One test with i32 and ten entries.',
 [CO+'specialized_maps/integer_range_map.rs',CO+'specialized_sets/integer_range_set.rs',AN[1]],[('sort, contiguity assertion, offset indexing',CO+'specialized_maps/integer_range_map.rs')],[('min/max','bounds of the stored range',CO+'specialized_maps/integer_range_map.rs')],['IntegerRangeMap','IntegerRangeSet'])
p('C16','Specialized collections all implement the same map or set',
 'Every specialized map or set (general, integer, length-hashed, slice-hashed, scanning), for every index size and every key type it supports, answers lookups, multi-gets, updates, iteration, equality and length exactly as the reference mapping of its distinct-key payload. Lookups through a borrowed form of the key agree with lookups by the key itself.',
 ['inputs','configurations'],'all specialized types x index sizes x payloads x probes',
 'Per-type tests use one to three entries and rarely probe absent keys.',
 SM+SS,[('per-type hash function and slot scan',SM[0])],(),['specialized_maps::*','specialized_sets::*'])
p('C17','The frozen_map! macro equals the run-time map',
 'A map literal written with the macro compiles and holds exactly the written entries for every supported key type and every set of distinct keys (contiguous, sparse, negative, extreme, strings of any shape), and absent keys are reported absent. Value expressions are each evaluated exactly once, in source order.',
 ['programs','inputs'],'all macro invocations with distinct literal keys',
 'The macro test prints expanded tokens and neither compiles nor checks them.',
 [CO+'macros/frozen_map.rs','frozen-collections-macros/src/lib.rs','frozen-collections/src/lib.rs']+AN[1:],[('compile-time analysis and code generation',CO+'macros/frozen_map.rs')],(),['frozen_map!'])
p('C18','Reads are pure under any order and concurrency',
 'Lookups and iterations leave no trace: any number of reads, in any order and from any number of threads sharing the collection, each return what the same read would return on a freshly built collection.',
 ['schedules','histories'],'all read histories and all interleavings of concurrent readers',
 'Tests read each key once, from one thread.',
 [FM,FS,IM,IS],[('shared references without interior mutability',FM)],(),['get','iter','contains','set operations'])
p('C19','Every key and value is dropped exactly once',
 'Each key and value handed to a collection is either still stored, has been handed out by a consuming iterator, or has been dropped - exactly once, with no leak and no double drop. This holds across construction (including one that panics or collapses repeats), overwriting, cloning, partial consumption and dropping of the collection.',
 ['histories','fault_sequences'],'all histories of build / overwrite / clone / partially consume / drop, including failing constructions',
 'Tests never count drops.',
 [FM,FS,HT,IS],[('moves and transmutes of the payload',FM),('payload moved through preparation items into the entry array',HT)],(),['Drop of keys and values'])
p('C20','Lookup effort stays small',
 'A lookup hashes at most once. In the hash-based collections it compares the probe only with stored keys whose hash codes share its slot (code modulo table size) in a table of at least about as many slots as entries (no fewer than 95%), with each of them at most once; when the stored hash codes are consecutive integers a lookup compares at most one stored key. The table has at most sixteen slots per entry. Only the scanning collections, and facades of a handful (at most seven) of entries, compare with every stored key.',
 ['inputs','configurations'],'all payloads and probes, observed through the hasher, the key comparison and the allocator',
 'The analysis test pins slot counts for a few inputs; nothing measures what a lookup does.',
 [HT,AN[0],CO+'specialized_maps/common_map.rs'],[('table size choice',AN[0]),('slot run scan',SM[0])],(),['Hasher calls','Eq calls','allocator'])
p('C21','The length abstraction counts correctly',
 'For every supported container and string type, owned, borrowed or behind a smart pointer, the reported length is the number of elements (for strings, of bytes, excluding any terminator), and it reports emptiness exactly when that number is zero.',
 ['inputs'],'all supported types x contents',
 'The trait has no tests; length-hashed maps rely on it for hash consistency.',
 [CO+'traits/len.rs'],[('per-type implementations',CO+'traits/len.rs')],(),['Len::len','Len::is_empty'])
if __name__=='__main__':
    open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
