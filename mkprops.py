import json
C='include/boost/icl/concept/interval.hpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,**k):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**k)))
IVF=[C,'include/boost/icl/discrete_interval.hpp','include/boost/icl/continuous_interval.hpp','include/boost/icl/right_open_interval.hpp','include/boost/icl/left_open_interval.hpp','include/boost/icl/closed_interval.hpp','include/boost/icl/open_interval.hpp']
p('I01','Intervals contain exactly the elements between their bounds',
 'For every interval type (static or dynamic bounds, discrete or continuous, ascending or descending order) an interval built from two bounds by a constructor, factory, construct, span or hull contains exactly the elements between the bounds as their openness says, and an interval built from one element contains exactly that element (for half-open continuous types: the unit step from it). contains(interval, element), is_empty, lower, upper, first, last and last_next all agree with that element set; a default-constructed interval is empty.',
 ['inputs','configurations'],'all bound values at least two steps away from the numeric limits, all four bound types, all supported interval types',
 'Tests sample a few dozen small intervals per type; off-by-one errors in bound handling show only for particular bound types, value pairs or descending orders.',
 IVF+['include/boost/icl/interval.hpp','include/boost/icl/detail/interval_morphism.hpp','include/boost/icl/dynamic_interval_traits.hpp'],[('construct / singleton / unit_trail / span / hull',C),('is_empty, contains, first, last',C),('interval<> factories','include/boost/icl/interval.hpp')])
p('I02','Interval comparisons and relations agree with the element sets',
 'Two intervals are equal exactly when they contain the same elements; exclusive_less holds exactly when every element of the first precedes every element of the second (or one is empty); contains/within, intersects and disjoint decide subset, common element and no common element; touches holds for non-empty intervals exactly when nothing fits between the end of the first and the begin of the second. For non-empty intervals <, >, <=, >= order by where the intervals begin, then by where they end, and are false when an empty interval takes part; lower_/upper_ less/equal/less_equal compare begins and ends, whatever mixture of open and closed bounds is used.',
 ['inputs','configurations'],'all pairs of intervals of all supported interval types',
 'The pairs of bound types times value relations are far more than tests enumerate; the container comparator relies on them for every key pair.',
 IVF+['include/boost/icl/concept/interval_bounds.hpp'],[('exclusive_less and comparator',C),('operator ==, <, <=',C),('touches',C),('lower_less .. upper_less_equal',C)])
p('I03','Interval intersection, hull, difference and gap are exact',
 'For all intervals a and b: a & b contains exactly the common elements; hull(a,b) is the smallest interval containing both; left_subtract(a,b) keeps exactly the elements of a behind all of b and right_subtract(a,b) exactly the elements of a before all of b; inner_complement/between contain exactly the elements strictly between a and b and are empty if they overlap or one is empty.',
 ['inputs','configurations'],'all pairs of intervals, empty ones included, of all supported interval types',
 'Wrong openness of a result bound shows only for particular pairs of bound types with equal bound values.',
 IVF+['include/boost/icl/dynamic_interval_traits.hpp','include/boost/icl/detail/subset_comparer.hpp'][:1],[('operator &, hull, left_subtract, right_subtract, inner_complement',C)])
p('I04','Interval sizes, lengths and distances count elements exactly',
 'cardinality and size of a discrete interval are the number of its elements and length is the same number in the difference type; for continuous intervals length is the distance of the bounds and cardinality is 0, 1 or infinite. distance(a,b) is the number of elements (continuous: the length) of the gap between two disjoint non-empty intervals and zero otherwise, for ascending and descending orders.',
 ['inputs','configurations'],'all intervals and pairs whose size or gap is representable in the difference type',
 'Off-by-one and sign errors depend on the combination of openness, order and value.',
 IVF,[('cardinality, size, length, distance',C)])

SF=['include/boost/icl/interval_base_set.hpp','include/boost/icl/interval_set.hpp','include/boost/icl/separate_interval_set.hpp','include/boost/icl/split_interval_set.hpp','include/boost/icl/detail/interval_set_algo.hpp','include/boost/icl/concept/interval_set.hpp','include/boost/icl/concept/interval_associator.hpp']
SQ='all interval sets reachable by the API (any number of segments, any of the three combining styles), all operands, empty ones included; bounds at least two steps away from the numeric limits'
p('S01','Adding or inserting to an interval set yields exactly the set union',
 'For interval_set, separate_interval_set and split_interval_set, adding or inserting an element or a segment (add, insert, icl::add, icl::insert, +=, |=, construction from a segment, and the hinted forms with any valid iterator) yields exactly the elements that were in the set or are in the operand; the stored segments stay non-empty, disjoint and sorted, segments that neither overlap nor get joined with the operand are not touched (iterators to them stay valid), and the hinted form returns a valid iterator.',
 ['inputs','configurations','histories'],SQ,
 'The number of segment configurations hit by an insertion is unbounded; the hint, joining and splitting paths interact with bound types that tests only sample.',
 SF,[('_add / add_over / add_main / insert','include/boost/icl/interval_base_set.hpp'),('join_under, join_neighbours, on_style','include/boost/icl/detail/interval_set_algo.hpp')])
p('S02','Subtracting or erasing from an interval set yields exactly the set difference',
 'For all interval set types, subtracting or erasing an element or a segment (subtract, erase, -=, icl::erase, icl::subtract), erasing by iterator and clear remove exactly the elements of the operand and no others; what is left stays non-empty, disjoint and sorted, and segments that do not overlap the operand are not touched.',
 ['inputs','configurations','histories'],SQ,
 'Left and right residuals of the first and last overlapped segment depend on every combination of bounds and segment count.',
 SF,[('subtract','include/boost/icl/interval_base_set.hpp'),('erase','include/boost/icl/concept/interval_set.hpp')])
p('S03','Intersecting or flipping an interval set with a segment or element is exact',
 'For all interval set types, &= with a segment or element keeps exactly the common elements, flip / ^= with a segment or element keeps exactly the elements of one operand that are not in the other, and add_intersection(section, set, segment) adds exactly the common elements to section and leaves the set unchanged, also for empty operands.',
 ['inputs','configurations','histories'],SQ,
 'flip subtracts and adds while it iterates over the same container; wrong steps show only for particular patterns of gaps and overlaps.',
 SF,[('flip, add_intersection','include/boost/icl/concept/interval_set.hpp')])
p('S04','Each interval set style keeps its segmentation law',
 'interval_set never stores two segments that overlap or touch. separate_interval_set merges an added segment with exactly the segments it overlaps into one segment and keeps all other borders, also those that merely touch. split_interval_set keeps every old border, introduces borders exactly at the begin and end of an added segment and fills every gap by one segment. Subtraction cuts the segments exactly at the borders of the operand and changes no other border.',
 ['inputs','configurations','histories'],SQ,
 'Element-wise equal results can still have wrong borders; tests compare a few dozen segmentations.',
 SF,[('on_style::add_over, handle_inserted','include/boost/icl/detail/interval_set_algo.hpp'),('add_front, add_main, add_rear','include/boost/icl/interval_base_set.hpp')])
p('S05','Queries on interval sets agree with the set of elements',
 'contains, within, intersects and disjoint with an element or segment, find, lower_bound, upper_bound, is_empty, hull, lower, upper, first and last answer exactly according to the elements of the set (find returns the first segment overlapping the key or end()), for every style and also when a contained segment is covered by several touching segments. Queries do not change the set.',
 ['inputs','configurations','histories'],SQ+'; find and bounds take non-empty segments',
 'Coverage by several touching segments, gaps at particular borders and end positions are combinations that tests only sample.',
 SF,[('contains','include/boost/icl/concept/interval_set.hpp'),('is_joinable','include/boost/icl/detail/interval_set_algo.hpp'),('find, lower_bound, equal_range','include/boost/icl/interval_base_set.hpp')])
p('S06','Union, difference, intersection and symmetric difference of interval sets are exact',
 'For two interval sets a and b of the same type, a += b, a |= b, a -= b, erase(a,b), a &= b, a ^= b and add_intersection(r,a,b) yield exactly the union, difference, intersection and symmetric difference of the element sets, keep the segments non-empty, disjoint, sorted and (for interval_set) joined, and leave b unchanged.',
 ['inputs','configurations','histories'],'all pairs of distinct interval set objects of the same type, of any number of segments',
 'The common-range shortcuts and the alternation of additions and subtractions depend on the relative position of all segments of both operands.',
 SF+['include/boost/icl/detail/set_algo.hpp'],[('operator +=, -=, &=, ^=','include/boost/icl/concept/interval_associator.hpp'),('flip','include/boost/icl/concept/interval_set.hpp'),('common_range','include/boost/icl/detail/set_algo.hpp')])
p('S07','Comparisons of interval sets agree with their elements and segments',
 'For two interval sets of the same type: a == b holds exactly when both have the same segments and != is its negation; a < b (and >, <=, >= derived from it) is the lexicographical order of the segment sequences; is_element_equal(a,b) holds exactly when they contain the same elements; contains(a,b) and within(b,a) hold exactly when every element of b is in a; intersects(a,b) holds exactly when they have a common element and disjoint is its negation; inclusion_compare answers equal, subset, superset or unrelated accordingly. Comparisons do not change their operands.',
 ['inputs','configurations','histories'],'all pairs of distinct interval set objects of the same type, of any number of segments',
 'The subset comparer walks both sequences with a state machine whose transitions depend on every relative position of two segments.',
 SF+['include/boost/icl/detail/subset_comparer.hpp','include/boost/icl/detail/element_comparer.hpp','include/boost/icl/concept/comparable.hpp'],[('operator ==, <','include/boost/icl/concept/interval_associator.hpp'),('subset_compare','include/boost/icl/detail/subset_comparer.hpp'),('element_comparer','include/boost/icl/detail/element_comparer.hpp')])
p('S08','Copies, moves, swap, join, domain and between of interval sets preserve elements',
 'Copy construction and assignment yield an equal set and leave the source unchanged, move construction yields the former content of the source, swap exchanges the contents; join(s) keeps exactly the elements of s and leaves no two touching segments; domain(d,s) gives d the elements of s, and between(g,s) gives g exactly the elements in the hull of s that are not in s.',
 ['inputs','configurations','histories'],SQ,
 'join and between rewrite or read every pair of neighbouring segments; which of them touch is a combination tests only sample.',
 SF+['include/boost/icl/detail/interval_set_algo.hpp'],[('join','include/boost/icl/detail/interval_set_algo.hpp'),('domain, between','include/boost/icl/concept/interval_set.hpp'),('operator =, swap','include/boost/icl/interval_base_set.hpp')])
p('S09','Sizes of interval sets count elements and segments exactly',
 'iterative_size and interval_count are the number of stored segments; for discrete domains cardinality, size and length are the number of elements of the set; for continuous domains length is the sum of the lengths of the segments.',
 ['inputs','configurations','histories'],SQ+'; the total must be representable in the result type',
 'The sum runs over any number of segments.',
 SF,[('cardinality, length, iterative_size, interval_count','include/boost/icl/concept/interval_associator.hpp')])

MF=['include/boost/icl/interval_base_map.hpp','include/boost/icl/interval_map.hpp','include/boost/icl/split_interval_map.hpp','include/boost/icl/concept/interval_map.hpp','include/boost/icl/concept/interval_associator.hpp','include/boost/icl/functors.hpp']
MQ='all interval maps reachable by the API (any number of segments, interval_map and split_interval_map, absorber and enricher, partial and total traits, any combiner), all operands, empty intervals and identity values included; bounds at least two steps away from the numeric limits'
MW='The maps combine values per overlapped piece while they insert, split and join segments; the pieces that arise depend on the relative position of any number of segments, on joinable values and on identities.'
p('M01','Adding to an interval map combines values element by element',
 'Adding a segment or an element value pair (add, icl::add, +=, |=, construction from a segment, and the hinted form with any valid iterator) to an interval_map or split_interval_map leaves every key outside the operand unchanged, associates every key of the operand that was not in the map with the added value, and every key that was in the map with the combination (the combiner applied to old and added value). With absorbing traits identity values are never stored: adding an identity changes nothing and combinations that yield the identity vanish. The stored segments stay non-empty, disjoint and sorted, interval_map leaves no two touching segments with equal values, and segments apart from the operand are not touched.',
 ['inputs','configurations','histories'],MQ,MW,MF,[('_add, add_front, add_main, add_rear, add_segment, gap_insert','include/boost/icl/interval_base_map.hpp'),('handle_inserted, handle_left_combined, ...','include/boost/icl/interval_map.hpp'),('join_left, join_right','include/boost/icl/detail/interval_map_algo.hpp')])
p('M02','Subtracting from an interval map combines inversely element by element',
 'Subtracting a segment or an element value pair (subtract, icl::subtract, -=) leaves every key outside the operand unchanged and associates every key of the operand that is in the map with the inverse combination of its value and the operand value; keys that are not in the map stay absent, except in total maps with an invertible codomain, where they get the inverse combination of the identity. Absorbing maps drop values that become the identity. The segments stay non-empty, disjoint, sorted and (interval_map) joined.',
 ['inputs','configurations','histories'],MQ,MW,MF,[('_subtract, subtract_front, subtract_main, subtract_rear','include/boost/icl/interval_base_map.hpp')])
p('M03','Inserting into and setting in an interval map is exact',
 'insert of a segment or element value pair (also hinted) gives the value to exactly the keys of the operand that were not in the map and changes no present value; set and set_at give the value to all keys of the operand and change no other key. Absorbing maps treat an identity value as no value. The segments stay non-empty, disjoint, sorted and (interval_map) joined.',
 ['inputs','configurations','histories'],MQ,MW,MF,[('_insert, insert_main, insert_rear','include/boost/icl/interval_base_map.hpp'),('set_at','include/boost/icl/concept/interval_map.hpp')])
p('M04','Erasing from an interval map removes exactly what is named',
 'erase of an interval or key, -= and subtract with an interval or key remove exactly those keys; erase of a segment or element value pair removes exactly the keys of the operand that carry exactly its value; erase by iterator removes exactly that segment and clear removes everything. All other keys keep their values and the segments stay non-empty, disjoint, sorted and (interval_map) joined.',
 ['inputs','configurations','histories'],MQ,MW,MF,[('erase, erase_rest','include/boost/icl/interval_base_map.hpp')])
p('M05','Intersecting or flipping an interval map with segments, elements and keys is exact',
 'For partial maps &= and add_intersection with a segment or element value pair keep exactly the common keys, with the values combined (section combiner for set valued maps, the combiner otherwise); &= and add_intersection with an interval or key keep exactly the common keys with their values. flip and ^= with a segment or element insert the value at keys that are absent and replace the value of common keys by the identity (set valued maps: by the symmetric difference), which absorbing maps drop. For total maps intersection with a segment is addition and flip yields the identity everywhere in the map.',
 ['inputs','configurations','histories'],MQ,MW,MF,[('add_intersection, flip, on_total_absorbable, on_definedness, on_codomain_model','include/boost/icl/interval_base_map.hpp'),('operator &=, ^=','include/boost/icl/concept/interval_associator.hpp')])
p('M06','Queries on interval maps agree with the mapping',
 'contains and within with an interval or key hold exactly when all keys are in the map (always for total maps), with a segment or element value pair exactly when all its keys are mapped to its value; intersects and disjoint with an interval or key tell whether there is a common key, with a segment or element value pair whether the intersection with it is not empty (always for total maps); find returns the first segment overlapping the key or end(), lower_bound and upper_bound separate the segments before and behind the argument, operator() returns the mapped value or the identity; is_empty, hull, lower, upper, first and last agree with the keys. Queries do not change the map.',
 ['inputs','configurations','histories'],MQ+'; find and bounds take non-empty intervals',MW,MF+['include/boost/icl/detail/interval_map_algo.hpp'],[('contains, intersects, find','include/boost/icl/concept/interval_map.hpp'),('Interval_Map::contains','include/boost/icl/detail/interval_map_algo.hpp')])
p('M07','split_interval_map keeps its segmentation law',
 'Adding, inserting, subtracting and erasing keep every border of a split_interval_map outside the operand; adding, subtracting and erasing an interval cut overlapped segments exactly at the begin and end of the operand and fill every gap by one segment; inserting never cuts an existing segment. (Borders only disappear where the segments on both sides of them are erased or absorbed.)',
 ['inputs','configurations','histories'],MQ,MW,MF,[('add_segment, add_main, subtract','include/boost/icl/interval_base_map.hpp'),('handle_*','include/boost/icl/split_interval_map.hpp')])
p('M08','Comparisons of interval maps agree with the mappings and segments',
 'For two interval maps of the same type: == holds exactly when both have the same segments and values, < is the lexicographical order of the segment value sequences, is_element_equal holds exactly when the mappings are equal, is_distinct_equal when they have the same segments and values apart from identity valued segments; for partial maps contains, within and inclusion_compare decide whether one mapping includes the other, contains(map, key set) whether all keys of the set are mapped; intersects and disjoint tell whether there is a common key.',
 ['inputs','configurations','histories'],'all pairs of distinct interval maps of the same type, all interval sets over the same domain',
 'The comparers walk both segment sequences with a state machine whose transitions depend on every relative position of two segments and on their values.',
 MF+['include/boost/icl/detail/subset_comparer.hpp','include/boost/icl/detail/element_comparer.hpp'],[('operator ==, <','include/boost/icl/concept/interval_associator.hpp'),('subset_compare','include/boost/icl/detail/subset_comparer.hpp')])
p('M09','Operators of interval maps with maps and key sets work element by element',
 'a += b, a |= b, a -= b, insert(a,b), erase(a,b), a &= b, a ^= b and add_intersection(r,a,b) for two interval maps give every key the value that the corresponding operation with the single element value pairs of b gives; a -= s, erase(a,s), a &= s and add_intersection(r,a,s) with an interval set s remove or keep exactly the keys of s. The segments stay non-empty, disjoint, sorted and (interval_map) joined and b and s are unchanged.',
 ['inputs','configurations','histories'],'all pairs of distinct interval maps of the same type and all interval sets over the same domain, of any number of segments',MW,MF+['include/boost/icl/detail/interval_map_algo.hpp'],[('operator +=, -=, &=, ^=, erase, insert','include/boost/icl/concept/interval_associator.hpp'),('add_intersection, flip','include/boost/icl/concept/interval_map.hpp')])
p('M10','Copies, moves, swap, join, domain and between of interval maps preserve the mapping',
 'Copy construction and assignment yield an equal map and leave the source unchanged, move construction yields the former content of the source, swap exchanges the contents; join(m) keeps the mapping and leaves no two touching segments with equal values; domain(d,m) gives the set d exactly the keys of m, between(g,m) gives g exactly the keys in the hull of m that are not in m.',
 ['inputs','configurations','histories'],MQ,'join and between depend on every pair of neighbouring segments.',MF+['include/boost/icl/detail/interval_set_algo.hpp'],[('join','include/boost/icl/detail/interval_set_algo.hpp'),('domain, between','include/boost/icl/concept/interval_map.hpp')])
p('M11','Sizes of interval maps count keys and segments exactly',
 'iterative_size and interval_count are the number of stored segments; for discrete domains cardinality, size and length are the number of keys of the map; for continuous domains length is the sum of the lengths of the segments.',
 ['inputs','configurations','histories'],MQ+'; the total must be representable in the result type',
 'The sum runs over any number of segments.',MF,[('cardinality, length, iterative_size, interval_count','include/boost/icl/concept/interval_associator.hpp')])
CLAIM=['I01','I02','I03','I04','S01','S02','S03','S04','S05','S06','S08','M01','M02','M03','M04','M05','M06','M09','M10']
P=[x for x in P if x['id'] in CLAIM]
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import sys
LN={}
TECH='contract-based deductive verification: VC generation from the LLVM IR of the real code, discharged by z3/cvc5'
checks=[]
for x in P:
    i=x['id']
    checks.append(dict(property=i,quick_cmd='python3-vt vc/check.py %s quick'%i,thorough_cmd='python3-vt vc/check.py %s thorough'%i,evidence_file='evidence/%s.json'%i,technique=TECH,level=LN.get(i,('proof',))[0],level_note=LN.get(i,('','every obligation generated from the compiled source is discharged for all inputs; containers of the standard library, absence of exceptions and exact real arithmetic for floating point are assumed'))[1]))
json.dump(dict(version=1,setup_cmd='python3-vt -c "import z3" && mkdir -p evidence',checks=checks,not_applicable=[],notes='See DESIGN.md'),open('MANIFEST.json','w'),indent=1)
