#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in a script so that the wording lives in one readable place)."""
import json, os
I = "include/boost/icl/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I + f for f in files],
                     state=state or [],
                     mechanism=[dict(name=n, where=I + w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "An interval contains exactly the values its bounds admit",
  "An interval built from two endpoints and a bound kind (open, left-open, right-open or closed, fixed by its type or stored at run time) contains exactly the domain values those bounds admit, and every constructor helper for singletons, closed/open ranges and hulls yields the set it names. Its emptiness test, its reported lower and upper bounds and, for discrete domains, its first and last value all describe that same set. Conversions between bound kinds on discrete domains never change the set.",
  ["inputs", "configurations"],
  "for all endpoint values, all four bound kinds, all interval class templates, all supported domain types",
  "The tests instantiate a handful of literal endpoints per interval class; an error at one bound kind, one sign or one extreme value is outside them.",
  ["concept/interval.hpp", "interval_bounds.hpp", "concept/interval_bounds.hpp", "right_open_interval.hpp", "left_open_interval.hpp", "closed_interval.hpp", "open_interval.hpp", "discrete_interval.hpp", "continuous_interval.hpp", "interval.hpp"],
  [("construct / singleton / hull(point, point) / unit trick", "concept/interval.hpp"), ("static_interval bound shifting", "interval.hpp"), ("bound bit encoding", "interval_bounds.hpp")],
  ["contains(interval, value)", "is_empty", "first/last/lower/upper/bounds"])

p("C02", "Interval intersection, hull, subtraction and gap are exact",
  "The intersection, the hull, the left remainder, the right remainder and the inner gap of two intervals contain exactly the domain values set theory prescribes, for every relative position and every mix of bound kinds. An empty operand behaves as the empty set, and the complement and gap of overlapping intervals is empty.",
  ["inputs", "configurations"],
  "for all pairs of intervals (all relative positions, touching, nested, empty, mixed open/closed borders) of every interval class",
  "Tests sample a few literal pairs; the number of relative positions times bound combinations is only reached symbolically.",
  ["concept/interval.hpp", "concept/interval_bounds.hpp"],
  [("operator & / hull / left_subtract / right_subtract / inner_complement", "concept/interval.hpp"), ("inner_bounds, outer_bounds, left_subtract_bounds, right_subtract_bounds", "concept/interval_bounds.hpp")],
  ["membership of a symbolic probe value in the result"])

p("C03", "Interval relations agree with the sets they relate",
  "Containment, overlap, disjointness, touching, strict precedence and equality of two intervals hold exactly when the corresponding statement about their element sets and borders holds. The less-than relation is a strict weak order on non-empty intervals whose equivalence is equality, and comparisons of lower and upper borders order borders by the values they admit.",
  ["inputs", "configurations"],
  "for all pairs and triples of intervals of every interval class, including empty ones",
  "Relations are quantified over all value combinations; the tests check constant examples and never transitivity over all triples.",
  ["concept/interval.hpp", "detail/exclusive_less_than.hpp", "concept/interval_bounds.hpp"],
  [("contains, within, disjoint, intersects, touches, exclusive_less, lower_less, upper_equal ...", "concept/interval.hpp"), ("exclusive_less_than", "detail/exclusive_less_than.hpp")],
  ["return value of each predicate"])

p("C04", "Interval sizes and distances count elements exactly",
  "The cardinality, size and length of an interval equal the number of elements it contains (for discrete domains) or the difference of its borders and the singleton/empty/infinite convention (for continuous domains). The distance of two intervals is the size of the gap between them and zero when they overlap or one is empty.",
  ["inputs", "configurations"],
  "for all intervals and pairs of intervals whose size is representable",
  "Off-by-one errors per bound kind show only for particular kinds and signs; tests hold a few constants.",
  ["concept/interval.hpp", "concept/interval_bounds.hpp", "type_traits/difference_type_of.hpp", "type_traits/size_type_of.hpp"],
  [("cardinality / size / length / distance / shifted bounds", "concept/interval.hpp")],
  ["returned counts"])

p("C05", "Adding to an interval set yields exactly the union",
  "After adding or inserting an element, an interval or a whole interval set of any combining style into an interval set, the set contains exactly the values that were in it or in the operand; empty operands change nothing. The operators and functions that add in place and those returning a new set agree.",
  ["inputs", "histories", "configurations"],
  "for all set contents, all operands, all combining styles (joining, separating, splitting), interval classes and domain types",
  "Every relative position of operand and existing segments is a separate code path; tests reach a hand-picked few with literal values.",
  ["interval_base_set.hpp", "interval_set.hpp", "separate_interval_set.hpp", "split_interval_set.hpp", "detail/interval_set_algo.hpp", "concept/interval_set.hpp", "concept/interval_associator.hpp", "concept/joinable.hpp"],
  [("add / _add / add_over / add_front / add_main / add_rear", "interval_base_set.hpp"), ("join_under, join_neighbours", "detail/interval_set_algo.hpp")],
  ["membership of a symbolic probe value"],
  [dict(name="sequence of segments", meaning="ordered, pairwise disjoint, non-empty intervals", where=I+"interval_base_set.hpp")])

p("C06", "Subtracting or erasing from an interval set yields exactly the difference",
  "After subtracting or erasing an element, an interval or a whole interval set from an interval set, the set contains exactly the values that were in it and not in the operand. Subtracting something disjoint, or empty, changes nothing, and a set minus itself is empty.",
  ["inputs", "histories", "configurations"],
  "for all set contents, operands, combining styles, interval classes and domain types",
  "Residual fragments depend on all relative positions of borders, which the tests sample sparsely.",
  ["interval_base_set.hpp", "concept/interval_set.hpp", "concept/interval_associator.hpp"],
  [("subtract / erase", "interval_base_set.hpp"), ("operator -=", "concept/interval_associator.hpp")],
  ["membership of a symbolic probe value"])

p("C07", "Intersecting interval sets yields exactly the common values",
  "The intersection of an interval set with an element, an interval or an interval set of any style contains exactly the values present in both, whether computed in place, into a new set or into a caller-provided result. Operands are left unchanged.",
  ["inputs", "configurations"],
  "for all set contents, operands, styles, interval classes and domain types",
  "Same position explosion as union; tests sample constants.",
  ["concept/interval_set.hpp", "concept/interval_associator.hpp", "detail/set_algo.hpp", "detail/interval_set_algo.hpp"],
  [("add_intersection, operator &=, common_range", "concept/interval_set.hpp")],
  ["membership of a symbolic probe value"])

p("C08", "Flipping an interval set yields exactly the symmetric difference",
  "Flipping an element, an interval or a whole interval set in an interval set leaves exactly the values that were in one but not both. Flipping the same operand twice restores the original contents.",
  ["inputs", "configurations"],
  "for all set contents, operands, styles, interval classes and domain types",
  "The flip loop advances through overlaps with several border cases; tests fix a few.",
  ["interval_base_set.hpp", "concept/interval_set.hpp", "concept/interval_associator.hpp"],
  [("flip, operator ^=", "concept/interval_set.hpp")],
  ["membership of a symbolic probe value"])

p("C09", "Interval sets keep the segmentation their combining style promises",
  "At all times an interval set is a strictly ordered sequence of non-empty, pairwise disjoint intervals. A joining set never holds two touching intervals; a separating set merges an added interval with those it overlaps but keeps the borders to those it merely touches; a splitting set keeps every existing border, and adds the borders of every interval added, wherever they are inside or at the edge of its contents. Two joining sets with the same values are identical sequences whatever history produced them.",
  ["inputs", "histories", "configurations"],
  "for every reachable set, every operation and operand, every style",
  "An invariant over all histories; tests compare final values of short fixed histories.",
  ["interval_base_set.hpp", "interval_set.hpp", "separate_interval_set.hpp", "split_interval_set.hpp", "detail/interval_set_algo.hpp", "concept/joinable.hpp"],
  [("handle_inserted, add_over, join_under, join_neighbours", "detail/interval_set_algo.hpp")],
  ["sequence of segments after each operation"],
  [dict(name="segments", meaning="std::set of intervals ordered by exclusive_less", where=I+"interval_base_set.hpp")])

p("C10", "Adding to an interval map aggregates values exactly on the overlap",
  "After adding a key/value, interval/value or whole map to an interval map, every key outside the operand keeps its value, every key that was present maps to the combination of old and new value by the map's combiner in that order, and every key that was absent maps to the operand's value (combined with the combiner's neutral value). In absorbing maps keys whose value becomes neutral disappear; empty intervals change nothing.",
  ["inputs", "histories", "configurations"],
  "for all map contents, operands, combiners, traits (partial/total, absorbing/enriching), styles, interval classes",
  "Value at every key for all relative positions and all values (including ones that turn neutral) is far outside sampled tests.",
  ["interval_base_map.hpp", "interval_map.hpp", "split_interval_map.hpp", "detail/interval_map_algo.hpp", "detail/on_absorbtion.hpp", "functors.hpp", "concept/interval_map.hpp"],
  [("_add / add_front / add_main / add_rear / gap_insert / add_segment", "interval_base_map.hpp"), ("combiner functors", "functors.hpp")],
  ["value at a symbolic probe key"])

p("C11", "Subtracting from an interval map applies the inverse combiner on the overlap",
  "Subtracting an interval/value pair or a map from an interval map combines, for every key in the overlap, the stored value with the operand's by the inverse combiner and leaves every other key unchanged (total maps with an invertible combiner additionally gain the inverted value on absent keys). Subtracting keys or intervals without value removes exactly those keys. In absorbing maps subtracting what was just added to absent keys restores the map.",
  ["inputs", "histories", "configurations"],
  "for all map contents, operands, combiners, traits, styles and interval classes",
  "As for addition; tests sample constants.",
  ["interval_base_map.hpp", "concept/interval_map.hpp", "detail/interval_map_algo.hpp", "functors.hpp"],
  [("_subtract / subtract_front / subtract_main / subtract_rear", "interval_base_map.hpp"), ("inverse<> of functors", "functors.hpp")],
  ["value at a symbolic probe key"])

p("C12", "Insert never overwrites and set always overwrites in interval maps",
  "Inserting an interval/value pair or a map gives the operand's value exactly to the keys that were absent and never changes a value already stored. Setting a pair makes every key of its interval map to the given value and changes no other key. Absorbing maps ignore inserts of neutral values.",
  ["inputs", "histories", "configurations"],
  "for all map contents, operands, traits, styles and interval classes",
  "Partial overlaps over several segments and gaps are sampled, not covered.",
  ["interval_base_map.hpp", "concept/interval_map.hpp"],
  [("_insert / insert_main / insert_rear / set", "interval_base_map.hpp")],
  ["value at a symbolic probe key"])

p("C13", "Erasing from an interval map removes exactly the named keys or pairs",
  "Erasing an element, an interval or an interval set removes exactly those keys and keeps every other key's value. Erasing an interval/value pair or a map removes exactly the keys whose stored value equals the operand's value there, and nothing else.",
  ["inputs", "histories", "configurations"],
  "for all map contents, operands, traits, styles and interval classes",
  "Residual fragments and value matches over all positions are not sampled.",
  ["interval_base_map.hpp", "concept/interval_map.hpp"],
  [("erase(segment), erase(interval), erase_rest", "interval_base_map.hpp")],
  ["value at a symbolic probe key"])

p("C14", "Intersecting interval maps keeps exactly the common keys with combined values",
  "Intersecting a map with an element, an interval or an interval set keeps exactly the common keys with unchanged values. Intersecting a partial map with a pair or a map keeps exactly the common keys and combines both values there by the codomain's intersection operation when it has one and by the map's combiner otherwise; total maps combine by their combiner over the union of keys.",
  ["inputs", "configurations"],
  "for all map contents, operands, codomains, traits, styles and interval classes",
  "Tests cover few constant overlaps.",
  ["interval_base_map.hpp", "concept/interval_map.hpp", "concept/interval_associator.hpp"],
  [("add_intersection, on_total_bijective / on_codomain_model", "interval_base_map.hpp")],
  ["value at a symbolic probe key"])

p("C15", "Flipping an interval map is symmetric difference on keys and values",
  "Flipping a pair or a map into an interval map gives operand values to keys that were absent and leaves untouched every key outside the operand. On common keys the entry disappears (or, where values are themselves sets, holds the symmetric difference of both values; in maps that keep neutral values the entry becomes neutral). Total maps, which contain every key, have no absent keys: flipping into one leaves an absorbing map empty and sets every value of an enriching one to the neutral value.",
  ["inputs", "configurations"],
  "for all map contents, operands, codomains, traits, styles",
  "Tests sample few constant overlaps.",
  ["interval_base_map.hpp", "concept/interval_map.hpp"],
  [("flip, on_total_absorbable / on_codomain_model::flip", "interval_base_map.hpp")],
  ["value at a symbolic probe key"])

p("C16", "Interval maps keep the segmentation and absorption their type promises",
  "At all times an interval map is a strictly ordered sequence of non-empty, pairwise disjoint intervals with values, and an absorbing map never stores a neutral value. A joining map never holds two touching intervals with equal values, so two joining maps with the same key/value function are identical sequences; a splitting map keeps every existing border and the borders of every interval added to it where it has keys on the overlap.",
  ["inputs", "histories", "configurations"],
  "for every reachable map, every operation and operand",
  "An invariant over all histories; tests look at fixed short ones.",
  ["interval_base_map.hpp", "interval_map.hpp", "split_interval_map.hpp", "detail/interval_set_algo.hpp", "concept/joinable.hpp"],
  [("handle_inserted, handle_left_combined, handle_combined, handle_preceeded_combined, handle_succeeded_combined, handle_reinserted", "interval_map.hpp"), ("join_left/right/neighbours", "detail/interval_set_algo.hpp")],
  ["sequence of segments after each operation"])

p("C17", "Position hints never change the result",
  "Adding or inserting with a position hint, or through the adding and inserting output iterators, gives exactly the same contents and segmentation as adding or inserting without one, whatever position the hint names. The returned position is valid, and for joining and separating sets designates a segment that overlaps the operand.",
  ["inputs", "configurations"],
  "for all contents, operands and all valid hint positions",
  "The tests use hints only in monotone fills; wrong hints and overlapping operands are untested.",
  ["interval_base_set.hpp", "interval_base_map.hpp", "detail/interval_set_algo.hpp", "iterator.hpp", "map.hpp"],
  [("add(prior, ...), insert(prior, ...)", "interval_base_set.hpp"), ("insert_at / add_at", "interval_base_map.hpp"), ("add_iterator, insert_iterator", "iterator.hpp")],
  ["container after hinted operation compared with unhinted"])

p("C18", "Containment and overlap tests on containers are exact",
  "A container is reported to contain an element, an interval, a key/value pair, a set or a map exactly when every one of its elements is present (with equal value for pairs); within is the mirror image. Overlap is reported exactly when the intersection of both operands is not empty and disjointness is its negation; a total map contains every key.",
  ["inputs", "configurations"],
  "for all container contents and operands of every kind and style",
  "A containment answer depends on every border; tests sample constants.",
  ["concept/interval_set.hpp", "concept/interval_map.hpp", "concept/interval_associator.hpp", "detail/interval_set_algo.hpp", "detail/interval_map_algo.hpp", "detail/set_algo.hpp"],
  [("contains / within / intersects / disjoint", "concept/interval_set.hpp"), ("Interval_Set::within/contains, is_joinable", "detail/interval_set_algo.hpp")],
  ["returned booleans"])

p("C19", "Container equality and orderings mean what they say",
  "Element equality holds exactly when two interval containers hold the same elements regardless of segmentation, distinct equality additionally disregards neutral values, and == exactly when the segment sequences are equal; the inclusion comparison returns subset, superset, equal or unrelated exactly. Less-than is the lexicographic strict weak order on segment sequences.",
  ["inputs", "configurations"],
  "for all pairs of containers of all styles, including mixed styles and segmentations",
  "Simultaneous walks over differently cut sequences have many interleavings; tests sample few.",
  ["detail/interval_subset_comparer.hpp", "detail/element_comparer.hpp", "detail/set_algo.hpp", "detail/map_algo.hpp", "concept/interval_associator_base.hpp", "concept/interval_associator.hpp", "concept/interval_set.hpp", "concept/interval_map.hpp"],
  [("subset_comparer::next_both, element_comparer", "detail/interval_subset_comparer.hpp"), ("is_element_equal, is_distinct_equal, operator <, inclusion_compare", "concept/interval_associator.hpp")],
  ["returned booleans / inclusion codes"])

p("C20", "Container sizes and hull are exact",
  "The cardinality of an interval container is the number of its elements and its length their total measure; the distance of a container is the total measure of the gaps between its segments; its segment counts are the number of its segments. The hull, lower, upper, first and last values of a non-empty container are those of its extreme elements, and an empty container has size zero and an empty hull.",
  ["inputs", "configurations"],
  "for all container contents, styles and interval classes",
  "Tests compare constants.",
  ["concept/interval_associator.hpp", "concept/interval_associator_base.hpp", "interval_base_set.hpp", "interval_base_map.hpp"],
  [("cardinality / length / iterative_size / interval_count / hull / lower / upper / first / last", "concept/interval_associator.hpp")],
  ["returned values"])

p("C21", "Lookup finds exactly the segment or value that covers the key",
  "Looking up a key or a non-empty interval in an interval container returns the segment that covers (overlaps) it first and the end position exactly when there is none; lower bound, upper bound and equal range delimit exactly the segments overlapping an interval. Reading a map at a key yields the stored value, and for total maps the neutral value when the key is absent.",
  ["inputs", "configurations"],
  "for all container contents, keys and intervals",
  "Depends on every border comparison; tests use constants.",
  ["interval_base_set.hpp", "interval_base_map.hpp", "concept/interval_associator_base.hpp", "detail/exclusive_less_than.hpp", "map.hpp"],
  [("find, lower_bound, upper_bound, equal_range, operator()", "interval_base_map.hpp")],
  ["returned iterators and values"])

p("C22", "Element iteration visits every element once, in order",
  "Forward element iteration over a discrete interval container visits every element exactly once in ascending order, with the value stored for it in maps, and reverse element iteration visits the same in descending order; both end after the last one. Segment iteration visits all segments in order.",
  ["inputs", "configurations"],
  "for all container contents (bounded total length), interval classes and domains",
  "Iteration crosses segments with all bound kinds; tests iterate fixed contents.",
  ["detail/element_iterator.hpp", "concept/interval_associator.hpp"],
  [("element_iterator increment/decrement/advance, elements_begin/end/rbegin/rend", "detail/element_iterator.hpp")],
  ["sequence of visited elements"])

p("C23", "Conversions and derived containers preserve the content",
  "Copying or assigning an interval container into one of another combining style or from its elements preserves exactly its elements and values, as does joining it in place. The domain of a map is exactly the set of its keys, the gaps between the segments of a container are exactly the values inside its hull it does not contain, and removing the neutral values of a map removes exactly the keys carrying them.",
  ["inputs", "configurations"],
  "for all container contents and all pairs of styles",
  "Conversions run merging code per border; tests use constants.",
  ["interval_set.hpp", "separate_interval_set.hpp", "split_interval_set.hpp", "interval_map.hpp", "split_interval_map.hpp", "detail/interval_morphism.hpp", "detail/interval_set_algo.hpp", "concept/interval_map.hpp", "concept/interval_set.hpp", "detail/interval_map_algo.hpp"],
  [("assign, join, domain, between, atomize, cluster, absorb_identities", "detail/interval_morphism.hpp")],
  ["membership/value at a symbolic probe"])

p("C24", "Predicate filters keep exactly the segments that match",
  "Erasing by predicate removes exactly the segments satisfying it, adding by predicate adds exactly the source segments satisfying it, and assigning by predicate replaces the content by them. They terminate for every predicate and content.",
  ["inputs"],
  "for all contents and all predicate outcomes",
  "The adding and assigning filters are not exercised by the existing tests with a predicate that rejects something.",
  ["concept/interval_set.hpp", "concept/interval_map.hpp", "concept/element_associator.hpp", "concept/interval_associator.hpp"],
  [("erase_if / add_if / assign_if", "concept/interval_map.hpp")],
  ["content after the filter"])

p("C25", "Element sets and maps obey the same set and aggregation semantics",
  "On element containers (sets of values and aggregating maps of key to value) adding, inserting, setting, subtracting, erasing, intersecting and flipping have element-wise exactly the semantics described for interval containers, with neutral values absorbed or kept according to the map's type (flipping a neutral value into an absorbing map is left open). Their containment, overlap and equality predicates are exact.",
  ["inputs", "configurations"],
  "for all contents, operands, combiners and map types",
  "Tests use small constant containers.",
  ["map.hpp", "set.hpp", "concept/element_map.hpp", "concept/element_set.hpp", "concept/element_associator.hpp", "detail/set_algo.hpp", "detail/map_algo.hpp", "detail/subset_comparer.hpp", "functors.hpp"],
  [("map::_add/_subtract/insert/set/erase/add_intersection/flip", "map.hpp"), ("Set::common_range, subset_comparer", "detail/set_algo.hpp")],
  ["value at a symbolic probe key"])

p("C26", "No operation corrupts memory, fails to terminate or disturbs another container",
  "No sequence of valid operations reads or writes freed, uninitialised or foreign memory, leaks, trips an internal assertion or loops forever. Copies are independent of their source, moving and swapping transfer the whole content and clearing empties it, and a container may be used as both operand and target of an operation.",
  ["histories", "inputs"],
  "for all contents, operands and operation sequences within the bound",
  "Iterator invalidation shows only for particular overlaps and is silent without instrumentation; tests run uninstrumented samples.",
  ["interval_base_set.hpp", "interval_base_map.hpp", "interval_map.hpp", "interval_set.hpp", "detail/interval_set_algo.hpp", "detail/element_iterator.hpp", "map.hpp"],
  [("iterator handling around erase/insert", "interval_base_map.hpp"), ("copy, move, swap", "interval_base_set.hpp")],
  ["memory model of the executor", "content of copies"])

p("C27", "Combiners, inverses and neutral elements obey their algebra",
  "Each aggregation functor applied in place computes the operation it names, leaves its neutral value unchanged, and its inverse undoes it (or is the documented counterpart for operations without true inverse). The neutral and unit values of supported types are the true neutral and unit values of their operations.",
  ["inputs", "configurations"],
  "for all values of all supported codomain types",
  "An algebraic law over all values; tests use few.",
  ["functors.hpp", "type_traits/identity_element.hpp", "type_traits/unit_element.hpp", "type_traits/has_inverse.hpp", "type_traits/succ_pred.hpp"],
  [("inplace_plus/minus/bit_add/bit_subtract/bit_and/bit_xor/et/caret/insert/erase/max/min/star/slash, inverse<>, conversion<>", "functors.hpp")],
  ["functor results"])

p("C28", "Calendar, clock and duration domains behave like their tick counts",
  "Intervals and interval containers over calendar dates, date durations, points in time, time durations and chrono durations contain, combine and count exactly as the same intervals over the underlying integral tick numbers do. Stepping to the next or previous value moves by exactly one tick. Types without such steps (chrono time points, floating durations) behave like continuous tick values.",
  ["inputs", "configurations"],
  "for all values in the representable (non-special) range of each domain",
  "Tests use few calendar constants.",
  ["gregorian.hpp", "ptime.hpp", "concept/interval.hpp", "interval_base_set.hpp"],
  [("operator ++/-- , identity_element, size_type_of, difference_type_of specialisations", "gregorian.hpp")],
  ["membership/size through tick numbers"])

p("C29", "Real-valued domains with mixed open and closed borders are handled exactly",
  "On continuous domains, with borders individually open or closed, interval sets and maps contain exactly the values prescribed after every add, subtract, erase, intersect and flip, including the border points themselves. Intervals that meet with exactly one border closed are joined without losing or duplicating the shared point, and ones that meet with both borders open stay apart.",
  ["inputs", "histories", "configurations"],
  "for all endpoint values (excluding NaN), all bound combinations and all relative positions",
  "Border points are measure-zero inputs the sampled tests hit only for a few literal combinations.",
  ["continuous_interval.hpp", "concept/interval.hpp", "concept/interval_bounds.hpp", "interval_base_set.hpp", "interval_base_map.hpp"],
  [("dynamic bound algebra", "concept/interval_bounds.hpp"), ("touches / exclusive_less for continuous intervals", "concept/interval.hpp")],
  ["membership of a symbolic probe point, including end points"])

p("C30", "Output streaming prints every segment once, in order",
  "Streaming an interval, an interval container or an element container writes each segment or element exactly once, in ascending order, with its borders (and value) as stored and its bounds shown by the matching bracket kind; it leaves the object unchanged.",
  ["inputs"],
  "for all contents",
  "Tests compare few constant strings.",
  ["concept/interval.hpp", "concept/interval_set.hpp", "concept/interval_map.hpp"],
  [("operator <<", "concept/interval.hpp")],
  ["written text"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
