#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, statements, anchors)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe or [],hook_needed=hook)))

p("C01","Slicing selects exactly the requested rows",
 "Slicing any vector (atomic, array, list, data frame, S3/record) at a set of locations returns a vector of the same type and attributes whose k-th row is the row of the input at the k-th location, with the matching name or row name, and whose size is the number of locations. A missing location gives the type's missing row (name \"\"), and initialising a vector of size n gives n missing rows of its type. Data frame row names stay unique.",
 ["inputs"],"every vector type, nesting, naming and subscript (positive, negative, zero, missing, logical, character, repeated, compact sequence or repetition)",
 "Tests slice a few hand-written vectors; the type x shape x names x subscript-kind product (and the compact subscripts used internally) is only sampled.",
 ["src/slice.c","src/slice-array.c","src/strides.h","R/slice.R","src/names.c","src/proxy-restore.c"],
 [("vec_slice_unsafe, SLICE_* macros","src/slice.c"),("vec_slice_shaped","src/slice-array.c"),("slice_rownames / df_slice","src/slice.c"),("vec_init","src/slice.c")],
 observe=["vec_slice()","vec_init()","vec_slice_seq / vec_slice_rep test entry points"])

p("C02","Subscripts resolve to the documented locations or a classed error",
 "Resolving a subscript against a size and names yields exactly the locations its rules define: numeric subscripts in order with zeros dropped, negative ones as the ordered complement, logical ones as the positions of TRUE (size 1 recycled, otherwise the size must match), character ones as the first element with that name, and missing, zero, negative and out-of-bounds elements treated as the options request. Subscript names are kept on the surviving elements. Anything else (wrong type, mixed signs, unknown name, out of bounds, non-consecutive extension, non-scalar for the single-location form) is rejected with the subscript error class for that failure.",
 ["inputs","configurations"],"all subscripts x sizes x names x option combinations",
 "The option space (missing x negative x oob x zero x type x names) is a product of which tests check single cells.",
 ["src/subscript-loc.c","src/subscript.c","R/subscript-loc.R","R/subscript.R"],
 [("int_as_location, lgl_as_location, chr_as_location, int_invert_location, int_check_consecutive","src/subscript-loc.c"),("vec_as_subscript_opts","src/subscript.c"),("vec_as_location2_result","R/subscript-loc.R")],
 observe=["vec_as_location()","num_as_location()","vec_as_location2()","num_as_location2()","vec_as_subscript()"])

p("C03","Assignment changes exactly the addressed rows",
 "Assigning a value into a vector returns a vector of unchanged type, size and names in which each addressed row is the corresponding row of the value (cast to the vector's type and recycled from size 1, the last write winning) and every other row is unchanged; missing locations are ignored. If the value cannot be cast losslessly or recycled, or a location is out of bounds, it fails with the matching error. The caller's original vector and value are never modified.",
 ["inputs","histories"],"every container/value type pair, location set and sharing state of the container",
 "Tests assign a few values; frame conditions over all other rows, nested data frame columns and shared containers are not enumerated.",
 ["src/slice-assign.c","src/slice-assign-array.c","R/slice.R","src/cast.c"],
 [("vec_assign_opts, vec_proxy_assign_opts, df_assign, ASSIGN_* macros","src/slice-assign.c"),("vec_assign_shaped","src/slice-assign-array.c"),("vec_clone_referenced ownership","src/owned.h")],
 observe=["vec_assign()","vec_slice<-()"])

p("C04","Chopping and unchopping are inverse partitions",
 "Chopping a vector by indices or sizes gives one slice per index, each equal to slicing at that index, of the input's type; sizes must be non-negative and sum to the size. Unchopping a list at indices places each (recycled, cast) element at its locations, later elements winning, unaddressed locations missing and names following their rows, so that unchopping a chop along a partition restores the vector.",
 ["inputs"],"every vector type, index list (including overlapping, empty, permuted) and size vector",
 "Round trips are tested on a handful of partitions and types.",
 ["src/slice-chop.c","src/c-unchop.c","R/slice-chop.R"],
 [("vec_chop_base, chop_df, chop_shaped","src/slice-chop.c"),("list_unchop","src/c-unchop.c"),("vec_as_chop_sizes","src/slice-chop.c")],
 observe=["vec_chop()","list_unchop()"])

p("C05","Combining concatenates without loss",
 "Combining vectors yields a vector of their common type whose rows are the inputs' rows, cast to that type, in input order, and whose size is the sum of the input sizes; NULL inputs contribute nothing. Inner names, outer names and the name specification determine each element's name by position, and a supplied prototype fixes the output type. Combining fails exactly when the common type does not exist or an input cannot be cast to the supplied prototype. An input without rows contributes nothing and is not cast. Vectors of classes combined by a base c() method are combined by that method, column by column, matched by column name.",
 ["inputs"],"all sequences of vectors of all types and namings",
 "Tests combine small fixed lists; type x order x naming x NULL/unspecified combinations are unbounded.",
 ["src/c.c","R/c.R","src/names.c","src/ptype-common.c","src/cast.c"],
 [("vec_c_opts","src/c.c"),("apply_name_spec","src/names.c"),("vec_ptype_common_opts","src/ptype-common.c")],
 observe=["vec_c()","list_unchop(indices = NULL)"])

p("C06","The common type is a well-behaved join",
 "The common type of two vectors depends only on their types, is NULL's or an unspecified vector's identity, is idempotent, is symmetric in kind (only names and level/column order may follow the left input), and folding it over several inputs gives the least type of the documented hierarchy that every input can be cast to, whatever the grouping. Factor levels combine as an ordered union, data frame columns as a union by first appearance with common column types, arrays by common dimensions, and incompatible types fail with the incompatible-type error in both orders.",
 ["inputs"],"all pairs and sequences of supported base and S3 types with their attributes",
 "Tests check the pairwise table for base types but not associativity, order independence over sequences, or nested/parametrised types.",
 ["src/ptype2.c","src/ptype2-dispatch.c","src/typeof2.c","src/typeof2-s3.c","src/ptype-common.c","src/ptype.c","src/type-factor.c","src/type-date-time.c","src/type-data-frame.c","src/shape.c","src/unspecified.c","R/type-*.R"],
 [("vec_ptype2_opts dispatch tables","src/ptype2.c, src/typeof2.c, src/typeof2-s3.c"),("fct_ptype2, df_ptype2, vec_shaped_ptype","src/type-factor.c, src/type-data-frame.c, src/shape.c")],
 observe=["vec_ptype()","vec_ptype2()","vec_ptype_common()"])

p("C07","Casts are lossless or they fail",
 "Casting a vector to a type either returns a vector of exactly that type and the same size in which every element denotes the same value (missing stays missing), or fails: with the incompatible-type error when no cast exists, and with the lossy-cast error naming exactly the offending locations when some element cannot be represented. Casting to a vector's own type is the identity, casting to a common type never loses information, and casting there and back restores the original values.",
 ["inputs"],"all source vectors and target types",
 "Loss conditions are value dependent (fractions, ranges, unknown levels, extra columns); tests sample a few values per pair.",
 ["src/cast.c","src/cast-bare.c","src/cast-dispatch.c","src/type-factor.c","src/type-date-time.c","src/type-data-frame.c","R/cast.R","R/type-bare.R","R/type-factor.R","R/type-date-time.R"],
 [("vec_cast_opts","src/cast.c"),("int_as_logical, dbl_as_integer, dbl_as_logical","src/cast-bare.c"),("df_cast_opts","src/type-data-frame.c"),("maybe_lossy_cast / stop_lossy_cast","R/cast.R, R/conditions.R")],
 observe=["vec_cast()","vec_cast_common()"])

p("C08","Only size 1 recycles",
 "The size of a vector is its number of rows (never its column count). The common size of several inputs ignores NULL, is 1 only if all are size 1, is otherwise the one size shared by every input that is not size 1 (0 included), and does not depend on argument order. Recycling to a size repeats a size-1 vector, leaves a vector of that size unchanged, keeps its type, and fails with the incompatible-size error in every other case.",
 ["inputs"],"all tuples of vectors, sizes and explicit size arguments",
 "Order independence and the 0/1 corner cases over arbitrary tuples and types are only sampled.",
 ["src/size.c","src/size-common.c","R/size.R","R/recycle.R","src/assert.c"],
 [("vec_size, vec_recycle","src/size.c"),("vec_size_common reduction","src/size-common.c"),("list_sizes, list_all_size","src/size.c, src/assert.c")],
 observe=["vec_size()","vec_size_common()","vec_recycle()","vec_recycle_common()","list_sizes()","list_all_size()"])

p("C09","Equality and missingness agree on every type",
 "Element-wise equality is reflexive, symmetric and transitive with missing treated as equal (NA and NaN distinct from each other), and is NA exactly when either element is incomplete in propagating mode; data frames and records compare by row over all columns. A row is missing when all of its components are missing and complete when none is, and the detection functions agree with equality on every type. For data frame rows in propagating mode the first column that does not compare equal decides, and the result is NA when that comparison is NA. Inputs are recycled before their common type is taken.",
 ["inputs"],"all pairs of equal-typed vectors with missing values, NaN, infinities and nested columns",
 "Equivalence laws quantify over triples of values; tests check fixed pairs.",
 ["src/equal.c","src/equal.h","src/missing.c","src/missing.h","src/complete.c","R/equal.R","R/missing.R","R/complete.R","src/poly-op.c"],
 [("vec_equal, df_equal","src/equal.c"),("vec_detect_missing, vec_first_missing","src/missing.c"),("vec_detect_complete","src/complete.c")],
 observe=["vec_equal()","vec_equal_na()","vec_detect_missing()","vec_any_missing()","vec_detect_complete()"])

p("C10","Ordering is one stable total order",
 "Comparison, ordering, sorting, ranking and sorted-group location all describe a single total preorder on rows (lexicographic over columns, C locale for strings in the radix functions): the order is a stable permutation that sorts the vector, direction and the position of missing and NaN values follow the per-column options, and the comparison of two rows agrees with it. Ranks and sorted groups are exactly those implied by the order.",
 ["inputs","configurations"],"all vectors and data frames (any size, value range, tie pattern, nesting) and all direction/missing/NaN options",
 "The algorithm switches between insertion, counting and radix sorts by size, range and presortedness; tests cover few of those regimes and few option combinations.",
 ["src/order.c","src/order-sortedness.c","src/order-groups.c","src/order-collate.c","src/order-truelength.c","src/compare.c","src/compare.h","src/rank.c","R/order.R","R/compare.R","R/rank.R","src/proxy.c"],
 [("vec_order_info, int/dbl/chr_order_*, group info","src/order.c"),("*_sortedness","src/order-sortedness.c"),("vec_compare","src/compare.c"),("vec_rank","src/rank.c")],
 observe=["vec_order()","vec_sort()","vec_order_radix()","vec_sort_radix()","vec_order_info()","vec_compare()","vec_rank()","vec_locate_sorted_groups()"])

p("C11","Deduplication keeps first occurrences",
 "Unique locations are exactly the positions of the first occurrence of each distinct row, in order of appearance; the unique count, duplicate detection, duplicate ids and value counts are those implied by the same row equality (missing equal to missing, NA distinct from NaN). Results do not depend on how rows hash, and hold at any size and for any type that supports equality, including lists and nested data frames.",
 ["inputs"],"all vectors of any size, type, duplication pattern and hash collision pattern",
 "Hash-table behaviour (growth, probing, collisions, column-wise hashing) depends on sizes and values that tests do not reach.",
 ["src/dictionary.c","src/dictionary.h","src/hash.c","src/equal.c","src/poly-op.c","R/dictionary.R"],
 [("dict_hash_with, quadratic probing","src/dictionary.c"),("hash_fill, hash_object","src/hash.c"),("vec_count","src/dictionary.c, R/dictionary.R")],
 state=[("dictionary key table","open-addressing table of first-occurrence indices","src/dictionary.c")],
 observe=["vec_unique()","vec_unique_loc()","vec_unique_count()","vec_duplicate_any()","vec_duplicate_detect()","vec_duplicate_id()","vec_count()"])

p("C12","Matching and set operations follow row equality",
 "Matching returns for each needle the position of the first equal haystack row, or NA; membership is whether that exists; with missing values propagated, an incomplete needle gives NA. Intersection, union, difference and symmetric difference return each distinct row of the common type exactly once, with the membership set theory prescribes, ordered by first appearance with the first input's rows before the second's.",
 ["inputs"],"all needle/haystack or set pairs of compatible types and any sizes",
 "Tests check small integer and data frame examples; cross-type pairs, larger tables and missing-value modes are sampled.",
 ["src/dictionary.c","src/set.c","R/dictionary.R","R/set.R","src/hash.c"],
 [("vec_match_params, vctrs_in","src/dictionary.c"),("vec_set_*","src/set.c")],
 observe=["vec_match()","vec_in()","vec_set_intersect()","vec_set_union()","vec_set_difference()","vec_set_symmetric_difference()"])

p("C13","Groups and runs partition the rows",
 "Group ids number distinct rows by first appearance; group locations list, per distinct row in that order, exactly its positions ascending; splitting returns the corresponding slices. Run functions cut the vector exactly where a row differs from the previous one: run ids, run sizes, run bounds, run-length groups and run-length encoding agree with each other, and repeating the encoded key by its times restores the vector.",
 ["inputs"],"all vectors and data frames, any size and number of columns",
 "Column-by-column run detection and grouping are tested on tiny inputs; partition laws quantify over all rows.",
 ["src/group.c","src/runs.c","src/rep.c","src/split.c","R/group.R","R/runs.R","R/rep.R","R/split.R"],
 [("vctrs_group_id, vec_group_loc, vctrs_group_rle","src/group.c"),("vec_detect_run_bounds, df_detect_run_bounds","src/runs.c"),("vec_unrep","src/rep.c")],
 observe=["vec_group_id()","vec_group_loc()","vec_group_rle()","vec_split()","vec_identify_runs()","vec_run_sizes()","vec_locate_run_bounds()","vec_detect_run_bounds()","vec_unrep()"])

p("C14","Join locations are exactly the pairs the conditions define",
 "Locating matches returns, per needle in order, exactly the haystack locations (ascending) whose row satisfies every column's condition and, if requested, the column's minimum or maximum filter; the multiple, incomplete, no-match and remaining options add, drop, reduce or reject exactly the rows they document. A relationship or multiplicity constraint raises its error exactly when it is violated. Filters choose among the rows that satisfy all conditions, lexicographically by the filtered columns.",
 ["inputs","configurations"],"all needles/haystack (vectors and data frames) x per-column condition, filter, incomplete x no_match x remaining x multiple x relationship",
 "The non-equi join (binary search over nested containers) is intricate and its option product is huge; tests sample it.",
 ["src/match.c","src/match-joint.c","src/match-compare.h","R/match.R","src/order.c"],
 [("df_locate_matches_recurse, compute_nesting_container_info, expand_compact_indices","src/match.c"),("vec_joint_proxy_order","src/match-joint.c")],
 observe=["vec_locate_matches()"])

p("C15","Interval operations preserve the covered set",
 "For half-open intervals given by start and end, merging returns the minimal sorted set of disjoint intervals covering exactly the same points (abutting intervals merged or kept as asked), and group locations assign each interval to the merged one that contains it. The complement covers exactly the points between the requested bounds that no interval covers, and containers are exactly the intervals not contained in another one (first of equal ones); missing intervals are grouped or dropped as asked. Every interval has start < end, and start and end are missing together.",
 ["inputs","configurations"],"all interval vectors including nested, equal, abutting, unsorted and missing intervals, and all bounds",
 "Point-set semantics quantify over every arrangement of interval end points.",
 ["src/interval.c","R/interval.R"],
 [("vec_interval_group_info","src/interval.c"),("vec_interval_complement","src/interval.c"),("vec_interval_locate_containers","src/interval.c")],
 observe=["vec_interval_groups()","vec_interval_locate_groups()","vec_interval_complement()","vec_interval_locate_containers()"])

p("C16","Row and column binding keep every cell in place",
 "Row-binding stacks the inputs' rows in order under the union of their columns (order of first appearance), each cell cast to the column's common type and absent columns filled with missing; the names-to column and row names identify each row's input. Column-binding places recycled inputs side by side, one column per vector, unpacking unnamed data frames and packing named ones, and its column names are the inputs' names after repair. Unspecified (all-NA) vectors contribute rows like other vectors.",
 ["inputs"],"all sequences of data frames, vectors, matrices and NULLs with any column sets, sizes and names",
 "Column order/fill/recycle/packing interactions over arbitrary input sequences are sampled by tests.",
 ["src/bind.c","R/bind.R","src/type-data-frame.c","src/names.c"],
 [("vec_rbind, df_assign","src/bind.c, src/slice-assign.c"),("vec_cbind, as_df_col","src/bind.c"),("df_ptype2 column union","src/type-data-frame.c")],
 observe=["vec_rbind()","vec_cbind()"])

p("C17","Name repair delivers what it promises",
 "Repaired names have the input's length; minimal repair only replaces missing names with \"\"; unique repair yields names that are non-empty, distinct and not of a reserved form, leaves already-unique names unchanged and changes others only by stripping and appending position suffixes; universal repair further makes every name syntactic. Repair is idempotent, checking repair fails exactly on names that are not unique and valid, and setting names on any vector type affects nothing but its names. (Universal repair is idempotent except where making a name syntactic itself creates a position suffix.)",
 ["inputs"],"all character vectors as names (missing, empty, dotted, suffixed, reserved, duplicated) and all vector types for get/set",
 "Suffix stripping and uniqueness interact on adversarial names; idempotence and distinctness quantify over all inputs.",
 ["src/names.c","R/names.R"],
 [("vec_as_names, as_unique_names_impl, suffix_pos","src/names.c"),("vec_set_names","src/names.c"),("as_universal_names","R/names.R")],
 observe=["vec_as_names()","vec_names()","vec_names2()","vec_set_names()"])

p("C18","Repetition, fill, expansion and interleaving index correctly",
 "Repeating a vector whole or element-wise, interleaving several vectors, and expanding a grid produce rows at exactly the positions the counts and order prescribe, with type and attributes kept and sizes equal to the sum or product implied. Filling replaces each missing row by the nearest non-missing row in the given direction within the fill limit and changes nothing else. Invalid counts fail.",
 ["inputs"],"all vectors, count vectors, directions, limits and grid shapes",
 "Index arithmetic is tested on a few sizes; limits, directions and grid orders combine freely.",
 ["src/rep.c","src/fill.c","src/expand.c","R/slice-interleave.R","R/expand.R","R/fill.R"],
 [("vec_rep, vec_rep_each","src/rep.c"),("vec_fill_missing","src/fill.c"),("vec_expand_grid","src/expand.c"),("vec_interleave_indices","src/slice-interleave.c")],
 observe=["vec_rep()","vec_rep_each()","vec_interleave()","vec_expand_grid()","vec_fill_missing()"])

p("C19","Every returned vector is well formed",
 "Through any sequence of operations, a returned data frame has columns of one size equal to its row count, a record has equal-length fields, a factor's codes lie within its distinct levels, a list-of's elements are NULL or have exactly its element type, and an array's dimensions match its data. Operations that keep the type of their input keep its class and all type-defining attributes.",
 ["histories","inputs"],"all finite sequences of operations from well-formed inputs",
 "Invariants must survive composition of operations; tests check single calls.",
 ["src/proxy-restore.c","src/type-data-frame.c","R/type-rcrd.R","R/type-list-of.R","R/type-vctr.R","R/type-factor.R","src/fields.c","R/fields.R"],
 [("vec_restore, df_restore","src/proxy-restore.c"),("list_of `[<-`, `[[<-`, `$<-`","R/type-list-of.R"),("field<-, new_rcrd","src/fields.c, R/fields.R"),("vctrs_vctr methods","R/type-vctr.R")],
 observe=["the value returned by every operation in a history"])

p("C20","Operations never change their inputs",
 "No operation changes the observable value or attributes of any object it was given, or of any object still reachable, whether or not its memory is shared; results are unaffected by later operations on the inputs. Repeating an operation on the same values gives the same result whatever happened in between and however the values are represented internally (shared, freshly created, or lazily materialised).",
 ["histories","inputs"],"all histories of operations over aliased vectors, including assignment, renaming, binding and lazily materialised vectors",
 "In-place modification depends on reference counts and call history that unit tests do not vary.",
 ["src/slice-assign.c","src/owned.h","src/proxy-restore.c","src/names.c","src/bind.c","src/altrep-rle.c","src/altrep-lazy-character.c","src/order-truelength.c","src/type-data-frame.c"],
 [("vec_clone_referenced, vctrs_owned","src/owned.h, src/utils.c"),("r_clone_referenced in restore and names","src/proxy-restore.c, src/names.c"),("Materialize","src/altrep-rle.c, src/altrep-lazy-character.c")],
 state=[("heap","R objects reachable from the caller","driver registers"),("string truelengths","marks used while ordering strings","src/order-truelength.c")],
 observe=["all live registers after each call"])

p("C21","A failed operation leaves no trace",
 "When an operation fails, because its arguments are invalid or because a user-supplied method, function or lazy vector signals an error in the middle, the error reaches the caller, no live object has changed, and every later operation behaves as if the failed one had never been attempted.",
 ["fault_sequences","histories"],"every failing call and every callback failure point inside a history of operations",
 "Tests check that an error is raised, not what the interrupted operation leaves behind.",
 ["src/order-truelength.c","src/order.c","src/slice-assign.c","src/c.c","src/cast.c","src/proxy.c","src/names.c","R/proxy.R","src/altrep-lazy-character.c","src/utils-dispatch.c"],
 [("truelength_reset ordering","src/order-truelength.c, src/order.c"),("restore/assign on private copies","src/slice-assign.c, src/proxy-restore.c"),("local options and recursion in vec_c fallback","R/c.R, src/c.c")],
 state=[("string truelengths","marks used while ordering strings","src/order-truelength.c"),("session options","options used as dynamic flags during fallback","R/c.R")],
 observe=["error class, all live registers, and results of subsequent calls"])

p("C22","Data frame construction enforces rectangularity",
 "Building a data frame from columns recycles them to the common or requested size, drops NULLs, unpacks unnamed data frame inputs, and yields unique repaired column names; the result's row count, column order and values are exactly those of the inputs. Inputs whose sizes cannot be reconciled, or invalid names or sizes, are rejected, and the low-level constructor keeps the attributes it is given and the row count it is told.",
 ["inputs"],"all column lists, sizes, names, attributes and repair options",
 "Column size/name/NULL/unpacking combinations are sampled.",
 ["src/type-data-frame.c","R/type-data-frame.R"],
 [("df_list, df_list_unpack, new_data_frame","src/type-data-frame.c")],
 observe=["data_frame()","df_list()","new_data_frame()"])

p("C23","String operations do not depend on encoding",
 "Two strings with the same characters are the same value in every operation, whatever their declared encoding (UTF-8, Latin-1, native): matching, deduplication, grouping, comparison, ordering, joining, subscripting by name and factor level union give the same result for any re-encoding of the inputs.",
 ["inputs"],"all character data, at top level or nested in data frames, lists and attributes, in every mixture of encodings",
 "Tests re-encode a few strings in a few functions.",
 ["src/translate.c","src/translate.h","src/dictionary.c","src/order.c","src/subscript-loc.c","src/equal.c"],
 [("vec_normalize_encoding","src/translate.c")],
 observe=["vec_equal(), vec_match(), vec_unique(), vec_order_radix(), vec_as_location(), vec_set_*(), vec_locate_matches()"])

p("C24","Arithmetic and math on vectors stay in the documented types",
 "Arithmetic between dates, date-times, durations and numbers gives the documented result type and value (date minus date is a duration, date plus number a date, and so on), recycles like every other operation, propagates missing values, and undefined combinations fail with the incompatible-operation error. Summaries and math on vctrs classes that are defined keep the class, and undefined ones fail.",
 ["inputs"],"all operator x operand type pairs, sizes and values",
 "The operator x type x type table times units and missingness is only sampled.",
 ["R/arith.R","R/numeric.R","R/type-date-time.R","R/type-vctr.R"],
 [("vec_arith double dispatch","R/arith.R, R/type-date-time.R"),("vec_math, vec_math_base","R/numeric.R")],
 observe=["vec_arith()","vec_math()","operators on vctrs classes"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: print("written",len(P))
