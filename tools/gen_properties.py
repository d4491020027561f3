#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) next to this folder."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Parameter lists are typed name-to-value trees, whatever their history",
  "After any sequence of set, get, sublist, copy, assign and import operations, a parameter list reports exactly the parameters and sublists that sequence put there, each readable only under the type it was stored with and with the value last stored. Copying or assigning a list makes the target equal to the source, contents of the old target included, and later changes to either side never show in the other; import adds the source's parameters, recursively through sublists of the same name, overriding the parameters of the same name and keeping all others. Reading a missing name, or a stored name as another type, throws and changes nothing. Printing shows each parameter on a line of its own, with its value for the common types, and each sublist one more indentation step to the right.",
  ["histories", "inputs"], "every finite sequence of list operations over several lists (including copies and assignments between a list and its own sublists), every name and every supported value type",
  "three short hand-written histories are run; nothing exercises assignment over a non-empty list, a list assigned from its own sublist, retyping, nested imports or copies of copies",
  ["src/core/ekat_parameter_list.hpp", "src/core/ekat_parameter_list.cpp"],
  [("deep copy of values into the new list", "ParameterList::ParameterList(const ParameterList&), operator="), ("typed std::any storage with checked access", "ParameterList::get/set"), ("override-or-add merge", "ParameterList::import")],
  ["get/set/isParameter/isSublist/isType/param_names/sublist_names results, thrown exceptions"],
  [("m_params", "name to type-erased value", "ekat_parameter_list.hpp"), ("m_sublists", "name to nested list", "ekat_parameter_list.hpp")])

p("C02", "String splitting, joining, trimming and case folding are faithful",
  "Splitting a string at a delimiter and joining the pieces with that delimiter gives back the original string, with one more piece than there are delimiter occurrences scanned left to right. Trimming removes exactly the leading and trailing copies of the given character, stripping removes exactly every occurrence of the given characters, upper-casing changes only the case of letters, prefix tests agree with the definition, and the joining variants with filters or transformations output exactly the selected, transformed items in order.",
  ["inputs"], "every string, every delimiter (one or several characters, possibly overlapping itself), every list of items, filter and transformation",
  "tests use one or two fixed strings per function; empty strings, leading/trailing/repeated delimiters, overlapping delimiters and empty selections are not covered",
  ["src/core/ekat_string_utils.hpp", "src/core/ekat_string_utils.cpp"],
  [("left-to-right delimiter scan", "split"), ("separator placement", "join/join_if"), ("find_first_not_of/find_last_not_of", "trim"), ("erase-remove", "strip")],
  ["return values of split, join, join_if, trim, strip, upper_case, starts_with"])

p("C03", "Case-insensitive strings are ordered and compared ignoring case only",
  "Two case-insensitive strings are equal exactly when they have the same characters up to letter case, also when one side is an ordinary string. Their ordering agrees with the lexicographic ordering of the upper-cased strings, so it is a strict weak order consistent with equality and ordered containers keyed by them hold one entry per case-folded name.",
  ["inputs", "histories"], "every pair and triple of strings over letters of both cases, digits and punctuation, and every insertion history of an ordered container",
  "four fixed strings are compared; no test covers differing lengths, prefixes, punctuation between the letter ranges, mixed operand types, or container use",
  ["src/core/ekat_string_utils.hpp", "src/core/ekat_string_utils.cpp"],
  [("case folded comparison", "operator==, operator<, operator<= on CaseInsensitiveString")],
  ["operators ==, !=, <, <=; std::set/std::map keyed by case-insensitive strings"])

p("C04", "String similarity indices match their definitions",
  "The Jaro and Jaro-Winkler indices of two strings equal the textbook definition (with the common prefix capped at four characters), lie between 0 and 1, and are 1 for identical non-empty strings. The Jaccard index equals the size of the intersection over the size of the union of the two sets of tokens, whatever the order and repetition of tokens, lies between 0 and 1, is symmetric, and takes a string that is not to be tokenized as one single token.",
  ["inputs"], "every pair of strings, every set of delimiter characters and both tokenization choices for each side",
  "tests compare 18 fixed pairs to three digits; repeated tokens, repeated letters, very different lengths and empty strings never occur",
  ["src/core/ekat_string_utils.cpp"],
  [("greedy matching window and transposition count", "jaro_similarity"), ("prefix bonus", "jaro_winkler_similarity"), ("token set intersection", "jaccard_similarity")],
  ["return values of jaro_similarity, jaro_winkler_similarity, jaccard_similarity"])

p("C05", "Tokenizing keeps every token and never splits the atomic one",
  "Gathering the tokens of a string yields exactly the maximal runs of non-delimiter characters of that string, in order and with repetitions. When an atomic token is given, every occurrence of it that is delimited on both sides (by a delimiter or an end of the string), scanning left to right, is kept as one token, and the text before and after it is tokenized as usual without losing, joining or inventing characters (the order of the tokens is then unspecified).",
  ["inputs"], "every string, every set of delimiter characters, every atomic token (containing delimiters or not, repeated, at either end, adjacent, or only partly delimited)",
  "one sentence with the atomic token at the start is tested, by token count only",
  ["src/core/ekat_string_utils.hpp", "src/core/ekat_string_utils.cpp"],
  [("search of the atomic token and split of the rest", "gather_tokens")],
  ["return value of gather_tokens"])

p("C06", "Nested list strings parse to the structure they denote, or are rejected",
  "A string is accepted as a nested list exactly when it is one bracketed, comma separated, non-empty list of non-empty names and lists, with matching brackets of any of the supported kinds. Parsing an accepted string reports, at every level, the number of entries, the kind and text of each entry in order, the source text of the level and the nesting depth it denotes; parsing anything else throws.",
  ["inputs", "programs"], "every string over names, commas and all bracket kinds, valid or not, of any nesting",
  "six valid and eight invalid fixed strings are tested; text after the closing bracket, adjacent lists and mixed bracket kinds in depth are not",
  ["src/core/ekat_string_utils.hpp", "src/core/ekat_string_utils.cpp"],
  [("bracket stack and separator checks", "valid_nested_list_format"), ("recursive descent", "parse_nested_list")],
  ["return value of valid_nested_list_format; ParameterList returned (or exception thrown) by parse_nested_list"])

p("C07", "Rational constants are exact, canonical and printed faithfully",
  "Arithmetic, integer powers, comparison and negation of rational constants give the exact rational result whenever numerator, denominator and intermediate products fit the integer type, always in lowest terms with a positive denominator, so equal values compare equal however they were produced. Zero denominators, division by zero, and zero to a non-positive power are rejected. The fraction text of a constant denotes exactly that value, its decimal text the value to six digits.",
  ["inputs"], "every pair of rationals with numerators and denominators of either sign within the no-overflow range, every small integer exponent, every print format",
  "tests use 1/4, 1/2, 1, 2 and one negative value; negative denominators, negative divisors, powers of zero, and printing of multi-digit negatives are not covered",
  ["src/core/ekat_rational_constant.hpp"],
  [("gcd reduction and sign normalization", "fix_num/fix_den"), ("repeated squaring", "pow"), ("digit by digit formatting", "string_repr/to_string")],
  ["num/den, operators, pow, to_string"])

p("C08", "Scaling factors behave as the real numbers they denote",
  "A scaling factor base^exponent denotes a non-negative real number; products, quotients, integer and fractional powers and square roots of scaling factors denote the corresponding real results, and two factors are equal exactly when they denote the same number. The printed text of a factor, read with the usual precedence of '^' over '/', denotes the same number. Zero to the power zero and even roots of negative numbers are refused.",
  ["inputs"], "every pair of factors with small positive rational bases and small rational exponents such that no integer overflows, every small rational exponent, both print formats",
  "tests use sqrt(2), 3/2 and 4/3; factors with different exponents, zero, fractional bases and printed text of non-trivial exponents are not covered",
  ["src/core/ekat_scaling_factor.hpp", "src/core/ekat_rational_constant.hpp"],
  [("bringing exponents to a common denominator", "operator*, operator=="), ("formatting", "string_repr/to_string")],
  ["operators *, /, pow, sqrt, ==, to_string"])

p("C09", "Physical units form an exact group of scale and dimensions",
  "Products, quotients, rational powers, scalings, prefixes and renamings of units combine the scale and the seven base-dimension exponents exactly as the algebra of physical quantities prescribes: two units are equal exactly when scale and dimensions coincide, whatever expressions built them and whatever they are called. The SI text of a unit, and the expression text built from the names of its factors, denote that same unit.",
  ["inputs", "programs"], "every expression tree over the predefined base and derived units, prefixes, integer scale factors and small rational exponents without integer overflow",
  "a dozen fixed expressions are tested; nothing checks algebraic laws or that printed text denotes the unit",
  ["src/core/ekat_units.hpp", "src/core/ekat_scaling_factor.hpp", "src/core/ekat_rational_constant.hpp"],
  [("exponent array arithmetic", "Units operator*, operator/, pow, sqrt"), ("name composition", "Units::to_string"), ("SI formatting", "Units::get_si_string")],
  ["operators, ==, is_dimensionless, to_string, get_si_string"])

p("C10", "Reading YAML gives each node the type and value its text denotes",
  "Loading YAML text into a parameter list gives one parameter per scalar or sequence and one sublist per mapping: a scalar is a bool, int or double exactly when its text (or explicit tag) has that form and its value can be represented, in that order of preference, and a string otherwise, with the value the text denotes. A sequence has the first of those types that fits all its entries, an empty sequence fits any type, and the result depends only on the document, not on what the list held before.",
  ["inputs"], "every document made of nested mappings, scalars of any spelling (signs, exponents, large numbers, quoted strings, boolean spellings) and sequences of them",
  "one fixed 17-line file is parsed; numbers outside int range, sign-only text, mixed sequences and loading twice into one list are not covered",
  ["src/parser/ekat_yaml.cpp", "src/parser/ekat_yaml.hpp"],
  [("textual type detection", "is_type<bool|int|double>"), ("conversion", "str2type"), ("recursive node walk", "parse_node")],
  ["contents of the ParameterList returned by parse_yaml_file"])

p("C11", "Malformed YAML is rejected cleanly",
  "Loading any byte string as YAML either succeeds, giving a list that can be read and written, or throws a standard exception; it never crashes, hangs, reads outside its buffers, or leaks memory.",
  ["inputs"], "every byte string, biased to mutations of valid documents, numbers at the edge of every numeric type, and deep or truncated structures",
  "no malformed document is ever parsed by a test",
  ["src/parser/ekat_yaml.cpp"],
  [("type detection before conversion", "is_type, str2type"), ("node type dispatch", "parse_node")],
  ["normal return or exception from parse_yaml_file, under address and undefined-behaviour sanitizers"])

p("C12", "Parameter lists survive a YAML write and read",
  "Writing a parameter list made of bools, ints, doubles, strings, sequences of these and nested sublists to YAML, and reading the text back, gives a list with the same structure, names and types, equal ints, bools and strings, and doubles equal to within the printed 14 significant digits.",
  ["inputs"], "every such list, any magnitude of double, any int, strings with spaces, punctuation, or looking like numbers or booleans, any nesting",
  "one fixed document is written and read back, with doubles near 1",
  ["src/parser/ekat_yaml.cpp"],
  [("number formatting", "write_param<double>"), ("recursive emission", "write_parameter_list")],
  ["write_yaml_file/ostream output parsed back with parse_yaml_file"])

p("C13", "Communicator collectives give every rank the mathematical result",
  "On every communicator size, broadcast from any root gives all ranks the root's data; all-reduce, scan, all-gather give every rank the reduction, inclusive prefix reduction or rank-ordered concatenation of the ranks' data, for every supported value type, count and in-place use; splitting groups the ranks by color in rank order, and a barrier lets nobody pass before everybody has arrived. The non-MPI build behaves as a one-rank communicator.",
  ["inputs", "configurations"], "number of ranks 1 to 8, every element type, counts (zero included), roots, reduction operations, split colors and sequences of these calls",
  "tests run fixed values, mostly int, on 1 to 4 ranks with the root fixed; the serial implementation is not built",
  ["src/core/ekat_comm.hpp", "src/core/ekat_comm.cpp", "src/core/ekat_comm_serial.cpp"],
  [("type mapping to MPI datatypes", "get_mpi_type"), ("collective wrappers", "Comm::all_reduce/scan/broadcast/all_gather/split")],
  ["buffers after each call on every rank; rank, size, root"])

p("C14", "Factories build exactly what was registered under a key",
  "After any history of registrations, a factory creates for each registered key (case-insensitively if the key type is) an object from the creator that the history left registered, passing the arguments through. Registering a key that is already there reports failure and changes nothing unless replacement was asked for; creating from an unknown key throws an error that names the key, and leaves the registry unchanged. Factories with different template arguments never share registrations.",
  ["histories", "inputs"], "every sequence of register/create/query operations over keys and several factories",
  "one factory with two keys is tested",
  ["src/core/ekat_factory.hpp"],
  [("singleton registry map", "Factory::instance, register_product, create")],
  ["created objects, exceptions, has_product/register_size/print"])

p("C15", "Runtime checks fire exactly on violated conditions",
  "A requirement or error check throws an exception of the requested (default: standard runtime) type, whose text contains the caller's message and location, exactly when its condition is false, evaluates the condition once, and has no other effect (while an exception is already unwinding the stack the new one is reported on the error stream instead of thrown). Debug-only assertions do the same in debug builds and nothing in optimized ones. Floating-point exception trapping reports, after any history of enable, disable and disable-all calls, exactly the set enabled and not since disabled, and the hardware environment agrees with the report.",
  ["histories", "inputs"], "every condition and message, every history of enabling/disabling masks (overlapping or repeated)",
  "tests look at one message and one mask",
  ["src/core/ekat_assert.hpp", "src/core/ekat_fpe.cpp", "src/core/ekat_fpe.hpp"],
  [("conditional throw macro", "EKAT_REQUIRE*/EKAT_ERROR*"), ("mask bookkeeping", "enable_fpes/disable_fpes/disable_all_fpes/get_enabled_fpes")],
  ["thrown exception and its text; fegetexcept(), get_enabled_fpes()"])

p("C16", "Zipping and container helpers visit matching elements in order",
  "Iterating zipped containers visits, in order, the tuples of references to the elements at equal positions, exactly as many as each container holds, and writes through them reach the containers, also when the containers' iterators give proxies or values instead of references; containers of different sizes are rejected. Key iterators over a map visit exactly its keys in order in both directions, and the find, contains, count and erase-one helpers agree with their definitions.",
  ["inputs"], "every number and kind of containers (vector, list, deque, array, map, const or not), any sizes",
  "one three-container example is tested",
  ["src/core/ekat_zip.hpp", "src/core/ekat_std_map_key_iterator.hpp", "src/core/ekat_std_utils.hpp"],
  [("tuple of iterators in lock step", "ZipIterator"), ("size check", "Zip::check_sizes"), ("key view of a map iterator", "map_key_const_iterator")],
  ["elements visited, container contents afterwards, exceptions"])

p("C17", "Test-session arguments are parsed as given",
  "For every argument list made of the documented forms (-f or --flag alone, -k=v, -k=v1,v2, -k v, -k v1 v2, -k v1,v2) the test session holds exactly the names and values given: every key without values is a flag, every key with values holds all of them in order, repeats included, and is available as a single-valued parameter exactly when it has one value, also after several calls. Malformed lists (no leading key, two '=' in an argument, a value list attached to a non-key or containing keys) are rejected with an error.",
  ["inputs", "histories"], "every list of arguments of the documented forms, with repeated keys, over one or several calls, and malformed lists",
  "a single fixed command line is used",
  ["src/core/ekat_test_utils.hpp", "src/core/ekat_test_utils.cpp"],
  [("argument scan", "TestSession::parse_test_args"), ],
  ["TestSession::get().params/flags/vec_params after parsing"])

p("C18", "Pack arithmetic and math act lane by lane like scalars",
  "Every arithmetic operator, compound assignment, negation, min, max, and math function on packs, or on a pack and a scalar in either order, gives in each lane exactly the result of the same scalar operation on that lane's operands, for every pack size, element type and operand values, without touching operands or other lanes. Construction from a scalar, another pack or a lane range fills the lanes as specified, and the two-coefficient update equals beta times the old value plus alpha times the argument lane by lane, the old value not being used when beta is zero.",
  ["inputs"], "pack sizes 1 to 16, int, float and double, all finite values, infinities and zeros, all operators and functions, debug and optimized builds",
  "tests use a few fixed values on selected sizes",
  ["src/pack/ekat_pack.hpp", "src/pack/ekat_pack_math.hpp", "src/pack/ekat_pack_utils.hpp"],
  [("lane loops generated by macros", "ekat_pack_gen_* macros"), ("lane-wise unary/binary functions", "ekat_pack_math.hpp")],
  ["lane values of results and operands"])

p("C19", "Masks and masked updates touch exactly the selected lanes",
  "Comparing packs or a pack and a scalar, and combining masks with and, or and not, gives in each lane the boolean result of that lane; any, all and none, and equality of two masks, summarize the lanes accordingly. Assignments and compound assignments restricted by a mask (set and where expressions, for packs and for scalars) change exactly the lanes whose mask is set, to the value the unrestricted operation would give there, and reductions over a where expression consider exactly those lanes.",
  ["inputs"], "pack sizes 1 to 16, every mask, every lane value, pack and scalar right-hand sides, all compound operators",
  "tests use two mask patterns and monotone values",
  ["src/pack/ekat_pack.hpp", "src/pack/ekat_pack_where.hpp", "src/kokkos/ekat_where.hpp"],
  [("per lane guarded loops", "where_expression<Pack>, Pack::set"), ("mask logic", "Mask operators")],
  ["lane values, mask lanes, reductions"])

p("C20", "Pack reductions, shifts and index arithmetic are exact",
  "Min, max and sum over a pack (optionally restricted or seeded) use exactly the lanes asked for, and the serial-order sum adds in lane order. Shifting by one lane moves every value to its neighbour and inserts the given fill value at the freed end; lane ranges count up from their start. Converting between scalar extents and pack counts, indices, remainders and last-pack lengths is exact and mutually consistent for every extent and pack size.",
  ["inputs"], "pack sizes 1 to 16, all lane values, all seeds, all scalar extents and indices",
  "tests use consecutive integers and few extents",
  ["src/pack/ekat_pack.hpp", "src/pack/ekat_pack_utils.hpp"],
  [("lane loops", "min, max, reduce_sum, shift_left, shift_right, range"), ("integer division helpers", "PackInfo")],
  ["return values"])

p("C21", "Viewing arrays as packs or scalars keeps every element in place",
  "Turning a row-major contiguous array of packs into an array of scalars, of scalars into packs, or packs of one size into another, gives an array over the same memory with the same leading extents whose element at scalar index i of the last dimension is the same element as before; in debug builds extents that do not divide and arrays of any other memory layout are rejected. Gathering with pack indices, with and without a shift, and adjacent differences return in each lane the elements, or the difference of the elements, that the indices designate, with the documented values where the neighbour does not exist.",
  ["inputs"], "ranks 1 to 7, all extents, all pack size pairs that divide, const and non-const, all index packs within bounds",
  "the existing tests of this code cannot be built with the installed Kokkos, and use one pack size and fixed extents",
  ["src/pack/ekat_pack_kokkos.hpp"],
  [("reinterpretation of the data pointer", "scalarize, repack"), ("lane-wise gather", "index, index_and_shift"), ("neighbour difference by lane shift", "adj_diff")],
  ["addresses and values of elements, extents"])

p("C22", "Host-device transfers deliver every element to its place and back",
  "Copying host arrays into packed or unpacked device views places each source element at the logical index it has in the (possibly transposed) source, for every number of arrays and every combination of sizes, and copying back returns every element unchanged and writes nothing else; with transposition the round trip in opposite directions is the identity. Debug builds reject calls whose numbers of arrays, sizes and views differ and preallocated views of other extents. Transposing an array forth and back is the identity and each direction maps (i,j,k) as documented.",
  ["inputs"], "1 to 3 dimensions, several arrays of different sizes at once, pack sizes 1 to 16, sizes not multiple of the pack, both transposition directions, preallocated and newly allocated views, bool/int/float/double",
  "the existing tests of this code cannot be built with the installed Kokkos, and use one size per call",
  ["src/pack/ekat_pack_kokkos.hpp", "src/kokkos/ekat_math_utils.hpp"],
  [("element copy loops", "host_to_device_impl, device_to_host"), ("index arithmetic", "transpose")],
  ["view contents, host buffers with guard elements"])

p("C23", "Subviews and reshapes alias exactly the selected elements",
  "A subview at one or more leading indices, at an index of the second dimension, or over an index range of any dimension, has the extents of the selection, and each of its elements is the very element of the parent the selection designates, so writes are seen on both sides and nothing else changes. Reshaping a contiguous array keeps the elements in order; debug builds reject arrays with gaps and other numbers of elements. Filling an array or a subview with random numbers sets exactly its elements, and a host copy has the same extents and values.",
  ["inputs"], "view ranks 1 to 6, all extents, all indices and ranges, const and non-const, scalar and pack elements, subviews of subviews",
  "tests use one fixed shape per rank",
  ["src/kokkos/ekat_subview_utils.hpp", "src/kokkos/ekat_view_utils.hpp"],
  [("pointer and stride computation", "subview, subview_1"), ("unmanaged re-wrap", "reshape")],
  ["addresses of elements, extents"])

p("C24", "Broadcast views replicate the source along the added dimensions",
  "A view broadcast to a higher rank has the requested extents in the added dimensions and the source's extents in the others, and each of its elements is the source element with the added indices dropped, live in both directions; requests with the wrong number of extents or of free dimensions, and sources whose memory layout cannot be represented, are rejected.",
  ["inputs"], "source ranks 1 to 4, target ranks up to 6, every placement of added dimensions and extents, and every malformed request",
  "the existing test of this code cannot be built with the installed Kokkos and uses a few fixed shapes",
  ["src/kokkos/ekat_view_broadcast.hpp"],
  [("zero coefficient for added dimensions", "ViewBroadcast::setup, operator()")],
  ["addresses of elements, extent(), exceptions"])

p("C25", "Team reductions sum exactly the requested index range",
  "Reducing over an index range inside a team gives the sum over exactly that range, for scalar and packed inputs and any begin and end including ranges inside one pack and empty ranges, the same on every thread of the team. In the serialized mode the result is bit-for-bit the left-to-right sum, independent of packing, team size and number of threads.",
  ["inputs", "configurations", "schedules"], "all ranges, pack sizes 1 to 16, team sizes, leagues and thread counts 1 to 8, float and double",
  "tests use two ranges over one array and check only a few pack sizes",
  ["src/algorithm/ekat_reduction_utils.hpp", "src/kokkos/ekat_team_policy_utils.hpp"],
  [("partial first and last packs", "impl::view_reduction"), ("serial loop in BFB mode", "impl::parallel_reduce")],
  ["reduction results on each thread"])

p("C26", "Tridiagonal solvers solve the system they are given",
  "For every diagonally dominant tridiagonal system, each solver variant (direct and cyclic reduction, one or several systems and right-hand sides, scalar or packed) replaces each right-hand side by the solution of its own system, to rounding accuracy, whatever the number of rows, their distance in memory, the team size and the number of threads, and writes nothing else than its arguments. The variants documented as bit-for-bit give identical results for any team size and pack size.",
  ["inputs", "configurations"], "row counts 1 upward including non powers of two, right-hand side counts from none upward, team sizes, float and double, pack sizes, all diagonally dominant coefficients",
  "tests use one family of matrices at selected sizes",
  ["src/algorithm/ekat_tridiag.hpp"],
  [("forward elimination and back substitution", "thomas, bfb"), ("cyclic reduction", "cr")],
  ["solution arrays compared with an independent high-precision solve and with residuals"])

p("C27", "Linear interpolation matches the piecewise linear function",
  "For every increasing source grid and every target grid, the interpolated value at each target point is that of the straight line through the two source points bracketing it, with linear extrapolation by the end segments outside the source range, exact at grid points and on linear data up to rounding, and independent of packing, team size and the number of columns. Setting up and applying can be repeated for other columns and grids without affecting each other.",
  ["inputs", "configurations"], "source and target sizes from 2 (1 for target) upward, random monotone grids, targets below, inside, on and above the source range, pack sizes, team sizes",
  "the existing test of this code cannot be built with the installed Kokkos, and uses smooth random grids of few fixed sizes",
  ["src/algorithm/ekat_lin_interp.hpp", "src/algorithm/ekat_lin_interp_impl.hpp", "src/kokkos/ekat_upper_bound.hpp"],
  [("bracketing by upper bound", "LinInterp::setup"), ("gather and blend", "LinInterp::lin_interp")],
  ["interpolated arrays compared with a scalar reference"])

p("C28", "Workspaces handed out to a team never overlap or get lost",
  "After any history of takes (single, many, contiguous, macro block, take-and-reset), releases in any order and resets, the arrays currently held by a team are pairwise disjoint, have the requested size, lie inside the manager's memory, and are not shared with any other concurrently running team; data written to a held array stays until its release. A released array becomes available again, so no sequence that holds at most the maximum number of arrays at once ever fails, and reported usage counts and names match the history.",
  ["histories", "schedules", "configurations"], "every take/release history within the capacity, element types of 1 to 8 bytes taken as other types, team sizes, leagues larger than the number of concurrent teams, thread counts, debug and optimized builds, internal and user-provided memory",
  "tests run a few fixed cycles over four slots in a debug build",
  ["src/kokkos/ekat_workspace.hpp", "src/kokkos/ekat_workspace_impl.hpp"],
  [("free list threaded through slot metadata", "Workspace::take/release, set_next_and_get_index"), ("contiguous bulk operations", "take_many_contiguous_unsafe, release_many_contiguous, take_macro_block"), ("team barriers", "Workspace::take/release")],
  ["addresses and contents of the arrays held; get_num_used, get_name"],
  [("m_next_slot", "head of each team's free list", "ekat_workspace.hpp")])

p("C29", "Concurrent teams get distinct, valid workspace indices",
  "For every team policy with the default (static) schedule, each running team obtains a workspace index inside the reported number of slots, the same on all its threads, that no other team holds at the same time, and the reported numbers of concurrent teams, threads and slots never exceed the hardware concurrency or the league size. In the configuration for GPUs the slots are the concurrent teams, times the overprovision factor when the league is larger, and never more than the league; a team holds its slot alone from the moment it gets it until all its threads have released it, however many teams there are; factors below one are refused; policies have teams of whole warps up to 128 threads, a power of two for scans.",
  ["schedules", "configurations"], "thread counts 1 to 8, team sizes 1 to the maximum (not only divisors), league sizes from 1 to many times the number of concurrent teams",
  "the test uses fixed team sizes on the thread counts it is run with, and never the code for GPUs",
  ["src/kokkos/ekat_team_policy_utils.hpp"],
  [("lock per slot, random search for a free one", "TeamUtils<..., EkatGpuSpace>"), ("thread number to team mapping", "TeamUtils<..., OpenMP>::get_workspace_idx"), ("concurrency arithmetic", "TeamUtilsCommonBase")],
  ["indices observed by every thread while the team runs; get_num_concurrent_teams/get_max_concurrent_threads/get_num_ws_slots"])

p("C30", "Expression templates evaluate like the formula they spell",
  "Evaluating any expression built from views, scalars, arithmetic, comparisons, logical operators, conditionals and math functions into a view gives at every index the value of the same formula on the elements at that index, with the same types as scalar code, reading the views at evaluation time and changing nothing else; results of mismatched rank or extents are rejected.",
  ["inputs", "programs"], "expression trees over views of ranks 0 to 6, all operators with scalar operands on either side, all extents and values",
  "the existing tests of this code cannot be built with the installed Kokkos, and cover a few fixed formulas",
  ["src/expression/ekat_expression_base.hpp", "src/expression/ekat_expression_binary_op.hpp", "src/expression/ekat_expression_binary_predicate.hpp", "src/expression/ekat_expression_conditional.hpp", "src/expression/ekat_expression_math.hpp", "src/expression/ekat_expression_eval.hpp", "src/expression/ekat_expression_view.hpp", "src/expression/ekat_expression_traits.hpp"],
  [("node-wise recursive evaluation", "eval members"), ("index space loop", "evaluate")],
  ["contents of the result view and of the inputs; exceptions"])

p("C31", "Log messages reach exactly the sinks their level and rank select",
  "A message is written to the console or file sink of a logger exactly when its level reaches the logger's level and that sink's own level and the rank is one that logs, in call order and complete, after any history of level changes; loggers sharing sinks write to the same file in order. Ranks that must not log produce no output and no file, and file names identify the rank when all ranks log.",
  ["histories", "configurations"], "every sequence of log calls and level changes on several loggers with shared or own sinks, all policies, 1 to 4 ranks",
  "tests log a handful of messages at fixed levels",
  ["src/logging/ekat_logger.hpp", "src/logging/ekat_log_file_policy.hpp", "src/logging/ekat_log_mpi_policy.hpp"],
  [("level initialization and forwarding", "Logger constructors, set_*_level"), ("rank filtering", "MpiOutputPolicy::should_log")],
  ["log file contents, captured console output, level getters"])

p("C32", "Type lists and type maps agree with their list model",
  "For every list of types, position lookup, uniqueness, concatenation, element access, template application, iteration (with early stop) and type-keyed maps give the results of the same operations on ordinary lists and maps; array type queries report the value type, rank and dynamic rank the type spells.",
  ["programs"], "generated programs over random type lists and array types",
  "the tests instantiate a few fixed type lists",
  ["src/core/ekat_meta_utils.hpp", "src/core/ekat_type_traits.hpp", "src/core/ekat_std_type_traits.hpp"],
  [("recursive templates", "FirstOf, is_type_list_unique, TypeListFor, TypeMap, ApplyTemplate"), ("array type decomposition", "GetRanks, ValueType, DataND")],
  ["compile-time constants and run-time results printed by the generated program"])

p("C33", "Kernel helpers agree with the standard library on host and device",
  "The string, minimum and maximum, search, finiteness, index-limit and relative-difference helpers for kernels give the same results as the standard library functions they stand for, for every input, in the host and in the GPU configuration, without touching memory outside their operands. A kernel check stops the program, naming its condition and message, exactly when its condition is false (debug-only checks only in debug builds), and evaluates it at most once. Scalar traits report the same value type, scalar type and category for a type under all qualifiers; the invalid value of a type, or of every lane of a pack, is NaN for floating-point and the largest value for integer types; the unmanaged type of a view differs from it only in being unmanaged.",
  ["inputs", "configurations"], "all strings and arrays, repeated and extreme values included, both configurations; all element types, qualifiers, pack sizes and memory traits",
  "the GPU replacements are never compiled by the tests on a host, and no test calls most of these helpers",
  ["src/kokkos/ekat_kokkos_str_utils.hpp", "src/kokkos/ekat_math_utils.hpp", "src/kokkos/ekat_upper_bound.hpp", "src/kokkos/ekat_kernel_assert.hpp", "src/kokkos/ekat_kokkos_meta.hpp", "src/core/ekat_scalar_traits.hpp", "src/pack/ekat_pack.hpp"],
  [("replacements for functions that do not run on GPUs", "ekat::impl::strlen, strcpy, strcmp, min, max, max_element, ekat::upper_bound"), ("check that prints and aborts", "IMPL_KERNEL_THROW"), ("traits and invalid values", "ScalarTraits, invalid, Unmanaged")],
  ["results, memory around the operands, exit status and output of a child process, compile-time constants"])

p("C34", "Test programs run what they are told and report every failure",
  "A test program built with the provided main hands the arguments before the first --args to the test framework and all later ones to the test session, starts its session once before the tests and ends it after them on every rank (the default one brings up Kokkos with the options given, and floating-point traps if so configured), prints the configuration on the first rank only, and exits with status zero exactly when every selected test passes on every rank; malformed arguments end it with an error before any test. Starting the Kokkos session while it runs changes nothing, and ending it when it does not run is harmless. Option names match exactly their short form, the short form with one more dash, and the long form; random arrays hold the numbers the generator gives, in order, and nothing else is written.",
  ["inputs", "histories", "configurations"], "all command lines of framework and own arguments, failures of any kind in any tests on any ranks, 1 to 4 ranks, with and without MPI and Kokkos, default and own sessions",
  "the existing tests are themselves such programs: each is run with one command line, and one that hid a failure would simply pass",
  ["src/testing-support/ekat_catch_main.cpp", "src/testing-support/ekat_test_session.cpp", "src/kokkos/ekat_kokkos_session.cpp", "src/core/ekat_test_utils.cpp", "src/core/ekat_test_utils.hpp"],
  [("splitting of the arguments", "split_args"), ("order of start, tests, end and exit status", "main"), ("start and end of Kokkos", "initialize_kokkos_session, finalize_kokkos_session")],
  ["files written by the tests of real programs, their exit status and output"])

p("C35", "Test tools run and describe the tests that were declared",
  "The test launcher runs the program after -- exactly once with its arguments in order, in the same directory and environment plus thread-placement defaults that never replace the user's own, forwards its output, and ends with status zero exactly when the program does; wrong command lines and resource descriptions are refused without running it. When it manages resources, the ranks of a run get consecutive stretches of equal length of the cores that ctest granted, in increasing order and together all of them. A declaration of a test with ranges of ranks and threads yields exactly one ctest test per combination, with the documented names, number of threads, processors, labels, fixtures, dependencies, expected failure and lock, which launches the program with that many ranks; contradictory ranges are refused. For a source with expected assertion failures, one generated source holds none of the marked lines and each further one exactly one of them, for any number of them, also none. A configured file holds the template's text with its variables replaced (only @-variables if so asked), is rewritten only when that text changes, and its Fortran form turns comments into Fortran comments.",
  ["inputs", "configurations"], "command lines, environments and resource groups for 1 to 4 ranks; all combinations of the options of a test declaration; any source or template",
  "every test of the repository runs through these tools, so one that drops a failure or a rank would make the tests pass",
  ["bin/test-launcher", "cmake/EkatCreateUnitTest.cmake", "cmake/EkatCreateUnitTestWithAsserts.cmake", "cmake/gen_assert_test_src.py", "cmake/EkatUtils.cmake"],
  [("command and cores of a rank", "run_test"), ("one test per combination", "EkatCreateUnitTestFromExec"), ("one source per marked line", "create_sources"), ("configuration only on change", "EkatConfigFile")],
  ["what a recording program gets; exit status and output of the launcher and of ctest; properties of the declared tests; generated files and their times"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(d) + "\n" for d in P))
for d in P:
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
print(len(P))
