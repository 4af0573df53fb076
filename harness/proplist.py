prop("C01", "ArrayBuilder reproduces exactly the data it was given",
     "After any sequence of builder commands (and for any nested Python data given to from_iter), the array built contains exactly the completed values, in order, with missing record fields and tuple slots as missing values; its type is the smallest one that the commands call for (numbers widen, nulls make options, mixed kinds make unions). Commands that do not fit the open structure raise an error and leave the data alone.",
     ["histories", "inputs"], "every sequence of builder commands, every initial buffer size and growth factor",
     "Tests replay a handful of fixed command sequences; the type changes, promotions and error cases interact across the whole history.",
     ["src/libawkward/builder/*.cpp", "src/python/content.cpp", "src/awkward/highlevel.py"],
     [("Builder objects that replace themselves by wider ones (maybeupdate)", "src/libawkward/builder/*Builder.cpp"), ("GrowableBuffer", "src/libawkward/builder/GrowableBuffer.cpp")],
     [("builder tree", "type discovered so far, and its buffers", "include/awkward/builder/"), ("begun_/current_/nextindex_", "which structures are open", "ListBuilder, UnionBuilder, RecordBuilder, TupleBuilder")],
     ["ak.ArrayBuilder.snapshot", "ak.from_iter", "len(builder)"])
prop("C02", "Builder snapshots are immutable copies in time",
     "A snapshot contains the values completed when it was taken and never changes afterwards, whatever is appended, opened, closed or cleared later; values appended from existing arrays are equal to the originals, and clearing the builder leaves it able to build afresh.",
     ["histories"], "every interleaving of commands, snapshots, clears and appends",
     "Tests take one snapshot at the end; sharing of buffers between snapshots and later growth needs long interleaved histories.",
     ["src/libawkward/builder/*.cpp", "src/libawkward/builder/IndexedBuilder.cpp", "src/libawkward/builder/GrowableBuffer.cpp"],
     [("snapshots share buffers that are only ever extended or replaced", "src/libawkward/builder/GrowableBuffer.cpp")],
     [("GrowableBuffer ptr_/length_/reserved_", "shared by snapshots up to their length", "include/awkward/builder/GrowableBuffer.h")],
     ["ak.ArrayBuilder.snapshot", "ak.ArrayBuilder.append", "ak.ArrayBuilder.clear"])
prop("C04", "AwkwardForth programs run as Forth defines them, however they are driven",
     "An AwkwardForth program leaves exactly the stack and the variables that its words, arithmetic (floor division, wrap-around at the machine's word size), conditionals, loops, recursion and exits define; it makes no difference whether it is run at once, single-stepped or paused and resumed, and words called in between behave as calls. Stack underflow and overflow, too deep recursion and division by zero stop the program with the named error, which persists until the machine is restarted, and a restart forgets everything of the previous run.",
     ["inputs", "histories"], "every program and every session of run, begin, step, resume, call, push, pop, reset commands, both word sizes, every stack and recursion limit",
     "Tests run small programs from start to end; nested loops with exits, pauses and calls, and limits reached inside them, need combinations.",
     ["src/libawkward/forth/ForthMachine.cpp", "include/awkward/forth/ForthMachine.h", "src/python/forth.cpp"],
     [("internal_run: instruction pointers, do-stack, target depths", "src/libawkward/forth/ForthMachine.cpp"), ("parse: control structures become dictionary segments", "src/libawkward/forth/ForthMachine.cpp")],
     [("stack, variables, recursion and do stacks, target depths, current error", "the machine between commands", "include/awkward/forth/ForthMachine.h")],
     ["ForthMachine32/64 run, begin, step, resume, call, stack, variables, is_done, is_ready"])
prop("C05", "AwkwardForth reads and writes exactly the bytes and numbers it is told to",
     "Reading an input in any format (booleans, integers and floats of every size in either byte order, variable-length and zigzag integers, bit fields; singly or repeated) yields the numbers those bytes encode and moves the position past them; seek, skip, len, pos and end agree with that position; outputs of every type receive exactly the converted numbers in order (with <-, +<-, dup and rewind), whatever their initial size and growth. Reading or moving beyond the input, rewinding beyond the output and oversized integers stop with the named error and keep what was written before. The input's bytes are never changed.",
     ["inputs", "histories"], "every input, every read format, every output type, initial size and growth factor",
     "Tests read aligned sample data; conversions between every format and every output type, partial reads at the end and growth in the middle of a repeated write are combinations.",
     ["src/libawkward/forth/ForthMachine.cpp", "src/libawkward/forth/ForthInputBuffer.cpp", "src/libawkward/forth/ForthOutputBuffer.cpp", "src/python/forth.cpp"],
     [("read, seek, skip", "src/libawkward/forth/ForthInputBuffer.cpp"), ("write_one, write_copy, write_add, maybe_resize", "src/libawkward/forth/ForthOutputBuffer.cpp")],
     [("input position, output length and reservation", "per input and output", "include/awkward/forth/")],
     ["ForthMachine32/64 outputs, output_NumpyArray, input_position"])
prop("C06", "Slicing means the same for every data layout",
     "Slicing an array with integers, ranges, index arrays, boolean masks, nested (jagged) arrays, missing values, field names, ellipsis and newaxis gives the NumPy-style selection of the array's logical values, or an error when an index is out of range; the result depends only on the values and types of array and slice, never on how either is laid out in memory.",
     ["inputs"], "every array type and physical layout, every combination of slice items",
     "Tests slice selected layouts with selected slices; offsets that do not start at zero, gaps, masks in each bit order, strided buffers and their combinations are mostly not reached.",
     ["src/libawkward/array/*.cpp", "src/libawkward/Slice.cpp", "src/libawkward/Content.cpp", "src/cpu-kernels/awkward_*getitem*.cpp", "src/python/content.cpp", "src/awkward/highlevel.py"],
     [("getitem_next over slice items", "src/libawkward/array/*.cpp"), ("jagged slices", "getitem_next_jagged")],
     observe=["ak.Array.__getitem__"])
prop("C07", "Arrays are valid, and validity checks tell valid from invalid",
     "validity_error and is_valid say that an array is invalid exactly when some position it refers to does not exist, a string is not made of characters, a category occurs twice, or options or unions are directly nested; Array(check_valid=True) and Record(check_valid=True) raise an error in exactly the same cases. Every result of every operation on valid arrays is itself a valid array.",
     ["inputs"], "every tree of buffers, with and without positions out of range, at any node; every operation of the other properties on valid arrays",
     "Tests check the validity of a few hand-made arrays; each node class has a check of its own, and operations produce nested options or inconsistent lengths only for combinations of nodes that tests do not sample.",
     ["src/awkward/operations/describe.py (is_valid, validity_error)", "src/libawkward/array/*.cpp (validityerror, is_unique)", "src/cpu-kernels/awkward_*validity*.cpp", "src/cpu-kernels/awkward_*unique*.cpp"],
     [("validityerror", "src/libawkward/array/*.cpp"), ("validity kernels", "src/cpu-kernels/awkward_*validity*.cpp"), ("simplify_optiontype, simplify_uniontype", "src/libawkward/array/*.cpp")],
     observe=["ak.is_valid", "ak.validity_error", "ak.Array(check_valid=True)", "results of every operation"])
prop("C08", "Reducers compute the mathematical result along every axis",
     "count, count_nonzero, sum, prod, any, all, min, max, argmin, argmax, and mean, var, std, moment and ptp, applied to lists of any nesting along any axis (positive, negative or None) group exactly the values that share the outer position: missing values are skipped, empty groups give the identity (or a missing value if mask_identity is set), argmin/argmax give the first position in the original list, keepdims keeps the dimension, and the result depends only on the values, not on how the array is laid out in memory.",
     ["inputs"], "every array type and physical layout, every reducer, axis, mask_identity, keepdims, initial and weight",
     "Tests reduce selected layouts; sliced lists, gaps, missing lists, empty lists inside lists, fixed sizes and their combinations with outer axes are mostly not reached.",
     ["src/libawkward/Reducer.cpp", "src/libawkward/array/*.cpp (reduce_next)", "src/cpu-kernels/awkward_reduce_*.cpp", "src/cpu-kernels/awkward_*_reduce_*.cpp", "src/awkward/operations/reducers.py"],
     [("reduce_next with starts, shifts and parents", "src/libawkward/array/*.cpp"), ("transposition for outer axes (nonlocal reduction)", "src/libawkward/array/ListOffsetArray.cpp")],
     observe=["ak.sum", "ak.prod", "ak.min", "ak.max", "ak.any", "ak.all", "ak.count", "ak.count_nonzero", "ak.argmin", "ak.argmax", "ak.mean", "ak.var", "ak.std", "ak.moment", "ak.ptp"])
prop("C09", "sort and argsort order each group and lose nothing",
     "sort along any axis, ascending or descending, rearranges exactly the values that share the outer position (lists are sorted one by one; at outer axes the values at the same inner position are sorted among each other and put back where values of that position were) and changes nothing else: every value is still there, lists keep their lengths, missing values come last at the sorted axis (they are dropped if it is the outermost one) and stay in place above it, NaN comes after every number. argsort gives the positions (counted among the values that are not missing) that sort would put there, and equal values keep their order. Strings are ordered byte by byte. None of it depends on how the array is laid out in memory.",
     ["inputs"], "every array type of numbers, booleans and strings and physical layout, axis, direction, stability",
     "Tests sort arrays whose offsets start at zero, mostly without ties, missing lists or NaN.",
     ["src/libawkward/array/*.cpp (sort_next, argsort_next)", "src/cpu-kernels/awkward_sort.cpp", "src/cpu-kernels/awkward_argsort.cpp", "src/cpu-kernels/awkward_quick_sort.cpp", "src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp"],
     [("sort_next and argsort_next with starts and parents", "src/libawkward/array/*.cpp"), ("comparison functions", "src/cpu-kernels/awkward_sort.cpp")],
     observe=["ak.sort", "ak.argsort"])
prop("C10", "Element-wise functions broadcast by structure",
     "A NumPy universal function of arrays and scalars applies to the elements that correspond in structure: lists are matched element by element (or raise an error if their lengths differ), numbers are repeated over lists, size-1 regular dimensions are stretched as in NumPy, missing in any argument gives missing, and the result's number type is NumPy's; broadcast_arrays gives each argument in that common structure. None of this depends on how the arrays are laid out in memory.",
     ["inputs"], "every combination of array types and physical layouts, scalars, binary and unary functions",
     "Tests combine selected layouts; lists with equal offsets take a shortcut, and sliced, gapped, regular and indexed arrays take other paths that must agree.",
     ["src/awkward/_util.py (broadcast_and_apply)", "src/awkward/_connect/_numpy.py", "src/awkward/operations/structure.py (broadcast_arrays)", "src/libawkward/array/*.cpp (broadcast_tooffsets64)", "src/cpu-kernels/awkward_*broadcast*.cpp"],
     [("broadcast_and_apply recursion", "src/awkward/_util.py"), ("broadcast_tooffsets64", "src/libawkward/array/*.cpp")],
     observe=["numpy.add and the other ufuncs on ak.Array", "ak.broadcast_arrays"])
prop("C11", "List-structure operations count, pad, flatten and regroup exactly",
     "num, local_index, pad_none (with and without clipping), firsts, singletons, flatten (at any axis or all), unflatten, run_lengths, to_regular, from_regular and packed act on the lists at the requested axis and on nothing else: every value stays, in order, in its place; missing lists stay missing (or are dropped where flattening removes their level); counts that do not fit and dimensions that do not exist are errors; packed and the regular conversions change no value and leave no unreachable data or wrong type behind. The results depend only on the values, not on how the array is laid out in memory.",
     ["inputs"], "every array type and physical layout, every axis, padding length and split",
     "Tests use arrays whose offsets start at zero and whose buffers have no gaps; after slicing and masking neither holds.",
     ["src/awkward/operations/structure.py", "src/awkward/operations/convert.py (to_regular, from_regular)", "src/libawkward/array/*.cpp (num, localindex, rpad, offsets_and_flattened, toRegularArray)", "src/cpu-kernels/awkward_*num*.cpp", "src/cpu-kernels/awkward_*rpad*.cpp", "src/cpu-kernels/awkward_*flatten*.cpp"],
     [("num, rpad, rpad_and_clip, localindex, offsets_and_flattened", "src/libawkward/array/*.cpp"), ("unflatten, _packed, run_lengths", "src/awkward/operations/structure.py")],
     observe=["ak.num", "ak.local_index", "ak.pad_none", "ak.firsts", "ak.singletons", "ak.flatten", "ak.unflatten", "ak.run_lengths", "ak.to_regular", "ak.from_regular", "ak.packed"])
prop("C12", "Combinations and cartesian products are complete, in order and duplicate-free",
     "combinations gives, for each list at the requested axis, every choice of n of its items (with or without replacement) exactly once, in lexicographic order of position, as records of n fields; cartesian gives, for each group of lists that correspond at the axis, every tuple with one item from each array exactly once, in lexicographic order, grouped in nested lists where requested; argcombinations and argcartesian give the positions of the same items. Names of fields and records are the requested ones, missing lists stay missing, everything above the axis is unchanged, and nothing depends on how the arrays are laid out in memory.",
     ["inputs"], "every array type and physical layout, axis, number of items, replacement, nesting",
     "Tests combine a few arrays whose offsets start at zero; fixed-size, gapped and indexed lists, empty lists and three or more arrays reach other code.",
     ["src/awkward/operations/structure.py (combinations, cartesian)", "src/libawkward/array/*.cpp (combinations)", "src/cpu-kernels/awkward_*combinations*.cpp", "src/cpu-kernels/awkward_RegularArray_combinations.cpp"],
     [("combinations", "src/libawkward/array/*.cpp"), ("cartesian by broadcasting", "src/awkward/operations/structure.py")],
     observe=["ak.combinations", "ak.argcombinations", "ak.cartesian", "ak.argcartesian"])
prop("C13", "Missing values are found, filled and made exactly where they are",
     "is_none is true exactly at the missing values of the requested axis; fill_none replaces every missing value (at every axis, also inside missing or optional lists and records) and nothing else; mask makes missing exactly the elements its condition selects; full_like, zeros_like and ones_like keep structure and missing values and replace every leaf, values_astype converts every number and keeps the rest, nan_to_num replaces exactly NaN and infinities, copy gives an equal array that shares nothing. Types follow; the result depends only on values and types, not on how the array is laid out in memory (kind of option node, mask polarity, bit order, gaps, n-dimensional buffers).",
     ["inputs"], "every array type and physical layout, every axis, fill value, mask and target number type",
     "Tests use one option node at a time; option nodes of four kinds nest inside lists, records, regular arrays and each other and each has its own code path.",
     ["src/awkward/operations/structure.py (is_none, fill_none, mask, values_astype, full_like, nan_to_num, copy)", "src/libawkward/array/*.cpp (fillna, simplify_optiontype, numbers_to_type)", "src/cpu-kernels/awkward_*mask*.cpp", "src/cpu-kernels/awkward_NumpyArray_fill*.cpp"],
     [("fillna", "src/libawkward/array/*.cpp"), ("fill_none, is_none, mask, full_like", "src/awkward/operations/structure.py")],
     observe=["ak.is_none", "ak.fill_none", "ak.mask", "ak.full_like", "ak.zeros_like", "ak.ones_like", "ak.values_astype", "ak.nan_to_num", "ak.copy"])
prop("C14", "Concatenating, selecting, zipping and adding fields keep every value",
     "concatenate at axis 0 gives all values of all arrays in order (numbers converted to the common number type, other differing types kept as unions, records with the same fields as records), and at deeper axes joins the lists that correspond (a missing list counts as empty); where takes each element from the array its condition selects; zip and unzip pair elements that correspond in structure and take them apart again; with_field, with_name, without-field access and assignment change exactly the named field. Nothing depends on how the arrays are laid out in memory.",
     ["inputs"], "every pair or triple of array types and physical layouts, axis, condition and field",
     "Every pair of node types has its own merging path, and sliced or over-long buffers reach code that whole arrays do not.",
     ["src/awkward/operations/structure.py (concatenate, where, zip, unzip, with_field, with_name)", "src/libawkward/array/*.cpp (mergemany, merge_as_union, mergeable, simplify)", "src/cpu-kernels/awkward_*fill*.cpp", "src/cpu-kernels/awkward_UnionArray_simplify*.cpp"],
     [("mergemany, simplify_uniontype", "src/libawkward/array/*.cpp"), ("concatenate, where, zip, with_field", "src/awkward/operations/structure.py")],
     observe=["ak.concatenate", "ak.where", "ak.zip", "ak.unzip", "ak.with_field", "ak.with_name"])
prop("C15", "Conversion to and from Python, JSON and NumPy preserves values",
     "to_list, iteration and element access give the array's values as Python objects; to_json gives JSON text (compact, pretty or in a file) that describes exactly these values (with NaN and infinities as requested), and from_json reads back what was written; to_numpy gives a NumPy (masked or structured) array with the same values and missing values whenever the array is rectangular and an error otherwise; from_numpy and from_iter give arrays with the values they were given, whatever dtype, byte order, strides, mask and number of dimensions.",
     ["inputs"], "every array type and physical layout, every JSON option, every NumPy shape, stride, byte order and mask",
     "Conversions walk every node type; sliced, over-long, non-contiguous and zero-size buffers reach paths that whole arrays do not.",
     ["src/awkward/operations/convert.py", "src/libawkward/io/json.cpp", "src/libawkward/array/*.cpp (tojson_part)", "src/python/content.cpp (iteration, buffers)"],
     [("to_list, to_numpy, from_numpy, to_json, from_json", "src/awkward/operations/convert.py"), ("rapidjson reader and writers", "src/libawkward/io/json.cpp")],
     observe=["ak.to_list", "iter(ak.Array)", "ak.to_json", "ak.from_json", "ak.to_numpy", "ak.from_numpy", "ak.from_iter"])
prop("C16", "Arrays survive being taken apart into buffers, pickled and copied",
     "Buffers, form and length from to_buffers put together by from_buffers (at once, lazily with any cache, with any key format, whole or in partitions) give an array with the same values, type, parameters and node structure; so do pickling (also of records, slices and partitioned arrays), copying and deep-copying. Forms written as JSON and read back are equal forms, types written as text and parsed back are equal types, and the form of an array has its type.",
     ["inputs", "histories"], "every array type and physical layout (over-long, shared, non-contiguous, zero-size buffers), parameters, key format, container, partitioning, order of access",
     "Every node type has its own buffer layout and length rule; gaps, over-long buffers, bit order, zero-size items and partial lazy access only occur in arrays that tests do not sample.",
     ["src/awkward/operations/convert.py (to_buffers, from_buffers)", "src/awkward/highlevel.py (__getstate__, __setstate__)", "src/libawkward/Content.cpp (forms from JSON)", "src/python/forms.cpp", "src/awkward/types/parser.py"],
     [("to_buffers, from_buffers, _from_buffers_key", "src/awkward/operations/convert.py"), ("Form::fromjson, tojson", "src/libawkward/Content.cpp")],
     observe=["ak.to_buffers", "ak.from_buffers", "pickle", "copy", "ak.forms.Form.fromjson", "ak.types.from_datashape"])
prop("C17", "Arrow arrays and tables hold the same values as the arrays they came from",
     "to_arrow gives an Arrow array (to_arrow_table a table) whose values, as Arrow itself reads them, are the values of the awkward array with every missing value null; from_arrow of any Arrow array, chunked array, record batch or table - sliced, chunked, nullable or not, with lists of every size type, structs, dictionaries, strings, bytes and booleans at any depth - gives the values Arrow reads; arrays written and read back are equal, whole or in partitions, also through Parquet files (one or several, all rows or some row groups, all fields or some).",
     ["inputs"], "every array type and physical layout; every Arrow type, offset, chunking and null pattern",
     "Arrow's bitmaps, offsets and slices differ from awkward's; the tests convert a few unsliced arrays.",
     ["src/awkward/operations/convert.py (to_arrow, from_arrow, to_arrow_table)", "src/libawkward/array/BitMaskedArray.cpp", "src/libawkward/array/ByteMaskedArray.cpp"],
     [("to_arrow recurse", "src/awkward/operations/convert.py"), ("from_arrow popbuffers", "src/awkward/operations/convert.py")],
     observe=["ak.to_arrow", "ak.to_arrow_table", "ak.from_arrow", "pyarrow values"])
prop("C18", "Lazy arrays behave exactly like the arrays they stand for",
     "An array with lazily generated parts (with or without a known form or length, with a keeping, forgetting or no cache, nested at any place) gives for every operation - slicing, reducing, sorting, broadcasting, counting, combining, filling, concatenating, converting - the same values and types as the array its generators produce.",
     ["inputs", "histories"], "every array type, lazy nodes at every place, every cache behaviour, every operation of the other properties",
     "Every operation has a separate branch for lazy nodes, and whether it is reached depends on what has been generated before.",
     ["src/libawkward/array/VirtualArray.cpp", "src/libawkward/virtual/ArrayGenerator.cpp", "src/libawkward/virtual/ArrayCache.cpp", "src/python/virtual.cpp", "src/awkward/operations/*.py"],
     [("VirtualArray", "src/libawkward/array/VirtualArray.cpp"), ("ArrayGenerator, SliceGenerator", "src/libawkward/virtual/ArrayGenerator.cpp")],
     observe=["ak.virtual", "every operation on the result"])
prop("C19", "Partitioned arrays behave exactly like the arrays their partitions add up to",
     "An array in any number of partitions, of any lengths (also empty ones), gives for every operation - slicing, reducing, sorting, broadcasting with equally long arrays that are partitioned otherwise or not at all, counting, combining, filling, concatenating, converting - the same values as the array in one piece; fixed sizes of lists aside, so are the types.",
     ["inputs"], "every array type and physical layout, every way to cut it into partitions, every operation of the other properties",
     "Each operation decides by itself whether it may work partition by partition; tests cut a few arrays at a few places.",
     ["src/awkward/partition.py", "src/libawkward/partition/*.cpp", "src/python/partition.cpp", "src/awkward/_util.py (broadcast_and_apply)", "src/awkward/operations/*.py"],
     [("PartitionedArray", "src/awkward/partition.py"), ("getitem_range_nowrap, repartition", "src/libawkward/partition/*.cpp")],
     observe=["ak.partitioned", "ak.repartition", "every operation on the result"])
prop("C20", "Arrays are values: no operation changes an array that exists",
     "Whatever sequence of operations a program runs (successful or failing) on arrays that share buffers with each other, every array keeps its exact contents: operations only make new arrays; assigning a field changes only the array it is assigned to; writing into the buffers of a copy made by copy or deepcopy changes no other array.",
     ["inputs", "histories"], "every sequence of operations, field assignments and writes into copies, on arrays of every type and physical layout that share any of their buffers",
     "Tests compare an operation's result and do not look at the inputs again; results share buffers with their inputs, so that an in-place update anywhere changes arrays that are only visible much later.",
     ["src/awkward/_util.py (broadcast_and_apply)", "src/awkward/operations/structure.py", "src/awkward/highlevel.py (__setitem__)", "src/libawkward/array/*.cpp (bytemask, project, carry, deep_copy)", "src/cpu-kernels/*.cpp"],
     [("sharing of buffers between arrays", "include/awkward/Index.h, src/libawkward/array/*.cpp"), ("high-level arrays hold immutable layouts", "src/awkward/highlevel.py")],
     observe=["every ak operation", "ak.Array.__setitem__", "ak.copy", "copy.deepcopy"])
prop("C21", "Compiled functions see the same array as Python does",
     "In a Numba-compiled function, every item, range and field that can be reached from an array (of any type, physical layout, lazy or partitioned), its length, its iteration, its strings and numbers are the ones that the array has in Python, positions out of range are errors; arrays and records that are returned, appended to an array builder or converted to NumPy there are the ones that were reached, and array builders filled in compiled code hold what was put in.",
     ["inputs", "histories"], "every type without unions, every physical layout including lazy and partitioned arrays, every path of items, ranges and fields",
     "Tests compile a handful of functions for a handful of layouts; the generated code addresses raw buffers relative to the start of every view, which only goes wrong for views that do not start at 0, inside of option types, bit masks, partitions, etc.",
     ["src/awkward/_connect/_numba/layout.py", "src/awkward/_connect/_numba/arrayview.py", "src/awkward/_connect/_numba/builder.py", "src/awkward/behaviors/string.py (_string_numba_lower)"],
     [("views are addressed by position, start and stop", "src/awkward/_connect/_numba/layout.py"), ("builders in compiled code", "src/awkward/_connect/_numba/builder.py, src/libawkward/builder/ArrayBuilder.cpp (C interface)")],
     observe=["numba.njit functions of ak.Array and ak.ArrayBuilder"])

prop("C22", "Results have the type that follows from the types of the arguments",
     "The type of a result is a function of the types of the arguments, not of the values in them or of how they are laid out: slices, selections, masks, concatenation, sorting, padding, flattening, zipping, combinations, projections, conversions and the like keep the numeric types, the names of records and lists, the sizes of fixed-size lists and the possibility of missing values of what they keep, also for arrays without any items, and they add exactly the option, list and record levels that the operation stands for.",
     ["inputs"], "every type with named records and lists, every physical layout of it, empty arrays included",
     "Tests compare values with to_list, in which types, names and sizes cannot be seen, and rarely look at the type of an empty result.",
     ["src/libawkward/array/*.cpp", "src/awkward/operations/structure.py", "src/awkward/_util.py"],
     [("parameters, sizes and option nodes are handed on by every operation", "src/libawkward/array/*.cpp (getitem_*, carry, rpad, mergemany, sort_next, combinations)")],
     observe=["ak.type of every result"])

prop("C23", "Strings, categories and named data behave as their names say",
     "Strings and byte strings take part in broadcasting and comparison as whole values: == and != match them up like numbers and compare their bytes. Categorical arrays have the values and the type (but for being categorical) of what they were made from, each category once, they compare like the values they stand for, and from_categorical gives these back. Records and lists of a name are instances of the class that is registered for the name and the kind of data, in the array's own behavior before the global one, whatever the physical layout and also after slicing, and functions that are overloaded for names are called for exactly the data with these names.",
     ["inputs"], "every nesting of lists, missing values and records around strings, categories and named data, every physical layout, every choice of registered classes and overloads",
     "Behaviors are looked up from parameters of nodes that each physical layout puts elsewhere; strings are lists of numbers that every list operation has to leave alone; tests use a few layouts and names.",
     ["src/awkward/behaviors/*.py", "src/awkward/_util.py (arrayclass, recordclass, overload, broadcast_and_apply)", "src/awkward/_connect/_numpy.py", "src/awkward/operations/structure.py (to_categorical, from_categorical)"],
     [("string and categorical behaviors", "src/awkward/behaviors/string.py, categorical.py"), ("arrayclass, recordclass, overload", "src/awkward/_util.py")],
     observe=["ak.Array == ak.Array", "ak.to_categorical", "ak.from_categorical", "ak.categories", "type(ak.Array)", "ak.behavior"])

prop("C24", "Lazy data are generated only when needed, and once while they are kept",
     "A program that makes arrays out of lazy arrays - fields, ranges, selections of rows, records, zipped columns, added fields - generates none of the lazy parts whose form and length are known until values of them are asked for, and then only the columns that are asked for; what was generated and is kept in its cache is not generated again as long as any array that descends from it is alive, whichever arrays have been dropped in between, and everything read along the way is the right value.",
     ["histories"], "every sequence of creating, slicing, selecting, zipping, adding fields, asking for length and type, reading, dropping arrays and forgetting cached parts, on virtual columns and lazily read buffers",
     "When a part is generated depends on the whole history of slices, caches (held by weak references) and earlier reads; tests look at the values, which are the same if everything is generated at once or again and again.",
     ["src/libawkward/array/VirtualArray.cpp", "src/libawkward/virtual/*.cpp", "src/python/virtual.cpp", "src/awkward/operations/structure.py (virtual, with_cache, with_field, zip)", "src/awkward/operations/convert.py (from_buffers, _form_to_layout)", "src/awkward/_util.py (find_caches)"],
     [("VirtualArray::array, peek_array, getitem_*", "src/libawkward/array/VirtualArray.cpp"), ("caches are held by the high-level arrays", "src/awkward/highlevel.py, src/awkward/_util.py (find_caches)")],
     observe=["calls of generators and reads of containers during ak operations"])
