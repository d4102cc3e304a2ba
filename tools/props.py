#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as one literal so that ids, statements and anchors are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})
I = "include/sparrow/"

p("P01", "buffer behaves like a vector over every operation history",
  "After any sequence of construction, insertion (including inserting or resizing with a value that refers to one of the buffer's own elements), erasure, resize, reserve, assignment, move and swap, a buffer holds exactly the elements a std::vector would hold, and every returned iterator designates the same position. "
  "Every element it holds is constructed once and destroyed once, storage is released exactly once through the allocator that owns it, and a buffer built from a raw pointer uses that storage in place. "
  "When an allocation fails or a length limit is exceeded the buffer keeps its previous contents.",
  ["histories", "inputs", "fault_sequences"], "every operation sequence up to the depth bound from every small buffer (matched by state), every single operation on boundary sizes, every failing allocation",
  "test_buffer.cpp runs each operation once on one fixed buffer of ints; aliasing, capacity boundaries, failing allocations and multi-step histories are not reached",
  [I+"buffer/buffer.hpp", I+"buffer/allocator.hpp", I+"utils/iterator.hpp"],
  [("reserve_with_growth_factor / emplace / insert / resize_impl / assign_range_impl", I+"buffer/buffer.hpp"), ("any_allocator", I+"buffer/allocator.hpp")],
  ["element values", "size/capacity", "returned iterators", "global allocation count"], [("p_begin,p_end,p_storage_end", "owned storage", I+"buffer/buffer.hpp")])

p("P02", "dynamic_bitset behaves like a vector of bools with an exact null count",
  "After any sequence of construction, set, push_back, pop_back, insert, emplace, erase, resize and clear, a dynamic_bitset holds exactly the bits a vector<bool> would hold, in the same order, and the returned iterators designate the same position. "
  "null_count() always equals the number of false bits, bits stored past the size never influence any result, and a bitset built without storage reads as all true until it is changed.",
  ["histories", "inputs"], "every operation sequence up to the depth bound for sizes around 0, 8, 16, 64 and 128, every bit pattern of small size",
  "the unit tests use one 29-bit pattern; word boundaries, empty and storage-less bitsets and operation sequences are not reached",
  [I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp", I+"buffer/dynamic_bitset/dynamic_bitset.hpp", I+"buffer/dynamic_bitset/bitset_iterator.hpp"],
  [("null count bookkeeping in set/insert/erase/resize", I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp"), ("zero_unused_bits", I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp")],
  ["test/at/front/back/iteration", "null_count()", "returned iterators"], [("m_null_count", "number of unset bits", I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp")])

p("P03", "Bitset views read and write exactly the window they are given",
  "A (const or mutable) bitset view over n bits of borrowed memory reads exactly those n bits and reports the number of false ones as its null count, whatever the bits after the n-th are. "
  "Creating, copying or reading a view changes no byte of the memory, and writing bit i through a mutable view changes bit i only. "
  "A view without memory reads as all true.",
  ["inputs", "histories"], "every bit pattern, size and single write for windows up to two blocks, plus trailing garbage bits and read-only memory",
  "tests view one clean pattern; trailing garbage, read-only memory and block boundaries are not reached",
  [I+"buffer/dynamic_bitset/dynamic_bitset_view.hpp", I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp", I+"buffer/dynamic_bitset/non_owning_dynamic_bitset.hpp"],
  [("dynamic_bitset_view constructors", I+"buffer/dynamic_bitset/dynamic_bitset_view.hpp"), ("count_non_null", I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp")],
  ["bits read", "null_count()", "bytes of the viewed memory"])

p("P04", "Every sparrow iterator obeys the random-access iterator laws",
  "For every iterator sparrow hands out (buffers, bitsets, typed arrays of every layout, list and struct values, type-erased containers) and every pair of positions: ++/-- are inverse, it + n equals n increments, it - it2 is the signed distance, it[n] equals *(it + n), comparison agrees with position, and reverse iteration yields the reverse sequence. "
  "begin() to end() visits exactly size() elements, each equal to operator[] at the same index.",
  ["inputs", "programs"], "all pairs of positions and all jumps inside the range for each iterator type and sizes around word boundaries",
  "tests walk forward with ++ and rarely decrement or jump; pairs of positions are not enumerated",
  [I+"utils/iterator.hpp", I+"utils/functor_index_iterator.hpp", I+"layout/layout_iterator.hpp", I+"buffer/dynamic_bitset/bitset_iterator.hpp", I+"layout/run_end_encoded_layout/run_end_encoded_iterator.hpp"],
  [("iterator_base", I+"utils/iterator.hpp"), ("bitset_iterator::advance", I+"buffer/dynamic_bitset/bitset_iterator.hpp"), ("run_encoded_array_iterator", I+"layout/run_end_encoded_layout/run_end_encoded_iterator.hpp")],
  ["iterator values, distances and comparisons"])

p("P05", "Typed buffer adaptors and views are faithful windows on bytes",
  "A buffer_adaptor over a byte buffer behaves, for every operation history, like a vector of the target type whose bytes are the adapted buffer, and the adapted buffer always holds exactly the adaptor's elements. "
  "A u8_buffer holds exactly the values it was built from (or the adopted memory, released once) and a buffer_view exposes exactly the given range without owning or changing it.",
  ["histories", "inputs"], "every operation sequence up to the depth bound over small adaptors, every sub-range for views, all element widths 1,2,4,8",
  "tests run each operation once on one buffer with a single element type",
  [I+"buffer/buffer_adaptor.hpp", I+"buffer/u8_buffer.hpp", I+"buffer/buffer_view.hpp"],
  [("byte index scaling", I+"buffer/buffer_adaptor.hpp"), ("u8_buffer constructors", I+"buffer/u8_buffer.hpp")],
  ["elements", "bytes of the underlying buffer", "returned iterators"])

p("P06", "Arrow C structures are released exactly once, whatever the history",
  "For every history of creating, importing by value or by pointer, moving, copying, slicing, mutating, exporting (extract/get) and destroying arrays and proxies, every ArrowArray and ArrowSchema that sparrow owns is released exactly once, including all its children and its dictionary, and every block of memory obtained on its behalf is freed. "
  "A structure that sparrow was only lent (raw pointer, view) is never released, and ownership given away by extraction is never released by sparrow again. "
  "The release callback of an exported structure leaves its release member null and may be called on a child or parent moved elsewhere as the Arrow C data interface allows.",
  ["histories", "fault_sequences"], "all ownership histories up to the depth bound over flat and nested arrays (children, dictionary), with counting release callbacks and heap accounting",
  "tests create one array and check the callback of one structure; histories combining moves, copies, slices and extractions, and leaks of nested structures, are not reached",
  ["src/arrow_array_schema_proxy.cpp", I+"arrow_interface/arrow_array.hpp", I+"arrow_interface/arrow_schema.hpp", "src/arrow_interface", I+"layout/array_access.hpp"],
  [("release_arrow_array / release_arrow_schema / release_common_arrow", I+"arrow_interface/arrow_array_schema_utils.hpp"), ("arrow_proxy destructor and moves", "src/arrow_array_schema_proxy.cpp")],
  ["calls of release callbacks", "release members", "global allocation count"])

p("P07", "Copies of arrays are equal and fully independent",
  "Copying an array (typed, type-erased or at the C structure level) of any layout, including a sliced one or one that imports foreign memory, gives an array equal to the source element by element, null by null, with the same type, name and metadata. "
  "No later mutation, release or destruction of either one changes the other, and the copy never references the source's buffers.",
  ["histories", "inputs"], "every layout x offset x null pattern of the catalogue, copied by construction and assignment, then one side mutated, released or destroyed",
  "tests copy one instance per layout and compare it immediately; independence after mutation or destruction and sliced sources are not reached",
  [I+"arrow_interface/arrow_array.hpp", I+"arrow_interface/arrow_schema.hpp", "src/arrow_interface/arrow_array.cpp", "src/arrow_array_schema_proxy.cpp", I+"layout/array_base.hpp"],
  [("copy_array / copy_schema", "src/arrow_interface"), ("array copy constructors", I+"layout")],
  ["element values", "buffer addresses", "allocation accounting"])

p("P08", "Primitive arrays behave like a vector of optionals over every history",
  "After any sequence of push_back, pop_back, insert (single, count, range), erase, resize, element assignment and copy/move, including on a slice of a larger array, a primitive array holds exactly the sequence of values and nulls that a vector of optionals would hold and the returned iterators designate the same position. "
  "Its size, and the length, null count and validity bits it exports, always describe that same sequence.",
  ["histories", "inputs"], "every operation sequence up to the depth bound over small arrays of several value types, plus boundary sizes, with and without a slice offset",
  "tests apply each mutation once to one unsliced array; histories, offsets and bit/word boundaries are not reached",
  [I+"layout/primitive_array.hpp", I+"layout/mutable_array_base.hpp", I+"layout/array_bitmap_base.hpp", "src/arrow_array_schema_proxy.cpp"],
  [("mutable_array_base insert/erase/resize", I+"layout/mutable_array_base.hpp"), ("arrow_proxy insert_bitmap/erase_bitmap/resize_bitmap", I+"arrow_array_schema_proxy.hpp")],
  ["elements and nulls", "exported C structure", "returned iterators"])

p("P09", "String and binary arrays behave like a vector of optional strings",
  "After any sequence of push_back, pop_back, insert (single, count, range), erase, resize and element assignment (with shorter, equal, longer or empty values, or null), including on a slice, a string or binary array holds exactly the sequence of values and nulls that a vector of optional strings would hold. "
  "The offsets it exports are non-decreasing, delimit exactly those values inside the exported data, and elements outside the mutated positions never change.",
  ["histories", "inputs"], "every operation sequence up to the depth bound over arrays of up to four strings of length 0..3, with and without slice offset, plus boundary sizes",
  "tests apply each mutation once on one array of words of similar length",
  [I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp", I+"layout/variable_size_binary_layout/variable_size_binary_reference.hpp"],
  [("offset shifting in insert/erase/assign", I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp")],
  ["elements and nulls", "exported offsets and data"])

p("P10", "Exported Arrow C structures are always valid and say what the array says",
  "For every array sparrow can build, slice or mutate, the exported ArrowArray/ArrowSchema pair is valid under the Arrow C data interface: format, number of buffers and children, non-negative length, null count equal to the nulls in [offset, offset+length), buffers large enough for offset+length, offsets and type ids and run ends well formed, nullable flag consistent. "
  "Decoding the exported structures by the Arrow columnar format alone gives exactly the elements the array reports.",
  ["inputs", "histories"], "every layout and constructor of the catalogue x sizes x null patterns x slices, decoded by an independent implementation of the Arrow format",
  "tests read arrays back through the code that wrote them; nothing decodes the exported memory independently for every shape",
  ["src/arrow_interface", I+"layout", "src/arrow_array_schema_proxy.cpp", I+"arrow_interface/arrow_array_schema_info_utils.hpp"],
  [("create_proxy of each layout", I+"layout"), ("make_arrow_array / make_arrow_schema", I+"arrow_interface")],
  ["raw C structures after extraction"])

p("P11", "Slices show exactly the requested window and never disturb the source",
  "For every array and every start <= end <= size, slice(start, end) and slice_view(start, end) contain exactly elements [start, end) of what the array showed, values and nulls, and report the null count of that window; slicing a slice composes. "
  "Creating, reading and destroying a slice, and mutating an owning slice, never change the source, and the source's buffers are shared by slice_view and not by slice.",
  ["inputs", "histories"], "every layout of the catalogue x every (start,end) of a small array, and every composition of two slices, with boundary sizes",
  "tests take one slice per layout and compare with the same code; nulls outside the window, nested slices and effects on the source are not reached",
  ["src/arrow_array_schema_proxy.cpp", I+"layout/array_base.hpp", "src/array.cpp"],
  [("arrow_proxy::slice / slice_view", "src/arrow_array_schema_proxy.cpp")],
  ["elements of the slice and of the source", "exported offset/length/null count"])

p("P12", "Every way of stating validity builds the same array",
  "For every constructor that accepts validity (a bitmap, a range of bools, a list of null positions, nullable values, or none) and every null pattern, the array built has exactly the stated nulls and the given values elsewhere. "
  "All forms that state the same nulls give equal arrays, and giving no validity means no nulls.",
  ["inputs", "programs"], "all null patterns of up to 9 elements and boundary sizes x every validity form x every array type that accepts it",
  "tests use one null pattern with one form per type",
  [I+"buffer/dynamic_bitset/dynamic_bitset.hpp", I+"layout/layout_utils.hpp", I+"layout/primitive_array.hpp", I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp"],
  [("ensure_validity_bitmap", I+"buffer/dynamic_bitset/dynamic_bitset.hpp")],
  ["elements, nulls and null count"])

p("P13", "List arrays show exactly the lists the Arrow format defines",
  "For list, large list, list view, large list view and fixed-size list arrays, whether built from values or imported, at any parent offset, child offset and null pattern, element i is null exactly when its validity bit says so and otherwise is the sub-sequence of child elements that the Arrow format defines. "
  "Building such an array from offsets or sizes and a flat array, and exporting it, preserves every list.",
  ["inputs"], "all list shapes (partitions with empty, overlapping and out-of-order views) of up to 4 lists over small children x offsets x nulls, foreign and sparrow-built",
  "tests use one regular shape at offset zero and one nesting",
  [I+"layout/list_layout/list_array.hpp", I+"layout/list_layout/list_value.hpp", "src/list_value.cpp"],
  [("offset_range / make_list_offsets / offset_from_sizes", I+"layout/list_layout/list_array.hpp")],
  ["elements of the lists"])

p("P14", "Struct and union arrays show exactly the records the Arrow format defines",
  "For struct arrays at any parent and child offset and null pattern, record i is null exactly when its validity bit says so and otherwise its fields are element i (shifted by the parent offset) of each child, in order. "
  "For dense and sparse unions at any offset and with any type-id mapping, element i is the element of the child selected by its type id at the position the Arrow format defines.",
  ["inputs"], "all type-id sequences and dense offsets up to 4 elements, all type-id mappings of small unions, all null patterns, parent and child offsets",
  "tests use one alternating type-id sequence at offset zero with the default mapping",
  [I+"layout/struct_layout/struct_array.hpp", I+"layout/struct_layout/struct_value.hpp", I+"layout/union_array.hpp"],
  [("union_array_crtp_base::operator[] / element_offset / parse_type_id_map", I+"layout/union_array.hpp"), ("struct_array::value", I+"layout/struct_layout/struct_array.hpp")],
  ["fields of records", "selected child elements"])

p("P15", "Run-end encoded arrays show exactly the expanded sequence",
  "A run-end encoded array, built or imported, with any run lengths, null runs, run-end width (16, 32, 64 bits) and logical offset and length, shows at every index, by operator[] and by iteration, the value of the run that covers it, and visits exactly length elements. "
  "Reading never goes past the run ends or values.",
  ["inputs"], "all run-length sequences of up to 4 runs, all null patterns of runs, every (offset, length) window, the three run-end widths",
  "tests use one run sequence at offset zero",
  [I+"layout/run_end_encoded_layout/run_end_encoded_array.hpp", I+"layout/run_end_encoded_layout/run_end_encoded_iterator.hpp", "src/run_encoded_array.cpp"],
  [("get_run_length / operator[] / iterator increment", I+"layout/run_end_encoded_layout")],
  ["elements by index and by iteration"])

p("P16", "Dictionary-encoded arrays show exactly the referenced dictionary values",
  "A dictionary-encoded array with any index type, keys, null keys, null dictionary entries, offset and dictionary type shows at every index the dictionary value its key designates, and null exactly when the key or the designated entry is null. "
  "A null element reads as null of the dictionary's own value type, regardless of which other dictionary arrays exist.",
  ["inputs", "histories"], "all key sequences up to 4 keys over small dictionaries x null patterns x index types x offsets, with several arrays alive",
  "tests use one key sequence with one dictionary type",
  [I+"layout/dictionary_encoded_array.hpp"],
  [("operator[] / dummy_const_reference", I+"layout/dictionary_encoded_array.hpp")],
  ["elements and nulls"])

p("P17", "String and binary view arrays decode every view form",
  "For view arrays, built or imported, element i is exactly the bytes its 16-byte view designates: inline for lengths up to 12, otherwise the given slice of the given data buffer, at any array offset and null pattern. "
  "Built arrays store inline every value of at most 12 bytes and reference the data buffer with the right prefix for longer ones.",
  ["inputs"], "all combinations of lengths 0, 1, 4, 11, 12, 13, 40 over up to 3 elements x nulls x array offsets x several data buffers",
  "tests use a handful of fixed strings at offset zero",
  [I+"layout/variable_size_binary_view_array.hpp"], [("create_buffers / value", I+"layout/variable_size_binary_view_array.hpp")], ["elements", "exported views"])

p("P18", "Type erasure changes nothing: array agrees with the typed layout it wraps",
  "For every layout, an array built from it, or imported from its exported C structures, reports the same data type, size, nulls, elements, name and metadata as the typed array. "
  "Visiting it calls the visitor with the right typed layout, operator[] and at() agree, and equality of arrays holds exactly when type and all elements and nulls agree.",
  ["inputs", "programs"], "the whole catalogue of layouts x sizes x null patterns, all pairs for equality",
  "tests check a few layouts through the type-erased interface and equality of identical arrays only",
  [I+"array.hpp", "src/array.cpp", "src/array_factory.cpp", I+"layout/array_wrapper.hpp", I+"layout/dispatch.hpp", I+"layout/array_helper.hpp"],
  [("array_factory", "src/array_factory.cpp"), ("visit / dispatch", I+"layout/dispatch.hpp"), ("array_default_element_value / array_element", "src/array_helper.cpp")],
  ["elements, equality"])

p("P19", "record_batch keeps names and columns matched over every history",
  "After any sequence of construction, import, add_column, copy, move and extraction, a record_batch has one name per column, get_column(name) returns the column that was added under that name, contains_column answers accordingly, and all columns have nb_rows() elements. "
  "Lookups of absent names throw, and converting to and from a struct array preserves names, columns and rows.",
  ["histories", "inputs"], "all histories up to the depth bound over batches of up to 3 columns, including reordering by copy, move and extraction",
  "tests build one batch and look up its columns once",
  [I+"record_batch.hpp", "src/record_batch.cpp"], [("name map update", "src/record_batch.cpp")], ["names, columns, rows"])

p("P20", "The builder reproduces any nested value",
  "Building an array from any nesting of optional/nullable values, lists, fixed-size arrays, tuples, variants and strings yields an array whose elements, nulls and nested elements equal the input at every level and whose layout is the one the input type determines. "
  "This holds for empty inputs, empty inner lists and nulls at any depth, including null lists whose hidden value is not empty.",
  ["inputs", "programs"], "all values of each type up to bounded shape (list lengths 0..2, all null placements) for a set of nested types",
  "tests build one value per type",
  [I+"builder/builder.hpp", I+"builder/builder_utils.hpp"], [("builder<...>::create / where_null / ensure_value", I+"builder/builder.hpp")], ["elements of the built array"])

p("P21", "Dictionary and run-end encoding by the builder loses nothing",
  "Building with dict_encode or run_end_encode yields an array of the same length whose element i equals element i of the plain input, nulls included, for every input including empty inputs and floating-point values. "
  "The dictionary holds each distinct value once, and no two adjacent runs hold equal values.",
  ["inputs"], "all sequences up to length 6 over a 3-value alphabet plus null (NaN and signed zeros for floats), for several value types",
  "tests encode one sequence per type",
  [I+"builder/builder.hpp", I+"builder/nested_less.hpp", I+"builder/nested_eq.hpp"], [("dict_encode / run_end_encode builders", I+"builder/builder.hpp"), ("nested_less / nested_eq", I+"builder")], ["elements", "dictionary", "runs"])

p("P22", "nullable obeys optional-like algebra and a consistent ordering",
  "For every pair of nullables (values or references) construction, assignment, swap, reset and value_or behave like std::optional, with assignments through references writing the referred value. "
  "Equality and ordering are consistent: null equals only null and sorts before every value, two non-nulls compare as their values, and all six comparison operators agree with one another. "
  "A nullable_variant is null exactly when its alternative is null.",
  ["inputs", "histories"], "all pairs and all short assignment histories over small value sets, for value, reference and boolean nullables",
  "tests compare a few chosen pairs",
  [I+"utils/nullable.hpp"], [("operator== / operator<=> / assignment operators", I+"utils/nullable.hpp")], ["values, flags, comparison results"])

p("P23", "Formats, names, metadata and flags survive every round trip",
  "Every data type maps to one Arrow format string and back, and name, metadata pairs, nullability and other flags given to an array or schema are exactly what is read back from it, from its exported schema, and from copies of it. "
  "Changing the name, metadata, flags or format of one array affects no other array.",
  ["inputs", "histories"], "all data types, all flag subsets, all metadata lists up to 3 pairs with empty and long keys and values, all set/reset histories up to depth 4",
  "tests set one name and one metadata string once",
  [I+"types/data_type.hpp", "src/arrow_array_schema_proxy.cpp", I+"arrow_interface/arrow_flag_utils.hpp", I+"arrow_interface/arrow_schema.hpp"],
  [("format_to_data_type / data_type_to_format", I+"types/data_type.hpp"), ("set_name / set_metadata / set_flags", "src/arrow_array_schema_proxy.cpp")], ["exported schema"])

p("P24", "Memory helpers keep value semantics and clean up",
  "value_ptr and cloning_ptr copies are deep and independent, moves transfer, null states are preserved, and every object is destroyed exactly once over any history of copies, moves, assignments (self-assignment included), swaps and resets. "
  "any_allocator compares equal exactly to allocators of the same type that compare equal, and releases memory through an allocator equal to the one that allocated it.",
  ["histories"], "all histories up to the depth bound over two or three pointers in every null state",
  "tests exercise each operation once",
  [I+"utils/memory.hpp", I+"buffer/allocator.hpp"], [("value_ptr / cloning_ptr", I+"utils/memory.hpp"), ("any_allocator", I+"buffer/allocator.hpp")], ["values, live object count"])

p("P25", "Reading an imported array touches only its own memory and never writes",
  "Importing a valid foreign ArrowArray/ArrowSchema of any supported format, and then reading, iterating, comparing, slicing or copying it, never writes to the foreign buffers or structures and never reads a byte outside the buffers the Arrow format prescribes for its length and offset. "
  "Elements read are exactly those the Arrow format defines, whether or not optional parts (validity buffer, metadata, name) are absent, null count is -1, or padding contains garbage.",
  ["inputs"], "the catalogue of foreign arrays x offsets x optional parts absent, in exactly sized buffers in read-only guarded memory",
  "tests only import buffers sparrow allocated, writable and generously sized",
  [I+"layout", I+"buffer/dynamic_bitset", "src/arrow_array_schema_proxy.cpp", "src/array_factory.cpp"], [("arrow_proxy::update_buffers / get_arrow_array_buffers", "src/arrow_interface")], ["memory faults", "bytes of the foreign buffers", "elements read"])

p("P26", "Errors are reported, and leave nothing leaked or half-done",
  "at() throws out_of_range exactly for indices >= size; extracting a structure from an array that does not own it, importing unsupported or malformed formats, names absent from a batch, and mismatched columns are reported by an exception or contract failure as documented. "
  "After an exception every source object is still usable with its previous contents, nothing is released twice and nothing leaks.",
  ["inputs", "fault_sequences"], "every error path of the public interface x layouts, with heap and release accounting",
  "tests check that some errors throw, not the state afterwards",
  ["src/array.cpp", "src/array_factory.cpp", "src/record_batch.cpp", "src/arrow_array_schema_proxy.cpp"], [("exception paths", "src")], ["exceptions", "state after the exception", "release and heap accounting"])

# Statements as they stand after the checks were built (the machinery showed where the first wording said too much or too little)
NOW = {
  'P04': 'For every random-access iterator sparrow hands out (buffers, bitsets, adaptors, typed arrays with iterators, their values and validity bitmaps, characters of strings, ranges of layouts) and every pair of positions: ++/-- are inverse, it + n equals n increments, it - it2 is the signed distance, it[n] equals *(it + n), comparison agrees with position, and reverse iteration yields the reverse sequence; forward iterators (run-end encoded arrays) obey the forward subset. begin() to end() visits exactly size() elements, each equal to operator[] at the same index.',
  'P05': "A buffer_adaptor over a byte buffer behaves, for every operation history, like a vector of the target type whose bytes are the adapted buffer, and the adapted buffer always holds exactly the adaptor's elements. A u8_buffer holds exactly the values it was built from, and its extracted storage exactly their bytes. A buffer_view exposes exactly the given range without owning or changing it.",
  'P07': "Copying an owning array (typed, type-erased or at the C structure level) of any layout, including a sliced one or one that imports foreign memory, gives an array equal to the source element by element, null by null, with the same type, name and metadata. No later mutation, release or destruction of either one changes the other, and the copy never references the source's buffers.",
  'P10': 'For every array sparrow can build, slice or mutate, the exported ArrowArray/ArrowSchema pair is valid under the Arrow C data interface: format, number of buffers and children, non-negative length, null count equal to the nulls in [offset, offset+length) for layouts with a validity bitmap, buffers large enough for offset+length, offsets and type ids and run ends well formed, nullable flag consistent. Decoding the exported structures by the Arrow columnar format alone gives exactly the elements the array reports.',
  'P16': "A dictionary-encoded array with any index type, keys, null keys, null dictionary entries, offset and dictionary type shows at every index the dictionary value its key designates, and null exactly when the key or the designated entry is null. A null element reads as null of the dictionary's own value type (dictionaries of unions apart), regardless of which other dictionary arrays exist.",
  'P18': 'For every layout, an array built from it, or imported from its exported C structures, reports the same data type, size, nulls, elements, name and metadata as the typed array. Visiting it calls the visitor with the right typed layout, operator[] and at() agree, and equality of arrays holds exactly when type and all elements and nulls agree (nulls of different union alternatives apart).',
  'P19': 'After any sequence of construction (from names and columns, as ranges or initializer lists), copy, move and assignment, a record_batch has one name per column, get_column(name) returns the column that was added under that name, contains_column answers accordingly, names, columns and indices agree, and all columns have nb_rows() elements. Lookups of absent names throw, equality holds exactly when names and columns agree, and copies are independent.',
  'P20': 'Building an array from any nesting of optional/nullable values, lists, fixed-size arrays, tuples, variants and strings yields an array whose elements, nulls and nested elements equal the input at every level and whose layout is the one the input type determines. This holds for empty inputs, empty inner lists and nulls at any depth, including null lists whose hidden value is not empty, and whether the input is passed as a value, a view or a range of another kind.',
  'P22': 'For every pair of nullables (values or references) construction, assignment, swap, reset and value_or behave like std::optional, with assignments through references writing the referred value and flag (the value hidden by a null is unspecified). Equality and ordering are consistent: null equals only null and sorts before every value, two non-nulls compare as their values, and all six comparison operators agree with one another. A nullable_variant is null exactly when its alternative is null.',
  'P23': 'Every data type that has a single Arrow format string maps to it and back, every valid format string maps to its data type, and every array is exported with the format of its type. Format, name, metadata, nullability and other flags given to an array or schema are exactly what is read back from it, from its exported schema, and from copies, slices, views and imports of it, at every node of a nested type. Changing the name, metadata, flags or format of one array affects no other array.',
  'P26': 'at() throws out_of_range exactly for indices >= size; extracting a structure from an array that does not own it, importing formats that sparrow recognises but does not support, or malformed ones, changing imported structures, and names absent from a batch are reported by an exception as documented. After such an exception every source object is still usable with its previous contents, nothing is released twice and nothing leaks.',
}
TEXT = {
  'P19': 'all ways to build a batch x layouts x nulls; all histories up to the depth bound over three batches of up to 3 columns',
  'P23': 'all data types, all short format strings, all flag subsets, names and metadata absent, empty, short and long, all set / reset / copy / move / slice / export histories up to the depth bound',
  'P22': 'all pairs and all short histories over nine nullables (values, references, references to bits and to constants) of five value types',
}
for x in P:
    x["statement"] = NOW.get(x["id"], x["statement"])
    x["quantifier"]["text"] = TEXT.get(x["id"], x["quantifier"]["text"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
