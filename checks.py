LIB_SOURCES_GLOB = "src/**/*.cpp"
SM = ("Every choice of the program (inputs, operations, positions, failure points) is enumerated depth-first by re-execution of the real code; "
      "states = distinct concrete states reached (programs with state matching) or distinct complete executions (programs without); "
      "non-trivial = the execution ran to its end and evaluated its assertions.")
CHECKS = {
 "P01": {"what": "all histories of buffer operations up to a depth, against a vector model, with every allocation failure point", "harness": [{"src": "p01_buffer.cpp", "lib": False}], "rule": SM,
         "assumptions": ["values are data independent for the state matching (buffer code never compares or orders values)"],
         "must_cover": ["allocation failed"]},
 "P02": {"what": "all histories of bitset operations up to a depth from every start size class, against vector<bool>", "harness": [{"src": "p02_bitset.cpp", "lib": False}], "rule": SM},
 "P03": {"what": "all windows, contents and single writes of bitset views over guarded memory", "harness": [{"src": "p03_bitset_view.cpp", "lib": False}], "rule": SM},
 "P05": {"what": "all histories of buffer_adaptor operations, all constructions of u8_buffer and buffer_view", "harness": [{"src": "p05_adaptors.cpp", "lib": False}], "rule": SM},
 "P10": {"what": "every catalogue array (layout x size x null pattern), slice, slice view, copy and re-import decoded and validated by an independent implementation of the Arrow format",
         "harness": [{"src": "p10_export.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P11": {"what": "every window of every catalogue array (built and foreign), compositions, life orders, mutations of slices",
         "harness": [{"src": "p11_slices.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P07": {"what": "every way of copying every catalogue array (built, sliced, foreign), then destruction, release or mutation of one side",
         "harness": [{"src": "p07_copies.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P18": {"what": "every catalogue array seen through array, through its typed layout and after import; all pairs for equality",
         "harness": [{"src": "p18_erasure.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P06": {"what": "every history of creating, importing, moving, copying, slicing, wrapping, extracting, releasing and destroying arrays and proxies, with counted foreign structures and counted memory",
         "harness": [{"src": "p06_ownership.cpp", "extra": ["zoo.cpp"]}], "rule": SM,
         "assumptions": ["states are matched by the description of every array (elements, structure, ownership, provenance), not by addresses"]},
 "P08": {"what": "every history of mutations of primitive arrays (built, sliced, copied, imported and copied) up to a depth, against a vector of optionals, exports decoded after every step",
         "harness": [{"src": "p08_primitive.cpp", "extra": ["zoo.cpp"]}], "rule": SM,
         "assumptions": ["states are matched by every byte of the buffers, the structure and the elements, not by capacity"]},
 "P09": {"what": "every history of mutations of string arrays (built, sliced, copied, imported and copied) up to a depth, against a vector of optional strings, exports decoded after every step",
         "harness": [{"src": "p09_strings.cpp", "extra": ["zoo.cpp"]}], "rule": SM,
         "assumptions": ["states are matched by every byte of the buffers, the structure and the elements, not by capacity"]},
 "P13": {"what": "every list shape (offsets, views, fixed sizes) of small children x masks x offsets, imported and built, against an independent decoder",
         "harness": [{"src": "p13_lists.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P14": {"what": "every small struct and union array (records, type ids, offsets, mappings, parent and child offsets, masks), imported and built, against an independent decoder",
         "harness": [{"src": "p14_records.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P15": {"what": "every small run-end encoded array (run lengths, null runs, widths, windows, child offsets), imported and built, against the expanded sequence",
         "harness": [{"src": "p15_runs.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P16": {"what": "every small dictionary-encoded array (keys, key types, dictionaries, masks, offsets), imported and built, and every history of assignments between arrays with different dictionaries",
         "harness": [{"src": "p16_dictionaries.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P17": {"what": "every small string and binary view array (lengths around the inline limit, data buffers, masks, offsets, garbage in null slots), imported and built, against an independent decoder",
         "harness": [{"src": "p17_views.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P12": {"what": "every form of stating validity x every layout that accepts it x every null pattern of small arrays and boundary sizes; all forms compared",
         "harness": [{"src": "p12_validity.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P25": {"what": "every foreign format x null patterns x offsets x garbage x absent parts x way to import, in exactly sized memory under ASan; every short history of read operations; buffers and structures compared with the originals after every operation",
         "harness": [{"src": "p25_foreign.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P26": {"what": "every error path (at(), refused extraction / assembly / change, unsupported and malformed imports, absent names, mismatched columns, throwing input ranges) x every layout and ownership situation; state, heap and releases compared before and after",
         "harness": [{"src": "p26_errors.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P04": {"what": "all pairs of positions of every iterator sparrow hands out (layouts built / imported / sliced / copied, bitmaps, values, characters, buffers, adaptors, bitsets, ranges): every operator against positions",
         "harness": [{"src": "p04_iterators.cpp", "extra": ["zoo.cpp"], "parts": [{"defs": ["PART=%d" % i]} for i in range(4)]}], "rule": SM},
 "P19": {"what": "every way to build a record_batch x layouts x null patterns, and every history (to the depth) of copies, moves, assignments, swaps, rebuilds and destructions of three batches; every lookup compared with the model after every step",
         "harness": [{"src": "p19_batches.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P20": {"what": "every value (to the bounds on lengths) of the nested input types x way to pass the input; elements, nulls, layout and exported structures compared with the input, which is destroyed before",
         "harness": [{"src": "p20_builder.cpp", "extra": ["zoo.cpp"], "parts": [{"defs": ["PART=%d" % i]} for i in range(6)]}], "rule": SM},
 "P21": {"what": "every input (to the bounds on lengths, over few values so that they repeat) of dict_encode / run_end_encode, whole or nested in lists, arrays, tuples and variants; elements, dictionary entries and runs compared with the plain input",
         "harness": [{"src": "p21_encodings.cpp", "extra": ["zoo.cpp"], "parts": [{"defs": ["PART=%d" % i]} for i in range(6)]}], "rule": SM},
 "P22": {"what": "all histories (to the depth) of construction, assignment, move, swap, reset over nine nullables (values, references to values and flags, to bits, to constants) of five value types; at the end of each every access and all 81 comparisons against std::optional",
         "harness": [{"src": "p22_nullable.cpp", "parts": [{"defs": ["PART=%d" % i]} for i in range(6)]}], "rule": SM},
 "P23": {"what": "every type, every short format string, every C++ type and layout, every flag subset; every way to make a schema; every history (to the depth) of set name / metadata / flags / format / type, copies, moves, swaps, slices, views, exports and imports on two arrays at every node; every layout named at every node; compared with a model after each history",
         "harness": [{"src": "p23_schema.cpp", "extra": ["zoo.cpp"]}], "rule": SM},
 "P24": {"what": "every history (to the depth) of copies, moves, assignments, swaps, resets, releases and throwing copies over three value_ptr / four cloning_ptr in every null state (objects counted, copies independent); every set of any_allocators made from every kind of allocator in every way: all pairs compared, and memory of each given back through each equal one",
         "harness": [{"src": "p24_memory.cpp", "lib": False}], "rule": SM},
}
NOT_APPLICABLE = {}
