"""Which monitored workloads decide which property."""

SAN = "-g1 -fno-omit-frame-pointer -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
VARIANTS = {
    # vptr is left out: it reports references to members of an object under construction
    # that are formed (for passing them on), but not used.
    "asan": {"cc": "clang", "cxx": "clang++",
             "flags": f"-O1 {SAN} -fsanitize=address,undefined -fno-sanitize=vptr"},
    "tsan": {"cc": "clang", "cxx": "clang++",
             "flags": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread"},
    "plain": {"cc": "gcc", "cxx": "g++", "flags": "-O1 -g1 -D_GLIBCXX_ASSERTIONS"},
}

CHECKS = {
    "C01": {
        "runs": [{"harness": "c01", "variant": "asan"}],
        "rule": "an operation history on two containers of one of 15 container/element types, "
                "with the full state compared against an ideal sequence after each operation",
        "assumptions": ["arguments that alias elements of the container itself are not used"],
        "require_events": {"vector_tracked": ["injected_exception", "no_realloc_checks"],
                           "vector_copy": ["injected_exception"],
                           "deque_copy": ["injected_exception"],
                           "deque_tracked": ["injected_exception", "no_realloc_checks"]},
    },
    "C02": {
        "runs": [{"harness": "c02", "variant": "asan"}],
        "rule": "an operation history on a flat map, multimap, set or multiset over one of 12 key/value "
                "types, with content, results and lookups compared against an ordered model after each operation",
        "require_events": {"flat_map": ["injected_exception"]},
    },
    "C03": {
        "runs": [{"harness": "c03", "variant": "asan"}],
        "rule": "a history of updates of a range map / frozen sets / registry, or a set of associations for a "
                "literal hash map, with every key looked up after each step",
        "require_events": {"range_map": ["defrag"], "frozen_sets": ["unite"]},
    },
    "C04": {
        "runs": [{"harness": "c04", "variant": "asan"}],
        "rule": "a history of writes, reservations, seeks, reads and clears on a buffer or memory stream of exactly "
                "sized heap memory, compared with a string model / the standard string streams after each step",
        "require_events": {"buffers": ["overflow_reported", "bounded_growth", "injected_exception"],
                           "memory_output": ["overflow_or_bad_seek"]},
    },
    "C05": {
        "runs": [{"harness": "c05", "variant": "asan"}],
        "rule": "a batch of operand pairs of all pairs of 13 integer types (exhaustive for the 8-bit types), or of integer "
                "and floating-point operands, each result compared with an exact 128-bit sign/magnitude computation",
    },
    "C06": {
        "runs": [{"harness": "c06", "variant": "asan"}],
        "rule": "a pair of operands (random, sparse, or close to a power of two or limit) of a multi-precision type of 1 to 5 parts "
                "of 8 to 64 bits, of a 65-bit integer, or of two different types, each result compared with boost cpp_int",
        "assumptions": ["shift amounts are less than the width", "right shift shifts the bits of the representation (zero fill)"],
    },
    "C07": {
        "runs": [{"harness": "c07", "variant": "asan"}],
        "rule": "a value of one of 10 integer types, 3 floating-point types, an enumeration or a time point, with a radix, sign mode, "
                "minimum width and locale, formatted and parsed, and a valid or nearly valid text that is parsed, against reference implementations",
        "require_events": {"integers": ["accepted", "rejected"], "values": ["accepted", "rejected"], "enums": ["accepted", "rejected"]},
        "assumptions": ["only the C, C.UTF-8 and programmatic locales with unusual punctuation are available",
                        "acceptance of texts by the value parser is decided in the classic locale"],
    },
    "C08": {
        "runs": [{"harness": "c08", "variant": "asan"}],
        "rule": "a sequence of code units (valid, nearly valid or boundary) for one of 26 pairs of character types, fed to each transcoding function in "
                "randomly sized input and output chunks on exactly sized heap buffers, compared with a table-driven reference; every code point, and all boundary byte sequences, once",
        "require_events": {"incremental": ["invalid_input", "resync", "early_bad"], "whole": ["valid", "invalid"], "bridge": ["c_locale"]},
        "assumptions": ["a truncated sequence that is already known to be invalid may be reported as exhausted input or as an error"],
    },
    "C09": {
        "runs": [{"harness": "c09", "variant": "asan"}],
        "rule": "at least 1000 distinct byte/character sequences decoded in pieces, and all of the listed events",
        "require_events": {"decode_steps": 10000, "errors_detected": 500, "incomplete_stops": 200, "lenient_steps": 2000, "encode_steps": 5000, "unencodable_detected": 200, "simulated_chars": 1000, "newline_decode_steps": 5000, "texts_decoded": 5000, "texts_encoded": 5000, "long_texts": 100, "round_trips": 500},
        "assumptions": ["Locales C and C.UTF-8 of glibc; other encodings are not installed", "Unicode tag characters U+E0000-U+E007F are left out (glibc drops them)"],
    },
    "C10": {
        "runs": [{"harness": "c10", "variant": "asan"}],
        "rule": "at least 1000 distinct histories with several switches between reading and writing, and all of the listed events",
        "require_events": {"writes": 1000, "reads": 1000, "read_errors": 50, "partial_reads": 200, "tells": 200, "seeks": 200, "flushes": 200, "lines_read": 50, "unencodable_writes": 20, "reopens": 20, "mode_switches": 1000, "corrupt_loads": 10, "write_faults": 50, "flush_faults": 50, "appends": 20},
        "assumptions": ["Locales C and C.UTF-8 of glibc", "Files on the scratch file system; write faults are injected with RLIMIT_FSIZE", "Positions passed to seek() are character boundaries, as obtained from tell()"],
    },
    "C11": {
        "runs": [{"harness": "c11", "variant": "asan"}],
        "rule": "several file objects on several paths against byte arrays that are compared with the files on disk after every few steps, with every operation in its throwing, error-code and partial form, injected write faults (file size limit), deleted files, directories, pseudo terminals and counted file descriptors; sources and sinks over scripted sub-sources that split, fail and throw; pipes between threads under interrupting signals; locks held by threads and by processes with a mutual-exclusion board, and a model of granted and refused nonblocking locks",
        "require_events": {"exclusive": 1000, "shared": 1000, "refused": 100, "concurrent_shared": 10, "signals": 100, "fault": 100, "rewind": 100, "release": 100, "unlink": 10, "move": 10, "empty": 10},
        "assumptions": ["the state of a file object after a failed attempt to open is unspecified", "locking a file object that already holds a lock is undefined and excluded"],
    },
    "C12": {
        "runs": [{"harness": "c12", "variant": "asan"}],
        "rule": "every encoding and decoding entry point (narrow, wide, objects, fixed output space, incremental with random division of input and output) against a bit-level implementation of RFC 4648, on random data and on mutated and arbitrary encodings in every configuration, and on all strings of up to 5 characters from a 7 letter alphabet; memory blocks end exactly where the data ends",
        "require_events": {"insufficient": 100, "incremental": 1000, "accepted": 1000, "rejected": 1000, "accepted_padded": 300, "wide": 500, "strings": 100000},
        "assumptions": ["bits beyond the last byte must be zero", "padding must be complete when it is present", "white space is blank, horizontal tab and newline"],
    },
    "C13": {
        "runs": [{"harness": "c13", "variant": "asan"}],
            "rule": "Online monitors. Greedy wrapping is compared with an independent first-fit reference and Knuth wrapping with a dynamic program over arbitrary-precision costs; the text formatter is driven with random formats and text submitted in random pieces, and every output line is compared with an independent layout model (justified lines by word positions against the documented rubber-band rule); measure() and simulate() are judged by actually formatting at, above and one below the reported widths; held-back output is compared with a character grid; styled output is interpreted by a small SGR terminal and each character's look compared with the style in force when it was written.",
            "require_events": {"knuth_wrap": ["differs_from_greedy", "overflow"], "greedy_wrap": ["huge_sizes"], "formatted_text": ["wrapped_lines", "justified_lines", "overflowed_lines", "clipped_lines", "continued_sections"], "compiled_sections": ["measured", "distinct_widths"]},
            "assumptions": ["Advanced continuation mode and overlapping columns are exercised for crashes only where formats generate them, not modelled."],
    },
    "C14": {
        "runs": [{"harness": "c14", "variant": "asan"}],
            "rule": "Online monitors: matchers built from random wildcard patterns (single and sets, narrow and wide, extreme character values, builder reuse) are applied to strings derived from the patterns by expansion and mutation; acceptance is compared with a dynamic-programming wildcard matcher, the reported pattern with the first added one that matches, and rejection of ambiguous sets with an exact decision procedure for overlap of two wildcard patterns.",
            "require_events": {"single_pattern": ["accepted", "rejected"], "several_patterns": ["ambiguity_rejected", "ambiguous_strings"]},
            "assumptions": ["Wildcard is the only pattern syntax that exists."],
    },
    "C15": {
        "runs": [{"harness": "c15", "variant": "asan"}],
                "rule": "Quoting: the text is one of the (at most two) texts permitted by a reference implementation written from the documentation, for char and wide strings, both quote characters, plain and smart forms, every size limit, two locales, and every padding; a full quoted form un-escapes, under the rules of string literals, to the original. Lists: text equals the reference for every separator, bracket and space mode, elision and prefix variant, and parsing accepts exactly the texts with the right elements. Hex dumps: text equals the reference with the longest prefix that leaves room for the ellipsis. format/formatted/format_alt: the replacement text, or BadFormatString exactly when the string is invalid or the number of parameters differs. format_as: ordinals, counts, percentages, times, byte sizes and quantities satisfy the documented rule. Templates: expansion equals the model, values are those at expansion time, errors are reported once each, an abort leaves the target untouched.",
                "require_events": {"quote_char": ["truncated", "unescaped", "smart", "plain"], "quote_wide": ["truncated", "unescaped"], "list_format": ["elided"], "list_parse": ["parsed", "parsed_damaged", "parsed_elided", "wrong_count"], "hex_dump": ["dump_truncated"], "format": ["formatted", "rejected"], "format_as": ["ordinal", "quantity", "percent", "time", "byte_size", "format_with"], "string_template": ["expanded", "aborted", "template_bad"]},
                "assumptions": ["Character classification is that of the C and C.UTF-8 locales", "as_quant(0) is only required to denote zero", "Parsing a list of zero elements with as_list_v() or as_list_a() into a nonempty sequence is not judged"],
    },
    "L02": {
        "runs": [{"harness": "l02", "variant": "asan"}],
                "rule": "Random compositions (up to 15 loggers deep and wide, narrow, wide, and wide on top of narrow; prefix, limit, channel, duplicating, jail, timestamp, encoding, file, stream and null loggers) against a model of what every destination receives: after every message the text of every destination equals the model's; effective limits, will_log(), channel sets and selected channels equal the model's; suppressed messages never format their arguments; references to missing channels are rejected.",
                "require_events": {"routing": ["logged", "suppressed", "limit_changed", "rejected", "narrow", "wide", "mixed"]},
                "assumptions": ["Timestamps are formatted with a constant format in this check", "When two rules of a channel or duplicating logger name the same channel, the last one wins (channel) or is not used (duplicating)"],
    },
    "L01": {
        "runs": [{"harness": "l01", "variant": "tsan"}],
        "rule": "2-7 threads log random messages through shared loggers of random compositions (the compositions of L02, with shared destinations, multi-line and long messages, short-lived per-thread loggers and real timestamps) while another thread changes the variable limits; also first use of the standard loggers by many threads in a child process. ThreadSanitizer watches for data races; the recorded destination text is parsed back into messages, each of which must be whole, of the expected form, within the expected number of copies, and in order per thread.",
        "require_events": {"delivered": 5000, "thread_switches_in_destination": 1000, "limit_toggles": 100, "lines": 1000},
        "assumptions": ["The locale of a stream is not changed while it is logged to", "Limits are changed by one thread; messages between the lowest and the highest limit of the run may or may not appear"],
    },
    "I01": {
        "runs": [{"harness": "i01", "variant": "asan", "monitors": ["patterns"]}],
        "rule": "Random sets of command-line patterns (derived from 100 types of pattern functions: optionals, repetitions, alternatives, nested and collapsed; keywords, options, value slots; delegating patterns with their own specifications) with random command lines (words of the patterns, with options, mutations and junk) against an independent model: position automata with joint subset simulation, plus a parser that enumerates all parse trees. The invoked pattern, all its arguments (values, presence, choices, repetition lists), the reported errors, completeness and exit status must be those of the model, and exactly the ambiguous or ill-typed specifications must be rejected.",
        "require_events": {"patterns": ["matched_line", "erroneous_line", "rejected_spec", "delegated", "matched_other_than_first_pattern", "rejected_spec_code_10", "rejected_spec_code_11", "rejected_spec_code_12", "rejected_spec_code_7"]},
        "assumptions": ["When positional ambiguity is explicitly allowed, any of the possible interpretations is accepted", "A command-line argument that can be matched as a keyword is matched as one, also when it could be matched by a value slot"],
    },
    "I02": {
        "runs": [{"harness": "i01", "variant": "asan", "monitors": ["options"]}],
        "rule": "Random option sets (up to 7 options; short, long and multiple forms; no, optional or mandatory argument; 16 kinds of actions: functions with and without parameters, defaults, conditions and verdicts, assignments, flags, optionals, strings, rvalue parse targets; short-circuit and further-args-are-values attributes) together with small pattern sets and delegation, and random command lines (clusters, attached and separate arguments, dashes as values, unknown options, missing, extraneous and bad arguments), against an independent model: the sequence of actions taken with their arguments, the final values of all variables, all reported errors with argument index and code, in order, completeness and exit status; invalid option specifications must be rejected with the right error code.",
        "require_events": {"options": ["matched_line", "erroneous_line", "multiple_errors", "short_circuited", "delegated", "actions_taken", "error_code_0", "error_code_1", "error_code_2", "error_code_3", "rejected_spec"]},
        "assumptions": ["Option actions are executed also when processing fails, as this is how remaining bad option arguments are found", "Values are taken from a set for which conversion is unambiguous; conversion itself is covered by C13"],
    },
    "K01": {
        "runs": [{"harness": "k01", "variant": "tsan", "monitors": ["k01_schedule", "k01_duplicates"]}],
        "rule": "Each case generates a test list (0-24 tests; concurrent, nonconcurrent, disabled), a selection (none, wildcard filter, explicit filter), an order (none, explicit ranks, wildcard patterns), shuffling, 1-8 threads (or automatic), 0-6 repetitions, delays inside the test functions, failing checks and escaping exceptions, and runs the real runner under ThreadSanitizer. The test functions themselves watch for overlap (relaxed atomics only, so that they do not synchronize the threads), a deliberately unsynchronized reporter watches the reporting protocol, and afterwards the executions are compared with an independent model of selection, order, repetition, counts and verdict.",
        "require_events": {"k01_schedule": ["executions", "failed_executions", "runs_with_real_concurrency", "mixed_multithreaded_runs", "shuffled_run"], "k01_duplicates": ["seed_round_trips"]},
        "assumptions": ["Schedules are those produced by the operating system with injected delays inside the test functions", "At most one '-' separator in a wildcard filter (as in the documented grammar)", "abort_on_failure is not exercised"],
    },
    "K02": {
        "runs": [{"harness": "k01", "variant": "asan", "monitors": ["k02_reports", "k02_nothrow"]}],
        "rule": "Each case runs a generated test list whose test functions perform random sequences of every check macro (all relational, distance, interval, inexact, exception, sequence and error-code checks, on mixed operand types with boundary values), nested test trails, direct check calls from other source files, and escaping exceptions, under 1-8 threads. Each call site predicts its result, location and message independently (exact integer arithmetic in 128 bits, exact floating-point cases). The predictions are compared with what the recording reporter, the SimpleReporter log (also per-thread log files), and the XmlReporter output (parsed by an independent strict XML parser) say, as well as with the summary and the verdict.",
        "require_events": {"k02_reports": ["checks", "failed_checks", "failed_executions", "xml_reports", "inner_log_lines", "xml_unrepresentable"]},
        "assumptions": ["ASCII text", "Only the documented message forms are compared exactly; for the others the macro invocation, the values and their order are compared"],
    },
    "M01": {
        "runs": [{"harness": "m01", "variant": "asan"}],
        "rule": "Every vector and matrix operation returns exactly what integer arithmetic predicts for integer-valued components, LUP decomposition reconstructs its input with multipliers of at most one, and determinants and inverses agree with exact rational arithmetic within a condition-based error bound.",
        "require_events": {"m01_exact": ["vector.cross", "vector.proj", "matrix.4x4", "matrix.5x3", "cmp.equal", "cmp.less", "cmp.greater"], "m01_factor": ["lup.swapped", "lup.zero-pivot", "lup.rectangular", "inv.regular", "inv.singular", "tri.upper", "tri.lower", "tri.singular"]},
        "assumptions": ["components are integers of small magnitude or fractions of them, so that no overflow or underflow occurs", "NaN and infinity are not generated", "matrices that are exactly singular without a zero row or column are not judged, because rounding decides whether the implementation sees the singularity"],
    },
    "M02": {
        "runs": [{"harness": "m02", "variant": "asan"}],
        "rule": "Quaternion operations follow Hamilton's rules, and rotation of a vector through versor conjugation, rotation matrix, axis-angle form, composition, scaling and Euler angles agrees with Rodrigues' formula evaluated in extended precision.",
        "require_events": {"m02_algebra": ["inverse", "cmp.equal", "cmp.less"], "m02_rotation": ["angle.zero", "angle.tiny", "angle.pi", "angle", "euler"]},
        "assumptions": ["quaternion magnitudes between 1e-46 and 1e46, so that squares neither overflow nor underflow", "NaN and infinity are not generated"],
    },
    "U01": {
        "runs": [{"harness": "u01", "variant": "asan"}],
        "rule": "CSS text generated from the Level 3 grammar denotes the color that an independent evaluation of the specification assigns to it, malformed text is rejected without side effects, formatting inverts parsing, color space conversions match reference formulas and invert each other, and fraction conversions match exact integer arithmetic.",
        "require_events": {"u01_fractions": ["frac.boundary", "frac.round-trip", "frac.nan", "frac.above-one", "frac.inside", "width.expand", "width.shrink", "int-int", "int-int.tie", "int-int.round-trip"], "u01_spaces": ["achromatic", "max.red", "max.green", "max.blue", "hue.periodic", "xyz"], "u01_css_parse": ["css.hex3", "css.hex4", "css.hex6", "css.hex8", "css.name", "css.rgb", "css.rgb%", "css.hsl", "css.alpha", "css.out-of-range", "format.hex", "format.name"], "u01_css_reject": ["reject.hex", "reject.name", "reject.func"], "u01_css_api": ["api.name", "api.hex", "api.short-hex", "api.rgb", "api.rgb%", "api.hsl"]},
        "assumptions": ["the CSS level argument, which the library documents in source as not yet taken into account, is left at its default", "rounding of non-integer components may go either way", "ties in the direct integer to integer conversion may be rounded either way", "lenient acceptance of unusual number syntax is not judged"],
    },
    "U02": {
        "runs": [{"harness": "u02", "variant": "asan"}],
        "rule": "After every successful packing, each rectangle is inside its bin and margin, is separated from all others in the bin by at least the spacing, and the reported bin count and utilized sizes are exact; packing succeeds whenever stacking or one bin per rectangle suffices, fails when a rectangle cannot fit, and can be repeated after success or failure.",
        "require_events": {"u02_packing": ["packed", "failed", "trivial", "tall", "repacked", "multiple-bins", "reset", "suggested", "suggested.huge"]},
        "assumptions": ["spacing and margin are small and not negative", "the suggested width is judged exactly only when the total area fits in 64 bits"],
    },
    "U03": {
        "runs": [{"harness": "u03", "variant": "asan"}],
        "rule": "k-d tree searches agree with an exhaustive scan in exact arithmetic; pixel geometry agrees with 64-bit arithmetic over the entire int range, with UBSan watching for overflow",
        "require_events": {"kdtree_exact": ["found", "not-found", "exact-hits", "found-within-limit", "pruned-searches"], "pixel_boxes": ["clipped", "clipped-away", "inside", "pixel-inside", "extends-beyond-integer-range", "distance-beyond-integer-range"], "pixel_text": ["round-trips", "rejections"]},
        "assumptions": ["box sizes are non-negative; k-d tree components are finite and distances do not overflow the component type; max_dist is non-negative"],
    },
    "G01": {
        "runs": [{"harness": "g01", "variant": "asan"}],
        "rule": "every word of the pixel buffer equals the model of the documented layout after every write, fill, and read, and everything read equals the converted model value",
        "require_events": {"integer_formats": ["buffer-comparisons", "pixels-written", "pixels-read", "write-backs", "too-small-buffers"], "packed_formats": ["buffer-comparisons", "pixels-read"], "subword_formats": ["buffer-comparisons", "pixels-read"], "indexed_formats": ["buffer-comparisons", "pixels-read", "indexes-beyond-depth"], "comp_repr_conversions": ["conversions"], "bit_fields": ["fields", "invalid-fields"], "bit_media": ["media-values"]},
        "assumptions": ["unused bits of the buffer are zero to begin with", "out-of-range floating-point components have unspecified effect on the written pixel only", "an index that does not fit in the configured number of bits has unspecified effect on the written pixel only", "floating-point transfer of components is judged within the accuracy of float"],
    },
    "G02": {
        "runs": [{"harness": "g02", "variant": "asan"}],
        "rule": "random histories of mode changes, color slot assignments, color lookups, and block reads by a reader; every pixel compared with a double precision model of falloff, palette lookup, color space conversion, alpha elimination, and component conversion; custom image implementation that checks that only pixels inside the image are requested; trays surrounded by guarded memory",
        "require_events": {"background pixels": 2000, "pixels inside image": 2000, "pixels obtained by falloff": 2000, "color indexes out of range": 50, "palette entries looked up": 50, "colors read from slots": 100, "repeat": 50, "fill": 50, "copy": 50, "areas read in pieces": 50, "custom converters": 5},
        "assumptions": ["colors inside the gamut of the involved color spaces", "lossy conversions may be off by a rounding error (0.51 of a unit for 8-bit components, 0.65 for 16-bit components)"],
    },
    "G03": {
        "runs": [{"harness": "g03", "variant": "asan"}],
        "rule": "random histories of fills, block transfers, image transfers, stencil operations, reverse palette lookups, and reads on an image through a writer; after each operation, every pixel of the image is compared with a double precision model of clipping, falloff, palette lookup, color space conversion, opacity, blending, and component conversion; custom image implementation that checks that only pixels inside the image are accessed",
        "require_events": {"pixels written": 5000, "pixels left alone": 5000, "pixels blended": 1000, "lossless pixels": 500, "closest palette entries": 300, "fill": 50, "stencil": 50, "put_block_a": 50, "put_image_a": 50, "put_image": 20, "color distances": 50, "put pixel block": 20, "background pixels transferred": 100},
        "assumptions": ["colors inside the gamut of the involved color spaces", "lossy conversions may be off by a rounding error of the single precision intermediate", "source and target image are different"],
    },
    "G04": {
        "runs": [{"harness": "g04", "variant": "asan"}, {"harness": "g04h", "variant": "plain"}],
                "rule": "Each case encodes a random PNG (every color type, bit depth, interlacing, palette, transparency, ancillary chunks) with plain libpng and loads it through every entry point from chunked sources, files and buffers of any size, or saves a random image (buffered images of 60 pixel formats including both byte and bit orders, indexed, computed, and foreign images) and decodes the file with plain libpng; pixels are compared with the color model of G02 (exactly whenever no conversion is needed). Read, write, and system errors, exceptions from source, sink, tracker, and logger are injected at any call, files are truncated at any byte and damaged with and without repaired checksums, headers promise huge images under a memory limit, and registries of fake formats are checked for selection and detection order.",
                "require_events": {"g04_load": ["interlaced", "transparency", "several_notifications"], "g04_save": ["save_interlaced", "save_not_interlaced"], "g04_load_failure": ["read_error", "source_threw", "tracker_threw", "logger_threw", "truncated", "damage_detected", "mutant_accepted", "mutant_rejected"], "g04_save_failure": ["write_error", "sink_threw", "save_tracker_threw", "system_error", "empty_image"], "g04_registry": ["duplicate_registration", "load_detected", "load_not_detected", "save_detected", "save_not_detected"], "g04_huge": ["out_of_memory", "rejected", "loaded"]},
                "assumptions": ["libpng, used without transformations, is trusted", "The provider parameter of the load configuration is not implemented and not exercised", "Two filename extensions or MIME types of a format are distinct", "I/O errors during file format detection (no format specified) are not judged"],
    },
    "G05": {
        "runs": [{"harness": "g05", "variant": "asan"}],
                "rule": "A valid or distorted buffer format, distinct by all its parameters, whose casts are compared bit for bit with the layout model; or an image, distinct by kind and size, whose memory is read according to its description and compared with its pixels.",
        "require_events": {"g05_cast": ["cast_to_integer", "cast_to_subword"], "g05_valid": ["invalid", "valid"], "g05_describe": ["described", "integer_access", "subword_access"]},
        "assumptions": ["The layout of each kind of format is computed from its documentation, for a little-endian host.", "Two formats are taken as equivalent when they agree for images of 8 sizes up to 70 pixels wide.", "A cast of a packed format to bytes may be refused unless each channel takes up all bits of a whole number of words.", "Casting to packed formats is not implemented and is not exercised."],
    },
    "F01": {
        "runs": [{"harness": "f01", "variant": "asan", "monitors": ["f01_history", "f01_fallback", "f01_regen", "f01_damaged", "f01_values"]}, {"harness": "f01", "variant": "tsan", "monitors": ["f01_threads"]}],
        "rule": "A history of operations on a face of a generated outline or bitmap font, distinct by font and operations, after each of which sizes, glyph metrics, line metrics and rendered pixels are compared with FreeType used directly; or a generated fallback font (specification and image, valid or with one defect), distinct by content, or a damaged font file.",
        "require_events": {"f01_history": ["approx_size", "clipped", "fixed_size", "glyph_loaded", "kerned", "line_metrics", "not_found", "scaled_size", "translated", "written"], "f01_fallback": ["accepted", "rejected", "fallback_glyphs"], "f01_regen": ["regenerated_glyphs"], "f01_damaged": ["usable", "unusable"], "f01_threads": ["fallback_threads", "freetype_threads"], "f01_values": ["values"]},
        "assumptions": ["FreeType itself is trusted, and used as oracle for glyph metrics and coverage. Coverage of outline glyphs may differ by 24 of 255 because the rasterizer is not exactly shift invariant.", "Rendering of bitmap glyphs is not implemented in the FreeType loader, and rendering of coloured glyphs is not implemented at all; these are not exercised.", "Fully transparent pixels of an outline glyph may or may not be written.", "A glyph box of negative size in the specification of a fallback font is not judged."],
    },
    "D01": {
        "runs": [{"harness": "d01", "variant": "asan"}],
        "rule": "A history of window creation and destruction, injected SDL events (keyboard, mouse, window, quit, ...), handler decisions (including interruption, exceptions and reconfiguration from within handlers) and rounds of event processing, distinct by the sequence of operations, against a model of which handler calls must occur, in what order, and with what arguments; or events pushed by a concurrent thread; or the set of all keys; or a connection set-up with unusual configuration; or a sequence of 32-bit timestamps that wrap.",
        "require_events": {"d01_events": ["injected", "before_sleep", "expose", "calls", "destroyed", "merged_exposures", "exceptions", "interrupts", "expired", "interrupted", "default_interrupt", "timestamps", "timestamp_wrapped", "unusual_button"], "d01_live": ["live_events", "live_expirations"], "d01_keys": ["keys", "codes"], "d01_setup": ["connections"], "d01_unwrap": ["unwrapped", "wrapped"]},
        "assumptions": ["SDL itself (with its dummy video driver) is trusted to queue events in order.", "One call of process_events() may expire without fetching events, because SDL leaves a marker in its queue when asked to poll; also the call that follows an interruption.", "Exposure of a window before its handler was set cannot be observed."],
    },
    "R01": {
        "runs": [{"harness": "r01", "variant": "asan"}],
                "rule": "A history of key bindings, key presses and releases, losses of focus and handler decisions (including handlers that bind keys, register handlers, interrupt or throw), a history of drags, spins and reconfigurations of a trackball, or a sequence of recorded values, distinct by the operations, against a model.",
                "require_events": {"r01_keys": ["handler_calls", "reentered", "bound", "blur_interrupted", "blurs", "multi_press", "bound_presses", "repeated_presses"], "r01_trackball": ["orientations", "spins", "tracked", "released", "clicked", "rested", "spun"], "r01_memory": ["cleared", "forgotten", "states"], "r01_curve": ["curve_values", "linear_values"]},
                "assumptions": ["A press within 250 ms of the previous one counts as connected to it; times between 200 and 320 ms are avoided.", "Whether a press after a change of the bindings of a key can be connected to one before is not judged.", "The speed of a released ball is judged within 10 percent, and only when the mouse did not jump about 100 ms earlier; recorded values are judged within the time resolution of the memory."],
    },
    "R02": {
        "runs": [{"harness": "r02", "variant": "asan"}],
        "rule": "A history of a running render engine (configuration of features and screens, operations before and during the run, input and window events, loss of focus, screen changes, ticks and lag), distinct by the operations, against a model of everything that is shown through OpenGL, when it is shown, and when handlers and scene are called.",
        "require_events": {"r02_engine": ["builtin_calls", "composed_modes", "bound", "actions", "actions_in_handler", "spins", "user_calls", "renders", "lag", "rate_changes", "ticks", "turned", "delivered", "drags", "scrolled", "blurs", "resized", "screen_changes", "create_failures", "gl_errors_exhausted"], "r02_rates": ["rate_steps", "restored"]},
        "assumptions": ["The display is a stand-in that delivers events as documented; OpenGL is a stand-in that records state; the steady clock is under control of the harness.", "A change of frame rate may cause an immediate tick.", "Trackball drags are not started while a change of window size or resolution has not yet been shown.", "Use of the handlers of features that are disabled, and bindings of the left mouse button, are excluded."],
    },
    "U04": {
        "runs": [{"harness": "u04", "variant": "asan"}],
                "rule": "A camera (viewport, resolution, zoom, distances) together with a sequence of adjustments, or a grid of random gradients, distinct by the resulting values, against independent formulas.",
                "require_events": {"u04_projection": ["pixel_sizes", "meter_sizes", "angles", "solid_angles", "auto_dist", "auto_zoom"], "u04_perlin": ["noise_values", "outside", "vertices", "grids"], "u04_perlin_sizes": ["overflows", "bad_sizes"]},
                "assumptions": ["The zoom factor is disregarded when the camera distance is adjusted (as implemented, and as needed by the render engine).", "The first dimension of the grid of gradients varies fastest.", "Viewport sizes of up to 200000 pixels; solid angles of at most 6 steradians."],
    },
    "C16": {
        "runs": [{"harness": "c16", "variant": "asan"}, {"harness": "c16", "variant": "tsan", "monitors": ["thread_guards"]}],
        "rule": "Index, stride and proxy iterators: random walks (every random-access operation) agree with a position model, in distance, order and element, also under sort and lower_bound. Scope guards: exactly the guards that were not released run, once, in reverse order, on normal and exceptional exit; value reset guards set exactly what they must. Thread guards: moved around and destroyed while their threads run, every function runs once to its end before join, assignment or destruction completes, every exception is rethrown exactly once, by the guard that has taken over the thread; callables passed as lvalues are not moved from (ThreadSanitizer and AddressSanitizer watch). FNV-1a hashes equal a reference and the published vectors. Histograms: every added value, also infinite or huge, is counted in the right bin, the rendition shows these counts in proportionate bars of the requested width. String helpers, text parser, variant string references, modified locales, inexact comparison, pairs, argument selection, dispatch, typed registries and timers agree with reference models.",
        "require_events": {"iterators": ["negative_distance", "custom_subscr", "sorted"], "scope_guards": ["left_by_exception", "left_normally", "value_guards"], "thread_guards": ["moved_while_running", "rethrown", "from_lvalue"], "hash_fnv": ["negative"], "histogram": ["huge", "empty", "printed"], "text_parser": ["parsed", "parse_error"], "var_string_ref": ["owned"], "modified_locale": ["with_width"], "inexact_compare": ["approx", "less", "greater"], "utilities": ["tuple_value"], "strings": ["split"]},
        "assumptions": ["Values that are not numbers are only required to do no harm in histograms", "A field width is not combined with variant string references"],
    },
    "D02": {
        "runs": [{"harness": "d02", "variant": "asan"}],
        "rule": "The real X11 back end is linked against a simulated X server (a replacement of the Xlib, XKB, Xdbe, XRandR, Xrender and GLX functions that it uses), which validates every request, keeps the pixels of all drawables and all colormaps, and produces events as a server does. Visuals of every class, depth and channel layout, colormaps that are full, shared, private or standard, and all drawing operations are generated; the color seen in every visible pixel is compared with a reference within the resolution of the pixel format, and nothing may be left behind in the server. Histories of a pointer, keyboard, focus and window manager are played, and the calls to event handlers are compared with those that the history calls for; screen configurations and EDID blocks are compared with their definition.",
        "require_events": {"d02_draw": ["pixels_checked", "presentations", "colors_drawn", "scheme_truecolor", "scheme_directcolor"], "d02_events": ["calls", "scrolls", "keys", "repetitions", "grabs_ended_outside", "broken_grabs", "interruptions", "destroyed_in_handler", "timestamp_wraps", "closes", "exposures"], "d02_screens": ["configurations", "viewports", "changes", "interruptions"], "d02_edid": ["names"], "d02_setup": ["connected", "refused"]},
        "assumptions": ["There is no X server here; the simulation follows the X11 protocol and the manuals of Xlib and its extensions", "OpenGL rendering is not simulated, only the choice of visual and the management of contexts", "A mouse button that is released after its pointer grab was broken may or may not be reported"],
    },
}
