# ---------------------------------------------------------------- Core: containers
prop("C01", "Sequence containers behave as sequences with exact element lifetimes",
     "After any history of operations, the vector and the deque hold exactly the element sequence, results, comparisons and out-of-range errors that an ideal sequence would. Every element is constructed and destroyed exactly once, no operation touches memory outside live elements, and when constructing an element throws, nothing leaks and the container remains valid with the documented content. Capacity, reallocation and pointer-stability guarantees documented for the vector hold.",
     ["inputs", "histories", "fault_sequences"],
     "All operation histories, element types, static capacities, and all points at which an element operation throws.",
     "The test suite runs short fixed scripts on a few element types; it never injects throwing copies in long mixed histories and does not track element lifetimes.",
     ["core/vector.hpp", "core/deque.hpp", "core/impl/vector_impl.hpp", "core/memory.hpp"],
     [("storage management and uninitialized-memory helpers", "core/impl/vector_impl.hpp"), ("ring buffer", "core/deque.hpp")],
     ["public container API", "element constructors/destructors"])
prop("C02", "Flat maps and sets behave as ordered associative containers",
     "After any history of operations, flat map, multimap, set and multiset hold exactly the entries, in exactly the order, and return exactly the positions, counts and ranges, that the corresponding standard ordered container would. Keys stay sorted, unique containers never hold equivalent keys, and no operation leaks, double-destroys or reads outside the stored entries.",
     ["inputs", "histories"],
     "All operation histories over all key multisets and key types.",
     "Tests use a handful of fixed key lists; ordering and insertion-position errors show only for particular sizes and duplicate patterns.",
     ["core/flat_map.hpp", "core/flat_multimap.hpp", "core/flat_set.hpp", "core/flat_multiset.hpp", "core/impl/flat_map_impl.hpp"],
     [("binary search and positioned insertion", "core/impl/flat_map_impl.hpp")], ["public container API"])
prop("C03", "Lookup structures return exactly what was registered",
     "A range map always yields, for every key, the value determined by the history of range updates, with its ranges ordered, disjoint and covering exactly the touched keys; frozen sets compare equal exactly when their element sets are equal and list exactly their elements; and a literal hash map or an object registry finds exactly the entries it was given and nothing else.",
     ["inputs", "histories"], "All update histories and all keys looked up.",
     "Range map, frozen sets and literal hash map have no unit tests at all; the registry is tested on three fixed cases.",
     ["core/range_map.hpp", "core/frozen_sets.hpp", "core/literal_hash_map.hpp", "core/typed_object_registry.hpp"],
     [("range splitting", "core/range_map.hpp"), ("interning of sets", "core/frozen_sets.hpp"), ("displacement hashing", "core/literal_hash_map.hpp")],
     ["public API"])
prop("C04", "Growable buffers and memory streams preserve every byte",
     "For any sequence of writes, reservations, seeks and clears, growable buffers, string formatters and memory output streams hold exactly the bytes written in order, and memory input streams deliver exactly the underlying characters under any mix of reads, peeks and seeks. Growth never exceeds the specified maximum size, overflow is reported instead of truncating silently, and no access leaves the buffer.",
     ["inputs", "histories"], "All write/read/seek histories, seed-memory sizes and maximum sizes.",
     "Tests exercise a few fixed strings; growth boundaries depend on the exact sizes of the seed memory and of each write.",
     ["core/buffer.hpp", "core/buffer_contents.hpp", "core/string_buffer_contents.hpp", "core/memory_input_stream.hpp", "core/memory_output_stream.hpp", "core/seed_memory_output_stream.hpp", "core/string_formatter.hpp", "core/array_seeded_buffer.hpp"],
     [("geometric growth with overflow check", "core/buffer.hpp")], ["buffer contents", "stream state"])

# ---------------------------------------------------------------- Core: numbers
prop("C05", "Heterogeneous integer arithmetic is mathematically exact or reported",
     "For any combination of integer types and values, comparisons, additions, subtractions, multiplications, shifts, powers, divisions, roots, digit counts, two's-complement conversions and casts give the mathematically exact result, or report that it is not representable, and in that case leave their operand unchanged. None of these operations ever invokes undefined behavior.",
     ["inputs"], "All operand types and all operand values.",
     "Tests cover selected values and combinations; overflow boundaries over all pairs of types and values are a huge space.",
     ["core/integer.hpp", "core/integer_traits.hpp", "core/float.hpp", "core/math.hpp"],
     [("overflow-checked operations", "core/integer.hpp")], ["return values"])
prop("C06", "Fixed-width multi-precision integers compute exact modular arithmetic",
     "For every part width and part count, signed and unsigned, multi-precision integers give the results of exact integer arithmetic reduced to the type's width for addition, subtraction, multiplication, negation, bit operations and shifts; division and remainder, comparison, conversions from and to built-in integers, and decimal output and input agree with exact arithmetic.",
     ["inputs", "configurations"], "All widths, part types and operand values.",
     "Tests use a few dozen constants per configuration; carries between parts only go wrong for particular bit patterns.",
     ["core/mul_prec_int.hpp", "core/super_int.hpp", "core/ext_int_type.hpp", "core/impl/ext_int_type.hpp"],
     [("schoolbook arithmetic over parts", "core/mul_prec_int.hpp")], ["operator results", "conversions"])
prop("C07", "Value formatting and parsing are mutually inverse and detect overflow",
     "Formatting an integer, boolean or enumeration value and parsing the text gives back the same value in every locale (a floating-point value is reproduced to the precision of the text), and parsing accepts exactly the well-formed representations of representable values and rejects everything else without modifying the target. Integer text in any base is the exact positional representation, and timestamp text shows the exact calendar time and fraction of a second.",
     ["inputs", "configurations"], "All values, types, bases, flags and locales, and all input strings.",
     "Tests check a fixed list of strings and values.",
     ["core/integer_formatter.hpp", "core/integer_parser.hpp", "core/value_formatter.hpp", "core/value_parser.hpp", "core/as_int.hpp", "core/enum.hpp"],
     [("digit loops with overflow checks", "core/integer_parser.hpp")], ["formatted text", "parse results"])

# ---------------------------------------------------------------- Core: text
prop("C08", "Unicode transcoding is exact and independent of chunking",
     "Encoding and decoding between UCS, UTF-8 and UTF-16 produce exactly the sequences defined by the Unicode standard, accept exactly the valid ones, stop precisely at the first invalid element, and resynchronize to the next sequence start. Incremental transcoding gives the same output and the same consumed and produced counts for every way of splitting input and output buffers, and lenient variants replace each invalid sequence by one replacement character.",
     ["inputs", "schedules"], "All input strings over all code units, all split points and output buffer sizes.",
     "Tests use selected strings; errors at specific boundaries (surrogates, overlongs, truncated sequences at chunk ends) need particular input.",
     ["core/unicode.hpp", "core/unicode_bridge.hpp", "core/unicode_bridge.cpp"],
     [("incremental state machines", "core/unicode.hpp")], ["buffers and offsets"])
prop("C09", "Character and text codecs round-trip under any chunking",
     "Decoding what a character, newline or text codec encoded gives back the original text in every supported locale and newline mode, and the results do not depend on how the input and output are chunked. Invalid input is detected at its exact position or replaced as configured, and simulated decoding advances over exactly the number of bytes that decoding the same number of characters consumes.",
     ["inputs", "schedules", "configurations"], "All texts, byte strings, chunk sizes, locales and configurations.",
     "Tests sample some strings with some buffer sizes.",
     ["core/char_codec.hpp", "core/impl/char_codec.hpp", "core/newline_codec.hpp", "core/newline_codec.cpp", "core/text_codec.hpp", "core/impl/text_codec_impl.hpp", "core/string_codec.hpp"],
     [("codecvt wrapping with state save/restore", "core/impl/char_codec.hpp")], ["codec calls"])
prop("C10", "Text files behave as an ideal editable text under any history",
     "For any interleaving of reads, writes, flushes, seeks, position queries and reopenings, a text file (plain, buffered or as a stream) returns exactly the characters an ideal in-memory text with a logical position would, and leaves exactly the encoded bytes on disk. Nothing written is lost, duplicated or reordered, whatever the internal buffer sizes.",
     ["inputs", "histories", "configurations"], "All operation histories, buffer sizes and codec configurations.",
     "Tests run short randomized or fixed histories with particular buffer sizes and mostly check single operations.",
     ["core/text_file.hpp", "core/impl/text_file_impl.hpp", "core/impl/prim_text_file_impl.cpp", "core/buffered_text_file.hpp", "core/impl/buffered_text_file_impl.hpp", "core/text_file_stream.hpp"],
     [("read-ahead, write buffering and retrodiction of the logical position", "core/impl/text_file_impl.hpp")], ["text file API", "file content"])
prop("C11", "Files, sources and sinks transfer exact bytes and honour modes and locks",
     "Reading, writing, seeking, resizing and appending through files, and copying through sources, sinks and rewindable sources, transfer exactly the bytes an ideal byte array would hold, for any buffer sizes and history. Open modes create, truncate, append or fail exactly as documented, errors are reported rather than ignored, and an exclusive file lock is never held by two holders at once.",
     ["inputs", "histories", "schedules"], "All operation histories, open modes, and schedules of lock holders.",
     "Tests perform a few straight-line operations; there are no concurrent lock tests and no rewindable-source tests.",
     ["core/file.hpp", "core/file.cpp", "core/source.hpp", "core/source.cpp", "core/sink.hpp", "core/rewindable_source.hpp", "core/rewindable_source.cpp", "core/file_source.cpp", "core/file_sink.cpp"],
     [("POSIX file wrapper", "core/file.cpp")], ["file API", "file content on disk"])
prop("C12", "Base64 encoding and decoding are exact inverses for any chunking",
     "Base64 encoding produces the standard text for every byte string, decoding gives back the original bytes, and decoding accepts exactly the strings permitted by its configuration, rejecting all others. Incremental coding gives the same result for every chunking of input and output, and never writes outside the destination.",
     ["inputs", "schedules"], "All byte strings, texts, chunkings and configurations.",
     "Tests cover RFC examples and a few randomized cases.",
     ["core/base64.hpp", "core/base64.cpp"], [("incremental coder state machine", "core/base64.cpp")], ["coder API"])
prop("C13", "Word wrapping and text layout respect widths and keep every word",
     "Greedy and optimal word wrapping break any sequence of words into lines that contain all the words in order, within the available width whenever a word fits at all; the greedy result is the first-fit one and the optimal result has minimum cost over all possible breakings. Formatted text contains exactly the words written, laid out within the page width and with the requested indentation, spacing and justification.",
     ["inputs", "configurations"], "All word sequences, widths, spacings and layout configurations.",
     "Tests compare some random inputs with an alternative implementation; the text formatter has one test.",
     ["core/word_wrap.hpp", "core/word_wrap.cpp", "core/text_formatter.hpp", "core/text_parser.hpp"],
     [("Knuth-style dynamic program", "core/word_wrap.cpp")], ["line breaks", "formatted text"])
prop("C14", "String matchers accept exactly the language their patterns describe",
     "A string matcher built from any set of wildcard patterns accepts exactly those strings that match at least one pattern, where a star stands for any sequence of characters and every other character stands for itself, and it reports the pattern that was added first among those that match. Building fails if, and only if some string matches more than one pattern and ambiguity was not allowed. A builder can be extended, cleared and reused without any effect of its history on the matchers that it builds.",
     ["inputs", "programs"], "All pattern sets, all subject strings, and all histories of builder use.",
     "Tests cover a list of hand-written patterns.",
     ["core/string_matcher.hpp", "core/frozen_sets.hpp", "core/range_map.hpp"], [("pattern compilation and matching", "core/string_matcher.hpp")], ["match results"])
prop("C15", "Textual rendering is exact: quotes, lists, hex dumps, templates",
     "For any value and any configuration, quoting, list formatting, hex dumping, parameterized formatting and string templates produce exactly the documented text: quoted text unescapes to the original, size limits are respected, hex dumps show every byte at its offset, and each template parameter is replaced by its value.",
     ["inputs", "configurations"], "All strings, lists, byte arrays, formats, widths and limits.",
     "Tests use fixed examples.",
     ["core/quote.hpp", "core/as_list.hpp", "core/hex_dump.hpp", "core/format.hpp", "core/string_template.hpp", "core/format_as.hpp", "core/format_with.hpp"],
     [("escape handling and truncation", "core/quote.hpp"), ("parameter substitution", "core/format.hpp")], ["output text"])

prop("C16", "Guards, iterator adaptors and other building blocks keep their contracts",
     "For any sequence of operations: scope guards run exactly the unreleased exits in reverse order; a thread guard, however moved around while its thread runs, waits for the thread and rethrows its exception exactly once; index, stride and proxy iterators behave as random-access iterators over the right elements; FNV-1a hashes, histograms, string splitting and trimming, text parsing, variant string references, temporarily modified locales, inexact comparison, pairs, argument selection and timers give the results that their documentation states, for all values including extreme ones.",
     ["inputs", "schedules", "histories"], "All operation sequences, values, types and thread schedules.",
     "Most of these have no test, or one fixed example.",
     ["core/thread_guard.hpp", "core/scope_exit.hpp", "core/value_reset_guard.hpp", "core/index_iterator.hpp", "core/stride_iterator.hpp", "core/proxy_iterator.hpp", "core/hash_fnv.hpp", "core/histogram.hpp", "core/string.hpp", "core/text_parser.hpp", "core/var_string_ref.hpp", "core/with_modified_locale.hpp", "core/inexact_compare.hpp", "core/utility.hpp", "core/basic_character_set.hpp", "core/timer.hpp"],
     [("exception slot and joining", "core/thread_guard.hpp"), ("bin selection and bars", "core/histogram.hpp"), ("scaling of differences", "core/stride_iterator.hpp")], ["return values", "exceptions", "output text"])

# ---------------------------------------------------------------- Log
prop("L01", "Concurrent log messages are delivered whole, exactly once and in order",
     "When any number of threads log concurrently through loggers that share a destination, every message that passes its limit appears in the destination exactly once as one contiguous line, messages of one thread keep their order, and no data race occurs. This holds for every composition of prefix, limit, channel, duplicating, timestamp and file loggers.",
     ["schedules", "histories"], "All thread schedules, messages and logger compositions.",
     "The suite has no concurrent logging test.",
     ["log/logger.hpp", "log/limit_logger.hpp", "log/duplicating_logger.hpp", "log/channel_logger.hpp", "log/prefix_logger.hpp", "log/timestamp_logger.hpp", "log/stream_logger.hpp"],
     [("root logger mutex and assembly buffer", "log/logger.hpp"), ("atomic limit", "log/limit_logger.hpp")], ["destination text"],
     state=[{"name": "m_mutex", "meaning": "serializes message assembly", "where": "src/archon/log/logger.hpp"}])
prop("L02", "Log messages are routed by limits, prefixes and channels exactly as composed",
     "For any composition of loggers, a message is emitted if and only if its level is within the effective limit, on every destination its channel is mapped or duplicated to, with the level label, the channel prefixes and the logger prefixes in composition order on each of its lines. Suppressed messages cause no formatting of their arguments.",
     ["inputs", "configurations", "histories"], "All logger compositions, channel patterns, limits and messages.",
     "The log library has two unit tests, both about character encoding.",
     ["log/logger.hpp", "log/limit_logger.hpp", "log/duplicating_logger.hpp", "log/channel_logger.hpp", "log/jail_logger.hpp", "log/prefix_logger.hpp", "log/channel_map.hpp", "log/impl/encoding_logger_impl.hpp"],
     [("channel maps and sinks", "log/channel_map.hpp")], ["destination text"])

# ---------------------------------------------------------------- CLI
prop("I01", "Command lines are matched to exactly the pattern that describes them",
     "For any set of patterns and any command line, the processor invokes exactly the pattern whose language contains the positional arguments, or reports an error when none does, and passes the pattern function exactly the argument values, alternative choices, optional presences and repetition lists that the match implies. Ambiguous specifications are rejected when built rather than resolved arbitrarily.",
     ["inputs", "programs"], "All pattern sets and command lines.",
     "Tests cover a few patterns with a few command lines each.",
     ["cli/impl/pattern_matcher.hpp", "cli/impl/nfa_builder.hpp", "cli/impl/pattern_args_parser.hpp", "cli/impl/spec_parser.hpp", "cli/processor.hpp"],
     [("NFA subset matching", "cli/impl/pattern_matcher.hpp")], ["pattern function invocations", "exit status"])
prop("I02", "Options and values are parsed completely and errors are all reported",
     "For any option set and command line, every option occurrence (long, short, clustered, with attached or separate value, before or after positional arguments, up to the end-of-options marker) takes effect exactly as specified and in order, values are converted exactly or reported as bad, and the exit status and the reported errors are those implied by the command line. No pattern is invoked when processing fails, and a short-circuit option acts alone.",
     ["inputs", "programs"], "All option specifications and command lines.",
     "Two option tests exist, each with one option.",
     ["cli/processor.hpp", "cli/impl/processor.hpp", "cli/impl/option_action.hpp", "cli/impl/value_parser.hpp", "cli/option_actions.hpp"],
     [("option scanning", "cli/processor.hpp")], ["option actions", "reported errors", "exit status"])

# ---------------------------------------------------------------- Check
prop("K01", "Every selected test runs exactly once per repetition, whatever the threads",
     "For any number of tests, threads and repetitions, and any filter, order and shuffle setting, every selected concurrent test is executed exactly once per repetition, tests marked as not concurrent never overlap any other test, and no test is executed that is not selected. The run completes, without data races, and its return value tells whether any test failed.",
     ["schedules", "configurations", "inputs"], "All test lists, thread counts and schedules.",
     "The test runner is never tested with more than a single thread or with generated test lists.",
     ["check/test_runner.cpp", "check/wildcard_filter.cpp", "check/pattern_based_test_order.cpp"],
     [("shared next-test index", "check/test_runner.cpp")], ["test function invocations", "reporter calls"])
prop("K02", "Test reports account for every check, failure and test truthfully",
     "The number of checks and failures, the failed tests and the pass/fail verdict reported by every reporter equal what the test functions actually did: each check counts once, each failing check is reported once with its location and arguments, an escaping exception fails its test, and the XML report is well-formed and lists every executed test with its true status.",
     ["schedules", "inputs"], "All mixes of passing, failing and throwing tests, under all thread counts.",
     "The check macros are tested one by one in one thread; reporters are not tested.",
     ["check/test_context.hpp", "check/test_context.cpp", "check/check_macros.hpp", "check/simple_reporter.cpp", "check/xml_reporter.cpp", "check/duplicating_reporter.cpp", "check/test_runner.cpp"],
     [("per-thread counters merged into the summary", "check/test_runner.cpp")], ["reporter calls", "report text"])

# ---------------------------------------------------------------- Math
prop("M01", "Vector and matrix operations satisfy the laws of linear algebra",
     "For all dimensions and values, vector and matrix arithmetic, products, transposes, inverses, determinants, norms and slices equal the results of exact linear algebra (exactly for exactly representable cases, otherwise within the rounding expected of the type), and a singular matrix is reported as not invertible.",
     ["inputs", "configurations"], "All matrix shapes, element types and values.",
     "Tests use fixed small matrices.",
     ["math/vector.hpp", "math/vector_base.hpp", "math/matrix.hpp", "math/matrix_base.hpp"],
     [("elimination", "math/matrix.hpp")], ["operation results"])
prop("M02", "Rotations in all representations agree and preserve lengths",
     "Quaternion algebra follows the quaternion laws, and converting between angle/axis, quaternion and matrix representations of a rotation preserves the rotation: rotating any vector gives the same result in each representation, lengths are preserved, composition is product, and inversion undoes the rotation.",
     ["inputs"], "All axes, angles, quaternions and vectors.",
     "Tests use a few fixed rotations.",
     ["math/quaternion.hpp", "math/quaternion.cpp", "math/rotation.hpp"],
     [("conversion formulas", "math/rotation.hpp")], ["operation results"])

# ---------------------------------------------------------------- Util
prop("U01", "Color conversions are mutually consistent and CSS colors round-trip",
     "Conversions between RGB, HSV, HSL, XYZ, Lab and the gamma-encoded spaces invert each other within rounding and stay in gamut for colors in gamut; parsing any CSS color text gives the color the CSS definition assigns to it or rejects it when it is malformed, and formatting a color and parsing the result gives the same color. Fraction conversions between integers and floats are exact inverses and monotone.",
     ["inputs"], "All colors, CSS texts and integer widths.",
     "Tests check isolated values.",
     ["util/color_space.hpp", "util/color.hpp", "util/css_color.cpp", "util/css_color.hpp", "util/as_css_color.hpp", "util/unit_frac.hpp"],
     [("conversion formulas and CSS parser", "util/css_color.cpp")], ["conversion results"])
prop("U02", "Rectangle packing never overlaps, overflows or loses a rectangle",
     "Whenever packing succeeds, every rectangle lies entirely inside its bin at the configured margin, no two rectangles in the same bin overlap or are closer than the configured spacing, and every rectangle got a position. Failure is reported only by the return value, and leaves the caller with a usable packer.",
     ["inputs"], "All lists of rectangle sizes, bin sizes, margins and spacings.",
     "One test packs a few random lists.",
     ["util/rectangle_packer.hpp"], [("guillotine placement and bin width estimate", "util/rectangle_packer.hpp")], ["placements"])
prop("U03", "Spatial search and pixel geometry give exact answers",
     "The nearest-neighbour search in a k-d tree always returns a point at minimum distance, and finds a point exactly when there is one within the specified maximum distance. Pixel positions, sizes and boxes compute exact intersections, clippings, containments and offsets, including at the limits of the integer range, without undefined behavior.",
     ["inputs"], "All point sets, query points, and boxes over the full integer range.",
     "Tests sample small trees and fixed boxes.",
     ["util/kdtree.hpp", "util/pixel_pos.hpp", "util/pixel_size.hpp", "util/pixel_box.hpp"],
     [("branch pruning", "util/kdtree.hpp"), ("overflow-safe clipping", "util/pixel_box.hpp")], ["results"])

# ---------------------------------------------------------------- Image
prop("G01", "Every pixel format stores and returns exactly the pixel written",
     "For every pixel format and any image size, writing a pixel or block and reading it back gives the same value reduced to the format's component representation, for every position and stride, and leaves every other pixel and every padding bit unchanged. Component and color conversion between representations is the documented mapping and inverts itself where the target is at least as wide.",
     ["inputs", "configurations"], "All formats, word orders, sizes, positions and component values.",
     "Tests use fixed images per format.",
     ["image/integer_pixel_format.hpp", "image/packed_pixel_format.hpp", "image/subword_pixel_format.hpp", "image/indexed_pixel_format.hpp", "image/buffered_image.hpp", "image/comp_repr.hpp", "image/bit_field.hpp"],
     [("bit packing", "image/packed_pixel_format.hpp")], ["pixel reads", "raw buffer"])
prop("G02", "Reading images through any falloff, color space and block is exact",
     "Reading any rectangle of any image, partly or wholly outside the image, at any component representation and color space, returns for every position exactly the converted pixel of the image or the value defined by the selected falloff mode, and palette lookups return the nearest color. Results do not depend on how the read is split into blocks, and no access leaves the image.",
     ["inputs", "configurations"], "All images, rectangles, falloff modes and target representations.",
     "Tests use few image sizes and offsets.",
     ["image/reader.hpp", "image/reader.cpp", "image/pixel_convert.hpp", "image/comp_repr.hpp", "image/color_space.cpp"],
     [("block-wise reading with falloff", "image/reader.hpp")], ["returned pixels"])
prop("G03", "Writing, blending and filling affect exactly the intended pixels",
     "Writing pixels, blocks or whole images, filling and blending at any position, inside or outside the image, changes exactly the pixels in the intersection of the operation with the image, each to exactly the defined value (converted, blended by alpha and opacity), and no others.",
     ["inputs", "configurations"], "All images, operations, positions and opacities.",
     "Tests use fixed small images with fixed offsets.",
     ["image/writer.hpp", "image/writer.cpp", "image/blend.hpp"],
     [("clipping and conversion pipeline", "image/writer.cpp")], ["resulting pixels"])
prop("G04", "Saved images load back identically, and damaged files fail cleanly",
     "Saving any supported image as PNG and loading it gives back the same pixels, color space and transparency, whatever the bit depth, size and I/O chunking, and files written by other PNG encoders load as the pixels they encode. Loading truncated, corrupted or hostile data, or hitting an I/O error or a cancellation at any point, yields an error rather than a crash, a leak, undefined behavior or a silently wrong image.",
     ["inputs", "fault_sequences"], "All images and all byte strings presented as files, and all failure points.",
     "There are no load/save tests at all.",
     ["image/file_format_png.cpp", "image/load.cpp", "image/save.cpp", "image/file_format_registry.cpp"],
     [("libpng callbacks and error translation", "image/file_format_png.cpp")], ["loaded pixels", "error codes"])
prop("G05", "Buffer format descriptions and images agree",
     "A buffer format description derived from an image, or cast between integer, packed, subword and indexed forms, describes exactly the bytes of the image: reading the buffer as described gives the pixels of the image. A format is valid exactly when the documented requirements are met. A cast never succeeds unless the resulting format is valid and places every channel of every pixel in the same bits of memory as the original, and it does succeed when an equivalent format exists for words of the original type, or for bytes when each channel takes up all bits of a whole number of words. A failed cast leaves the result unchanged, and an invalid format or a wrong number of bit fields is reported by throwing.",
     ["inputs", "configurations"], "All formats, word types, byte orders and casts.",
     "Buffer format casts have no tests of their own.",
     ["image/buffer_format.hpp", "image/buffer_format.cpp"], [("descriptor casts", "image/buffer_format.cpp")], ["descriptors", "pixels"])

# ---------------------------------------------------------------- Font, display, render
prop("F01", "Glyph loading and rendering stay in bounds and are consistent",
     "For any font, size, glyph, translation, target and history of operations on a face, loading and rendering glyphs writes only inside the target, exactly the pixels of the glyph as given by its outline and position, and the size, glyph metrics, kerning and line metrics reported are those of the font at the selected size. The fallback font delivers exactly the glyphs and metrics of its specification and image, a regenerated one those of the font it was generated from, and a malformed font or specification yields an error rather than a crash. A font loader can be used by several threads as documented.",
     ["inputs", "histories"], "All code points, sizes, render positions and font data.",
     "One test loads the default font.",
     ["font/face.hpp", "font/loader_fallback.cpp", "font/loader_freetype.cpp", "font/face.cpp"],
     [("FreeType and fallback renderers", "font/loader_freetype.cpp")], ["rendered pixels", "metrics"])
prop("D01", "Window events are delivered once, in order, to the right handler",
     "Every user input event is delivered exactly once, in order, to the handler of the window it belongs to, with key, button, position and a monotone timestamp; event processing stops when and only when a handler asks for it, and before-sleep and expose notifications occur as documented. Events of closed windows are never delivered.",
     ["histories", "schedules"], "All sequences of input events, windows and handler decisions.",
     "The display back ends have no tests; only the timestamp unwrapper does.",
     ["display/sdl_implementation.cpp", "display/event_handler.hpp", "display/connection.hpp", "display/noinst/timestamp_unwrapper.hpp"],
     [("event loop", "display/sdl_implementation.cpp")], ["event handler calls"])
prop("D02", "The X11 back end shows what was drawn and reports what happened",
     "On every X server, whatever its visuals, depths, channel layouts, colormaps and extensions, a window opens when a usable visual exists and an error is reported otherwise; every fill, texture and image appears at the specified place, clipped to the window, with the closest color that the pixel format allows, and becomes visible when presented. No invalid request is sent, and nothing is left behind in the server. Every key, repetition, button, scroll step, movement, crossing, focus, size, position, exposure and close event is reported once, in order, to the handler of its window, also when windows are destroyed or hidden by handlers; key repetition is told apart from key presses; interruption and deadlines are respected. Screen configurations, resolutions, refresh rates and monitor names are those that the server announces, and changes are reported once.",
     ["inputs", "histories"], "All server capabilities, drawing histories, event histories, screen configurations and EDID blocks.",
     "The display back ends have no tests.",
     ["display/x11_implementation.cpp", "display/noinst/x11/support.cpp", "display/noinst/edid.cpp"],
     [("event processing", "display/x11_implementation.cpp"), ("pixel formats and colormaps", "display/noinst/x11/support.cpp"), ("monitor names", "display/noinst/edid.cpp")], ["pixels of windows", "requests", "event handler calls"])
prop("R01", "Interactive rendering controls follow their model",
     "Key bindings fire exactly for the key and modifier combinations they were bound to, in the active mode; the virtual trackball keeps its orientation a pure rotation for every drag history; and curve and sequence memories return exactly the recorded recent values.",
     ["histories", "inputs"], "All sequences of bindings, key events and drags.",
     "The render library has no tests.",
     ["render/impl/key_bindings.cpp", "render/virt_trackball.cpp", "render/impl/finite_curve_memory.hpp", "render/impl/finite_sequence_memory.hpp"],
     [("binding tables", "render/impl/key_bindings.cpp"), ("orientation integration", "render/virt_trackball.cpp")], ["handler invocations", "orientation"])
prop("R02", "The render engine shows the current state, on time",
     "While a render engine runs, every change of view, mode, background, window size or resolution is shown before the engine waits for further events, with the projection, orientation and features specified, and an exposed window is redrawn before sleep. The scene is initialized once, with a usable OpenGL context, and ticks occur at the current frame rate, never early and never more than one per period even after lag, for every frame rate. Handlers and built-in functions are invoked exactly for the keys, modifier modes (the set of modifier keys that are currently pressed down) and press counts they are bound to, and resolution and frame rate follow the configuration of the screen of the window unless set explicitly. The engine stops when and only when asked to.",
     ["inputs", "histories", "schedules"], "All histories of events, operations and clock readings.",
     "The render engine has no tests.",
     ["render/engine.hpp", "render/engine.cpp", "render/noinst/engine_impl.cpp", "render/impl/key_bindings.cpp"],
     [("main loop, redraw and tracking", "render/noinst/engine_impl.cpp")], ["OpenGL state when frames are shown", "handler and scene invocations"])
prop("U04", "Camera model and noise follow their defining formulas",
     "For every configuration of a perspective projection, the fields, angles and solid angles of view, viewport sizes in meters and pixels, resolutions and clipping planes are those that follow from the geometry of the camera; setting any of them makes the corresponding query return it, without affecting the independent parameters; and automatic distance and zoom make the sphere of interest fit exactly. Perlin noise is, at every position and for any number of dimensions and interpolation scheme, the interpolation of the gradients of the enclosing grid module, the nearest boundary value outside the grid, and within its amplitude; gradients are unit vectors, and sizes that are invalid or too large are rejected.",
     ["inputs"], "All parameters of a camera, all grids, positions and random seeds.",
     "Neither has any tests.",
     ["util/perspect_proj.hpp", "util/perlin_noise.hpp", "core/random.hpp"],
     [("solid angle of view", "util/perspect_proj.hpp"), ("gradient interpolation", "util/perlin_noise.hpp")], ["returned values"])
