#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The list below is the source; run this after editing it."""
import json, os

P = []

def p(id, title, statement, over, over_text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": over_text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Timestamps survive being written out and read back",
  "Reading the textual form of any timestamp that was written with its zone gives the same calendar fields and the same UTC offset, to the precision that was written. "
  "Every well-formed XML date-time (any fraction length, any offset from -11:59 to +12:59, 'Z' or no zone) is read as the value it denotes, with fractions truncated to milliseconds. "
  "Text that is not of that form is refused with an exception instead of being read as some other time.",
  ["inputs"], "all timestamps with years 1400-9999 and offsets -11:59..+12:59, all output options, all date-time strings and mutations of them",
  "The unit tests read about ten fixed strings, none with a short fraction, a negative offset of less than an hour or a fraction followed by Z.",
  ["src/local_time.cc", "src/local_time.h", "src/utc_offset.cc"],
  [("string parser", "src/local_time.cc LocalTime(string)"), ("formatter", "src/local_time.cc as_string/date/time_of_day"), ("offset range check", "src/utc_offset.cc set_hour/set_minute")],
  [("calendar fields and offset", "local civil time and its displacement from UTC", "src/local_time.h")],
  ["LocalTime accessors", "LocalTime::as_string"])

p("C02", "Timestamp comparisons agree with the instants they denote",
  "For any two timestamps, whatever their UTC offsets, each of the six comparison operators gives the answer obtained by comparing the two instants on the UTC time line. "
  "In particular exactly one of less-than, equal and greater-than holds, the order is transitive, and two spellings of one instant in different zones are equal. Comparing never alters its operands.",
  ["inputs"], "all pairs (and triples) of timestamps, all combinations of hour and minute offsets",
  "Tests compare a couple of dozen fixed pairs; only two pairs mix offsets with minutes, and those are decided by the hour.",
  ["src/local_time.cc"],
  [("conversion to UTC", "src/local_time.cc as_utc"), ("lexicographic comparison", "src/local_time.cc operator== operator< operator> and derived")],
  None, ["comparison operators"])

p("C03", "Calendar arithmetic on timestamps follows the Gregorian calendar",
  "Adding days, months, minutes or any duration, forwards or backwards and in any sequence, gives the Gregorian calendar's answer: fields stay in range, month additions clamp to the end of the month (and the last day of a month stays the last day), the UTC offset and unrelated fields are untouched, and the elapsed time is exactly what was added. "
  "Dates decoded from certificate time fields and conversions to seconds since 1970 agree with the same calendar.",
  ["inputs", "histories"], "all start times 1400-9999, all sequences of additions that stay in that range, all ASN.1 time strings",
  "Tests add small positive amounts from a handful of dates, never cross 29 February, a century year or a negative boundary, and never chain different kinds of addition.",
  ["src/local_time.cc"],
  [("additions", "src/local_time.cc add_days/add_months/add_minutes/add"), ("ASN.1 decoding", "src/local_time.cc from_asn1_utc_time/from_asn1_generalized_time"), ("epoch conversion", "src/local_time.cc as_time_t")],
  [("calendar fields and offset", "local civil time and its displacement from UTC", "src/local_time.h")],
  ["LocalTime accessors"])

p("C04", "Writing data to disk is all-or-error and replacement is atomic",
  "When writing a block of data or a string to a file returns normally, the file holds exactly those bytes; if any part of opening, writing, flushing or renaming fails, the caller gets an exception. "
  "Writing through a temporary file replaces the destination atomically: at every instant, and after any failure or crash of the process in the middle, the destination is either exactly as it was or exactly the new data.",
  ["fault_sequences", "crash_points", "inputs"], "every failing or short operating-system call, a crash before and after every call, all sizes including empty and larger than stdio buffers",
  "No unit test makes a write fail, and none looks at the destination between the steps of a write.",
  ["src/data.cc", "src/array_data.cc", "src/file.cc", "src/util.cc", "src/encrypted_kdm.cc"],
  [("write and write_via_temp", "src/data.cc"), ("close/flush error propagation", "src/file.cc"), ("string writer", "src/util.cc write_string_to_file")],
  None, ["destination file contents", "exception or normal return"])

p("C05", "Each open file is owned by one object, closed once, and I/O is complete",
  "Whatever sequence of opening, moving, move-assigning, taking, closing and destroying is performed, every operating-system handle is closed exactly once (or handed to the caller), a moved-from or closed object reports itself as not open, and an object always reads and writes the file it was last given. "
  "Checked reads and writes either accept or deliver exactly the requested bytes or throw, and line reads, seeks and tells behave as on the underlying file; using an object that is not open is reported rather than silently ignored.",
  ["histories", "fault_sequences"], "all sequences of operations on several file objects, all short reads and failed writes",
  "There is no unit test of the file class at all; other tests only open, use once and destroy.",
  ["src/file.cc", "src/file.h"],
  [("ownership transfer", "src/file.cc move constructor/assignment, take, close, destructor"), ("checked transfer", "src/file.cc checked_read/checked_write")],
  [("handle", "the open stdio stream or none", "src/file.h")], ["file descriptors", "file contents", "return values and exceptions"])

p("C06", "File system wrappers do what the operation they name does",
  "Every query (existence, kind, emptiness, size, space, hard links, modification time, canonical and absolute paths, extension) and every change (copy, create, rename, remove, link, current directory) has exactly the effect and the result, including the error reported, of the operation on the given path and on no other path. "
  "Directory iteration, plain or recursive, visits every entry exactly once under its ordinary name, and long-path decoration is undone exactly by its inverse.",
  ["histories", "inputs", "configurations"], "all sequences of operations over small directory trees with files, directories, links and missing paths; error-code and throwing forms; the long-path build as well as the plain one",
  "Unit tests cover the long-path prefix and one canonicalisation case; none of the thirty wrappers is compared with what it is supposed to do.",
  ["src/filesystem.cc", "src/filesystem.h"],
  [("one wrapper per operation", "src/filesystem.cc"), ("long path prefixing", "src/filesystem.cc fix_long_path/unfix_long_path"), ("iterators", "src/filesystem.h directory_iterator, recursive_directory_iterator")],
  [("directory tree", "names, kinds and contents below a root", "operating system")], ["directory tree after each call", "results and error codes"])

p("C07", "Canonicalised paths denote the same place in normal form",
  "Canonicalising a path that may not fully exist gives an absolute path, free of '.' and of every '..' that can be removed without changing what it denotes, that leads to the same location as the original even through symbolic links. Doing it again changes nothing, and '..' at the root stays at the root.",
  ["inputs", "configurations"], "all paths over small directory trees including links, '.', '..', repeated slashes, leading '..' and non-existent tails; all current directories",
  "One test canonicalises a handful of literal paths, none through symbolic links and none above the root.",
  ["src/filesystem.cc"],
  [("component-wise normalisation", "src/filesystem.cc weakly_canonical")],
  None, ["returned path"])

p("C08", "Bit streams are packed most significant bit first with a correct CRC",
  "The bits obtained from a bit stream are exactly the requested low-order bits of each written byte or word, most significant first, in the order of writing. "
  "A checksum written to the stream is the CRC, for the chosen generator, of exactly the bits written since the checksum was started, and later checksums in the same stream are independent of earlier ones.",
  ["histories", "inputs"], "all sequences of writes of 0-8 and 0-32 bits, checksum starts and checksum writes, all 16-bit polynomials",
  "The only exercise is through whole synchronisation packets in a test that needs libraries absent here; it fixes one packet layout.",
  ["src/bitstream.cc", "src/bitstream.h"],
  [("bit packing", "src/bitstream.cc write_bit/write_from_byte/write_from_word"), ("CRC", "src/bitstream.cc start_crc/write_crc")],
  [("bits so far, CRC being accumulated", "", "src/bitstream.h")], ["Bitstream::get"])

p("C09", "The synchronisation tone encodes its bits as a continuous waveform",
  "Each bit takes four samples of fixed magnitude and is encoded by whether the sign changes half-way through it, so decoding the samples gives back exactly the bits that were set, for any data. "
  "The sign changes at every bit boundary, also between successive blocks of data: how one block ended determines how the next begins, and setting new data changes nothing else.",
  ["histories", "inputs"], "all bit strings, all sequences of setting data and taking samples including re-setting part-way through",
  "The unit test that exercises it needs libraries absent here and checks one fixed packet stream.",
  ["src/fsk.cc", "src/fsk.h"],
  [("sample generator", "src/fsk.cc get/set_data")],
  [("bit position, sample position, polarity", "", "src/fsk.h")], ["FSK::get"])

p("C10", "File names made from templates are filled in and safe",
  "A name built from a template has every placeholder that has a value and is not to be ignored replaced by that value, once and without interpreting the value as a template, everything else copied in order, and the suffix appended unchanged. "
  "Characters of values or template that are unsafe in a file name (path separators, colons, spaces) are always replaced by safe ones, so neither can direct the file elsewhere. Two templates are equal exactly when their specifications are, and rendering has no effect on the template.",
  ["inputs", "histories"], "all templates, all maps of placeholder values including values containing '%', separators and non-ASCII text, values for absent placeholders",
  "There is no unit test of template rendering beyond one happy path in a test that needs libraries absent here.",
  ["src/name_format.cc", "src/name_format.h"],
  [("placeholder substitution", "src/name_format.cc get"), ("character filter", "src/name_format.cc filter/careful_string_filter")],
  None, ["NameFormat::get"])

p("C11", "Scope-exit actions run exactly once unless cancelled",
  "An action registered to run at the end of a scope runs exactly once when the scope is left, by return or by exception, and not before; once cancelled it never runs. This remains true if responsibility is moved to another guard any number of times.",
  ["histories", "programs"], "all sequences of create, move, cancel and destroy, leaving scopes normally or by exception",
  "One test checks a single guard that is destroyed and one that is cancelled; moves and exceptions are never tried.",
  ["src/scope_guard.h"],
  [("guard object", "src/scope_guard.h")],
  [("action, cancelled flag", "", "src/scope_guard.h")], ["calls of the action"])

p("C12", "Named values map to and from text without loss or confusion",
  "Content kinds, horizontal and vertical alignments and the other named values convert to text and back to the same value, distinct values have distinct names, and unknown names are refused with an exception rather than mapped to something else. "
  "Looking up a content kind or alignment ignores letter case; a content kind read from elsewhere keeps its name and scope exactly as given, and two content kinds are equal exactly when name and scope are.",
  ["inputs"], "all values, all names, all letter cases, near-miss spellings and scopes",
  "Tests check the fixed tables once in one spelling.",
  ["src/content_kind.cc", "src/h_align.cc", "src/v_align.cc", "src/subtitle_standard.cc", "src/types.cc"],
  [("name tables", "src/content_kind.cc, src/h_align.cc, src/v_align.cc"), ("standard sets", "src/subtitle_standard.cc")],
  None, ["conversion functions", "equality operators"])

p("C13", "Transfer-function tables depend only on their parameters",
  "A look-up table obtained from a transfer function is a function of the requested range, depth, direction and scale alone: it has the requested size and the same contents whatever was requested before, in whatever order, on whatever thread, and a table already handed out never changes or disappears while its owner lives. "
  "The integer form is the real form scaled and rounded, and any number of threads may ask at once.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of requests on one transfer function, all parameter combinations",
  "Tests ask each object for one or two tables from one thread.",
  ["src/transfer_function.cc", "src/transfer_function.h"],
  [("table cache under a mutex", "src/transfer_function.cc double_lut/int_lut"), ("cache key", "src/transfer_function.h LUTDescriptor")],
  [("cached tables", "key to table", "src/transfer_function.h")], ["double_lut", "int_lut"])

p("C14", "Transfer curves compute their defining formula in both directions",
  "Each entry of a forward table is the curve's formula at the corresponding position of the requested range, so tables over different ranges or depths agree wherever they sample the same point, and curves are monotonic with the right end points. "
  "The inverse table undoes the forward one over the whole range, and a piecewise table approximates the function it was built from as closely as its resolution allows on both sides of its break.",
  ["inputs"], "all gammas and break parameters, all ranges, depths and directions, all positions",
  "Tests compare one depth, one range and a few curves; sub-ranges and round trips are never tried.",
  ["src/gamma_transfer_function.cc", "src/modified_gamma_transfer_function.cc", "src/s_gamut3_transfer_function.cc", "src/identity_transfer_function.cc", "src/piecewise_lut.h"],
  [("table makers", "make_double_lut in each transfer function"), ("piecewise approximation", "src/piecewise_lut.h")],
  None, ["double_lut", "PiecewiseLUT2::lookup"])

p("C15", "Colour conversion matrices map primaries and white exactly",
  "For any valid set of primaries and white point the RGB-to-XYZ matrix sends equal full RGB to the white point with unit luminance and each primary to its own chromaticity, and the XYZ-to-RGB matrix is its inverse. "
  "The chromatic adaptation matrix sends the source white to the adjusted white and is the identity when no adjustment is asked for.",
  ["inputs"], "all non-degenerate chromaticities and white points, with and without adjusted white",
  "Tests compare two standard conversions with literal numbers.",
  ["src/colour_conversion.cc", "src/chromaticity.cc", "src/chromaticity.h"],
  [("matrix derivation", "src/colour_conversion.cc rgb_to_xyz/xyz_to_rgb/bradford")],
  None, ["rgb_to_xyz, xyz_to_rgb, bradford"])

p("C16", "Comparing colour settings notices every difference and nothing else",
  "Comparing two transfer functions, chromaticities or colour conversions with a tolerance is symmetric, true for equal ones, and false as soon as any one parameter, kind of curve, white point or setting differs by more than the tolerance. Differences within the tolerance are accepted.",
  ["inputs"], "all pairs that differ in any subset of parameters by more or less than the tolerance, all pairs of curve kinds",
  "Tests compare a few presets with each other.",
  ["src/colour_conversion.cc", "src/chromaticity.cc", "src/gamma_transfer_function.cc", "src/modified_gamma_transfer_function.cc", "src/s_gamut3_transfer_function.cc", "src/identity_transfer_function.cc"],
  [("about_equal", "each class"), ("setters", "src/colour_conversion.h")],
  None, ["about_equal"])

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
