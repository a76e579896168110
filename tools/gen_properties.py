#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Section reading tiles the file exactly",
 "Reading GRIB2 data yields every section of every message in file order, each with its true section number, byte offset and byte size, so that the sections of a message start at the message start, are contiguous and end at the message's declared total length. Bytes that lie before, between or after messages and are not the start of a message are skipped whatever their number and content; nothing is duplicated, dropped or invented, and offsets are absolute file offsets even when reading starts in the middle of a file.",
 ["inputs"], "all sequences of well-formed messages (any section sizes, any number of messages) separated by arbitrary gaps of non-GRIB bytes of any length, including gaps that straddle the reader's internal 4096-byte window and gaps holding partial magic bytes",
 "The unit tests read a handful of fixed sample files; gap lengths, window boundaries and section-size combinations are not enumerated.",
 ["src/reader.rs"], [("scan for the magic bytes with a 4096-byte window and overlap", "src/reader.rs read_sect0"), ("offset bookkeeping from remaining message length", "src/reader.rs Grib2SectionStream")],
 ["Grib2SectionStream::next items (num, offset, size)", "Grib2::sections"],
 [dict(name="whole_size/rest_size", meaning="end of current message / bytes of it still unread", where="src/reader.rs")])

prop("C02", "Sections are grouped into the right submessages, or rejected at the right place",
 "Each data field of a message becomes exactly one submessage, numbered (message, submessage) consecutively in file order, made of the message's indicator and identification sections, the local-use section (if any) and grid definition most recently given in that message, and its own product, representation, bitmap and data sections; nothing carries over from one message to another. A section sequence that breaks the GRIB2 grammar is rejected with an error naming the kind of fault and the position of the first offending section, after the submessages completed before it (a submessage is complete once some section follows its data section), and nothing is produced after the error.",
 ["inputs", "histories"], "all finite sequences of sections, including ones that repeat sections 2-7, 3-7 or 4-7, that omit or reorder sections, that end early, or in which reading fails at any point",
 "Unit tests list about twenty hand-written section sequences; the language of legal sequences is infinite and the fault positions are sampled.",
 ["src/parser.rs", "src/datatypes.rs", "src/context.rs"], [("section-order state machine", "src/parser.rs Grib2SubmessageValidator"), ("per-message cache of inherited sections", "src/parser.rs clear_message_cache")],
 ["Grib2SubmessageStream items", "Grib2::read result", "Grib2::iter items (message index, section indices)"],
 [dict(name="state, has_sect3, counters", meaning="grammar state, grid seen in this message, message/submessage numbers", where="src/parser.rs")])

prop("C03", "Damaged files are detected without panic and never change the intact prefix",
 "For data obtained from well-formed data by truncating it at any byte, or by overwriting any length, number, version or end-marker field with any value, reading always terminates without panicking and either reports an error or succeeds; every section that lies wholly before the damage, and every submessage that lies before it together with the section that follows it, is still delivered by the streaming readers exactly as in the undamaged data. A message cut anywhere after the first 16 bytes of it are present is never reported as success when its submessages are read or the file is opened.",
 ["inputs", "crash_points"], "every truncation point of a file and every single-field corruption of its length, section-number, version and end-marker fields",
 "No test truncates or corrupts files byte by byte; the few negative tests cover section order only.",
 ["src/reader.rs", "src/parser.rs", "src/datatypes/sections.rs"], [("size checks on section headers and payloads", "src/reader.rs"), ("unexpected end-of-data detection", "src/parser.rs")],
 ["Grib2SectionStream items", "Grib2SubmessageStream items", "from_slice / from_reader result"])

prop("C04", "Reading does not depend on how the source delivers bytes; I/O errors surface",
 "For the same bytes, the sections, submessages and decoded values obtained are the same whatever byte counts the underlying reader returns from individual read calls (any non-zero short reads allowed by the Read contract) and whether or not reads are interrupted. When the underlying reader or seek fails with an I/O error, the operation in progress reports an error: no panic, no silent end of data, no fabricated section or value.",
 ["schedules", "fault_sequences"], "all read schedules (sizes of partial reads, interruptions) and all positions of a read or seek failure",
 "Every test uses an in-memory cursor or a BufReader on a small file, i.e. one schedule and no faults.",
 ["src/reader.rs", "src/context.rs", "src/decoder.rs"], [("fills its header buffers from the reader", "src/reader.rs SeekableGrib2Reader")],
 ["Grib2SectionStream items", "from_reader result", "Grib2SubmessageDecoder::from result"])

prop("C05", "The submessage list obeys the iterator contract",
 "Iterating over the submessages of a file visits each exactly once in file order however the iterator is driven: any interleaving of next, nth, skip, step_by, clone, size_hint and re-borrowing selects the same elements as on the plain list. The number of remaining elements it announces is always exactly the number it still yields, it never panics, and after the end it keeps returning nothing.",
 ["histories"], "all sequences of iterator operations on files with any number of submessages",
 "Tests call nth once on a fresh iterator; operation histories (nth after next, past the end, repeated, on clones) are not covered.",
 ["src/context.rs"], [("explicit nth and size_hint implementations", "src/context.rs SubmessageIterator")],
 ["Grib2::iter / submessages / into_iter"], [dict(name="pos", meaning="number of submessages already consumed", where="src/context.rs SubmessageIterator")])

prop("C06", "Accessing submessages in any order never changes what is read",
 "What is obtained from a submessage - its header fields, description, grid indices and decoded values - depends only on the file's bytes: it is the same whichever submessages were visited, decoded, skipped, or failed to decode before, in whatever order and however often, and equals what is obtained from a file holding only that field. Decoders set up earlier keep giving the same values after further reads.",
 ["histories"], "all histories of visiting, decoding, re-decoding and abandoning submessages through one open file, including failing ones",
 "Tests decode one submessage per opened file; the shared reader position is never exercised across histories.",
 ["src/context.rs", "src/decoder.rs", "src/reader.rs"], [("absolute seek before reading a payload", "src/reader.rs read_sect_payload_as_slice"), ("decoder owns copies of payloads", "src/decoder.rs Grib2SubmessageDecoder")],
 ["Grib2SubmessageDecoder::from/dispatch", "SubMessage accessors"])

prop("C07", "Simple packing decodes every width to the defined values",
 "For simple packing, the k-th encoded value of the data section is the k-th consecutive big-endian group of n bits, for every width n from 1 to 32 and every alignment, and decodes to (R + X*2^E)*10^-D with R, and the signed (sign-and-magnitude) E and D, from the representation section. With n = 0 every encoded point has the value R*10^-D and exactly the announced number of points is produced.",
 ["inputs"], "all bit widths 0-32, bit patterns, numbers of values, and R, E, D (values compared up to single-precision rounding)",
 "Tests check a few widths (2, 5, 9, 13, 16) on one byte string and one parameter set.",
 ["src/decoder/stream.rs", "src/decoder/simple.rs", "src/decoder/param.rs", "src/helpers.rs"], [("bit-window iterator", "src/decoder/stream.rs NBitwiseIterator"), ("affine scaling", "src/decoder/simple.rs")],
 ["Grib2SubmessageDecoder::dispatch values"], [dict(name="pos, offset", meaning="byte and bit position of the next value", where="src/decoder/stream.rs")])

prop("C08", "Bitmaps place values and missing points exactly",
 "Decoding a field yields exactly one item per grid point of the grid definition, never more or fewer when the data section holds enough values; when a bitmap is present, the points whose bit is 0 - and only those - are missing (NaN), and the others take the encoded values in order. A bitmap shorter than the grid is reported as an error, padding bits never produce items, and the announced number of remaining items is exact at every step.",
 ["inputs", "histories"], "all bitmaps and grid sizes (including sizes not divisible by 8), with any amount of padding, for all packings",
 "One unit test with a 24-point bitmap compares nothing (its assertion result is discarded); sizes not divisible by eight are never decoded with a bitmap.",
 ["src/decoder/bitmap.rs", "src/decoder.rs"], [("bit cursor over the bitmap", "src/decoder/bitmap.rs BitmapDecodeIterator")],
 ["Grib2DecodedValues next/size_hint"], [dict(name="offset", meaning="next point", where="src/decoder/bitmap.rs")])

prop("C09", "Complex packing reconstructs every group and missing value",
 "For complex packing, the decoded values are, group by group, the group's reference plus the group's packed increments, with group widths, lengths (the last one given separately) and references unpacked from consecutive octet-aligned tables and increments unpacked from one bit stream that is not realigned between groups; zero-width groups take no bits. With missing-value management 1 or 2, the values coded by the all-ones pattern (and, for management 2, all-ones minus one) of the group width, or of the reference width for zero-width groups, are missing; with management 0 none is.",
 ["inputs"], "all group counts, widths, lengths, references, table bit widths and missing-value managements",
 "Tests decode a few sample files of one producer; widths, alignments and missing-value modes are whatever those contain.",
 ["src/decoder/complex.rs", "src/decoder/param.rs", "src/decoder/stream.rs", "src/decoder/complex/missing.rs"], [("group iterator with running bit position", "src/decoder/complex.rs ComplexPackingValueDecodeIterator")],
 ["Grib2SubmessageDecoder::dispatch values"], [dict(name="pos, start_offset_bits", meaning="position in the increment bit stream", where="src/decoder/complex.rs")])

prop("C10", "Spatial differencing is undone exactly, around missing points",
 "For complex packing with spatial differencing of order 1 or 2, the non-missing values satisfy the defining recurrence: the first one or two are the stored first values, and each later one is the stored difference plus the overall minimum plus the order-1 or order-2 extrapolation of the preceding non-missing values. Missing points do not take part in the recurrence; the first values and the minimum are read as sign-and-magnitude integers of 1 to 4 octets.",
 ["inputs"], "both orders, all octet counts 1-4, all positions of missing points, negative first values and minima",
 "Two unit tests with one missing-value layout each; octet widths and sign handling come from single sample files.",
 ["src/decoder/complex/diff.rs", "src/decoder/complex.rs", "src/helpers.rs"], [("recurrence iterators", "src/decoder/complex/diff.rs"), ("extra descriptors", "src/decoder/complex/diff.rs SpatialDifferencingExtraDescriptors")],
 ["Grib2SubmessageDecoder::dispatch values"], [dict(name="count, prev1, prev2", meaning="recurrence state", where="src/decoder/complex/diff.rs")])

prop("C11", "Run-length decoding expands every run and level exactly",
 "For run-length packing with level values, each level code up to the maximum level used starts a run and each higher code multiplies in as the next base-(2^n - 1 - maxv) digit of the run's repeat count, so the expansion has exactly the announced number of points, else an error is reported. Level 0 is missing; level k is the k-th listed value scaled by 10^-D, D being a signed (sign-and-magnitude) factor; codes with no listed level, or a run digit before any level, are errors.",
 ["inputs"], "all bit widths 1-16, maximum levels, level tables, decimal scale factors and code sequences",
 "Two unit tests on the unpacking routine, none on level scaling or error cases.",
 ["src/decoder/run_length.rs"], [("run expansion", "src/decoder/run_length.rs rleunpack"), ("level map", "src/decoder/run_length.rs decode")],
 ["Grib2SubmessageDecoder::dispatch values"], [dict(name="cached, exp", meaning="current level and weight of next digit", where="src/decoder/run_length.rs")])

prop("C12", "Image-coded fields decode to the stored samples",
 "For fields coded as PNG (1, 2, 4, 8 or 16 bits grayscale) or as a JPEG 2000 code stream (one component), the values are the image samples in row-major order - exactly width times height of them, without row padding - scaled as for simple packing; with a bit width of 0 every point is the reference value. Data that is not a decodable image of that kind is reported as an error.",
 ["inputs"], "all image sizes, sample depths and sample values; undecodable image data",
 "Tests decode one 16-bit PNG sample and one JPEG 2000 sample.",
 ["src/decoder/png.rs", "src/decoder/jpeg2000.rs", "src/decoder/jpeg2000/ext.rs"], [("image decoding then scaling", "src/decoder/png.rs"), ("openjpeg binding", "src/decoder/jpeg2000.rs")],
 ["Grib2SubmessageDecoder::dispatch values"])

prop("C13", "Decoding arbitrary section contents never panics",
 "For a well-framed file whose representation, bitmap or data sections hold arbitrary bytes of any length the framing allows, setting up the decoder and drawing all values always terminates without panicking, and yields either an error or at most one item per grid point.",
 ["inputs"], "all contents and lengths of representation, bitmap and data sections for the packings simple, complex, complex with spatial differencing, PNG and run-length",
 "No test feeds malformed section contents to a decoder.",
 ["src/decoder.rs", "src/decoder/simple.rs", "src/decoder/complex.rs", "src/decoder/complex/diff.rs", "src/decoder/run_length.rs", "src/decoder/param.rs"], [("length checks before slicing", "src/decoder/*.rs")],
 ["Grib2SubmessageDecoder::from/dispatch", "iteration of values"])

prop("C14", "Unsupported features are reported, never mis-decoded",
 "A field that uses a feature the library does not implement - another representation template, a predefined bitmap (indicator 1-254), an integer original field type, a group splitting other than general, a missing-value management or differencing order outside the tables, an extra-descriptor size outside 1-4 octets, another grid template, a list of points per row, reserved or offset scanning flags, an unknown earth shape in projected grids - is answered with an error when its values or coordinates are asked for. Supported combinations are never refused.",
 ["inputs"], "all values of the template, flag and indicator fields concerned",
 "Each unsupported field value is an untested branch; tests only cover supported samples.",
 ["src/decoder.rs", "src/decoder/param.rs", "src/decoder/complex.rs", "src/decoder/complex/diff.rs", "src/datatypes/sections.rs", "src/grid.rs", "src/grid/latlon.rs", "src/grid/gaussian.rs"], [("explicit support checks", "see files")],
 ["Grib2SubmessageDecoder::from/dispatch", "SubMessage::ij", "SubMessage::latlons"])

prop("C15", "Scanning order visits every grid point once, in the defined order",
 "For every grid shape and supported scanning mode, the grid index iterator yields each (i, j) pair exactly once: rows of consecutive i (or of consecutive j when the mode says so), every second row reversed exactly when the mode alternates row direction, indices counting from the first grid point. It announces the exact number of remaining points at every step, is empty for empty grids, and clones continue independently.",
 ["inputs", "histories"], "all grid shapes (including 0 and 1 along an axis) and all 16 supported scanning modes, at every step of the iteration",
 "Tests use one 2x3 or 3x2 grid for some modes.",
 ["src/grid.rs"], [("major/minor position counter", "src/grid.rs GridPointIndexIterator")],
 ["GridPointIndexIterator next/size_hint via the public grid definitions and SubMessage::ij"],
 [dict(name="major_pos, minor_pos, increments", meaning="current row, column and direction", where="src/grid.rs")])

prop("C16", "Regular lat/lon coordinates follow the grid definition",
 "For a regular latitude/longitude grid the coordinates, in scanning order, are evenly spaced from the first to the last grid point in the directions given by the scanning mode, crossing the 0/360-degree meridian when that is what the direction requires, with longitudes then kept below 360. With two or more rows, a latitude range that contradicts the scanning direction, or a point count that differs from the announced one, is an error; grids with a single row or column yield the coordinates of their first point along that axis.",
 ["inputs"], "all first/last points, shapes (including a single row or column) and scanning modes, up to single-precision rounding",
 "Tests cover a few grids with more than one row and column and one wrap-around case each.",
 ["src/grid/latlon.rs", "src/grid/helpers.rs", "src/context.rs"], [("evenly spaced degrees", "src/grid/helpers.rs"), ("consistency check with the scanning mode", "src/grid/latlon.rs is_consistent_for_j")],
 ["LatLonGridDefinition::latlons", "SubMessage::latlons", "SubMessage::ij"])

prop("C17", "Gaussian latitudes are the Legendre roots in scanning order",
 "For every number n of latitudes from 1 to 1280 the computation succeeds, and for every n for which it succeeds the Gaussian latitudes are n in number, strictly decreasing from north to south, antisymmetric about the equator, and their sines are the roots of the Legendre polynomial of degree n; a Gaussian grid's coordinates use them in the order the scanning direction asks for, with evenly spaced longitudes. A failure to converge is reported, never returned as a value.",
 ["inputs"], "all numbers of latitudes, shapes and scanning modes",
 "Tests compare the first 160 latitudes of one grid with another program's output.",
 ["src/grid/gaussian.rs", "src/grid/helpers.rs"], [("Newton iteration from an asymptotic guess", "src/grid/gaussian.rs find_root")],
 ["compute_gaussian_latitudes", "GaussianGridDefinition::latlons"])

prop("C18", "Projected grids hand the right projection, origin and steps to the projector",
 "For Lambert conformal and polar stereographic grids, coordinates are obtained by projecting the first grid point with a projection whose earth axes, reference and standard parallels and central meridian are exactly those of the grid definition (north or south pole by the projection-centre flag), stepping i*Dx and j*Dy metres from it with the signs the scanning mode gives, in scanning order, and projecting back. Earth axes follow the shape-of-the-earth code, custom ones being scaled values divided by ten to the scale factor.",
 ["inputs"], "all grid definition contents, scanning modes, projection-centre flags and earth shapes",
 "The projected-grid tests need a system library and one sample each; earth shapes with a scale factor other than 0 are untested.",
 ["src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/earth.rs", "src/grid/helpers.rs"], [("projection string and deltas", "src/grid/lambert.rs latlons"), ("radii", "src/grid/earth.rs radii")],
 ["LambertGridDefinition::latlons", "PolarStereographicGridDefinition::latlons", "EarthShapeDefinition::radii"])

prop("C19", "Header fields are read from their octets with GRIB2 signs",
 "Every header accessor - discipline, total length, centre and sub-centre, table versions, reference-time significance and time, production status, data type, numbers of points, template numbers, and every grid-definition field - returns the value of exactly its octets of its own section, signed fields as sign-and-magnitude; sections too short to hold their fixed part are rejected when read. An impossible reference date or time is an error, and grid definitions too short for their template are errors when used.",
 ["inputs"], "all contents and lengths of sections 0, 1, 3 and 5",
 "Tests read fields from a few sample files in which most octets are equal or zero, so a shifted octet is often invisible.",
 ["src/datatypes/sections.rs", "src/helpers.rs", "src/grid/latlon.rs", "src/grid/gaussian.rs", "src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/earth.rs"], [("fixed-offset big-endian reads", "src/helpers.rs read_as"), ("sign-and-magnitude conversion", "src/helpers.rs GribInt")],
 ["Identification / GridDefinition / ReprDefinition / Indicator accessors", "GridDefinitionTemplateValues::try_from"])

prop("C20", "Product fields come from the octets their template defines",
 "For every product definition template, parameter category and number, generating process, forecast time (unit and value) and the two fixed surfaces (type, signed scale factor, signed scaled value) are those of the octets that template assigns to them, or absent when the template is unsupported or the section is too short to hold them - never a panic and never a neighbouring field. A surface value is scaled-value * 10^-scale-factor, missing exactly when all bits of the scaled value are set, and its unit is the one code table 4.5 gives its type, if any.",
 ["inputs"], "all 65536 template numbers and all section lengths and contents",
 "Tests look at templates 0 and 8 in samples; the tables for some seventy templates are unexercised.",
 ["src/datatypes/sections.rs", "src/datatypes/product_attributes.rs"], [("per-template offset tables", "src/datatypes/sections.rs ProdDefinition")],
 ["ProdDefinition accessors", "FixedSurface::value", "SubMessage::parameter", "SubMessage::describe"])

prop("C21", "The template list and code-table texts name exactly what the file contains",
 "The list of templates of a file is exactly the set of (section, template number) pairs occurring in its grid, product and representation sections, each once, in ascending order. Looking up a code in a code table gives the table's text for that code in the table belonging to that discipline and category, and for any other code or table reports the code as not implemented, never the text of another code; a code that only a placeholder row (reserved, missing, future) covers may have an empty text or none. A parameter is identical to a named third-party code exactly if its discipline, category and number are that code's.",
 ["inputs"], "all files, all code tables and all code values, disciplines and categories",
 "One unit test of the list with fixed sections; table lookups are tested for a few codes.",
 ["src/context.rs", "src/codetables/old.rs", "src/datatypes/product_attributes.rs"], [("deduplicate and sort", "src/context.rs get_templates"), ("array lookup", "src/codetables/old.rs")],
 ["Grib2::list_templates", "Lookup::lookup", "Parameter::description", "SubMessage::describe"])

prop("C22", "Generated tables give each code its own text",
 "From a common code table CSV file (C-0 or C-11), the generator produces an array in which the entry at index k is the text of the row whose code or code range contains k, and an empty string when k is only covered by reserved, missing or similar placeholder rows that precede a later real row; trailing placeholder rows and rows without a numeric code add nothing. The rows must be in ascending order and leave no code uncovered: any other table is exported as an empty array, never as a shifted one.",
 ["inputs"], "all sequences of table rows: single codes, ranges, reserved rows, gaps, overlaps, non-numeric rows",
 "Tests use two tiny fixed CSV files; gaps, overlaps and consecutive placeholder ranges are not explored.",
 ["gen/src/lib.rs", "gen/src/cct_csv.rs"], [("row walk with pending-empty counter", "gen/src/lib.rs CodeTable::to_vec"), ("range parsing", "gen/src/lib.rs CodeRange")],
 ["grib_build::cct_csv::CodeDB export / Display"], [dict(name="count, empty_count", meaning="next index, pending placeholder indices", where="gen/src/lib.rs")])

prop("C23", "GRIB2 code table files are split and named by discipline and category",
 "From GRIB2 code table CSV files, the generator produces one table per (section, table number, discipline, category) named after exactly those numbers - taken from the file name and the rows' subtitle - holding exactly the rows with that subtitle in file order and titled by the first of them; loading several files keeps all their tables, listed in ascending numeric order, and a table loaded again replaces the earlier one. Files whose name or subtitles do not follow the naming scheme are ignored or reported as errors, respectively, and never change other tables.",
 ["inputs", "histories"], "all sequences of files and rows, subtitles, numbers 0-255",
 "Tests parse three tiny fixed files; ordering, multi-file loading and malformed names or subtitles are sampled at most once.",
 ["gen/src/grib2_codeflag_csv.rs", "gen/src/lib.rs"], [("subtitle parsing", "gen/src/grib2_codeflag_csv.rs OptArg"), ("row grouping", "gen/src/grib2_codeflag_csv.rs parse_file")],
 ["grib_build::grib2_codeflag_csv::CodeDB get / export / Display"])

prop("C24", "Generated parameter codes map every table line to its parameter",
 "For a wgrib2-style parameter table, the generated enumeration has exactly one variant per distinct abbreviation (made a legal identifier; abbreviations that make the same identifier count as the same), whose discriminant packs discipline, category and number of the abbreviation's first line; converting a packed code of any line of the table gives the variant of that line's abbreviation, and any other code is an error. A table with an unreadable or malformed line is rejected as a whole. (Tables that give one code two such abbreviations have no such enumeration and are outside this property.)",
 ["inputs", "programs"], "all parameter tables: any order, repeated abbreviations, hyphens, any discipline, category and number 0-255, malformed lines",
 "Tests compile one nine-line table with a single repeated abbreviation.",
 ["codegen/src/param_codes.rs", "codegen/src/lib.rs"], [("first-occurrence table and remapper", "codegen/src/param_codes.rs"), ("enum and TryFrom generation", "codegen/src/lib.rs")],
 ["the enum generated by the parameter_codes attribute, its discriminants and TryFrom<u32>"])

prop("C25", "The command-line tool reports what the library reads",
 "The command-line tool's listing, inspection, information and decoding of a file agree with the library on the same file: list has one line per submessage with its true index, parameter, template and point data; inspect shows the section sequence and templates; decode prints every point's coordinates and value in scanning order, or writes all values as 32-bit floats of the requested byte order, for exactly the requested submessage. Requests for a submessage that does not exist, unreadable files and undecodable fields end with an error message and a non-zero exit status, never a panic. (Failures of the standard output itself are not part of this.)",
 ["inputs", "configurations"], "all readable files, submessage indices and option combinations",
 "The CLI tests run a handful of sample files and compare fixed texts.",
 ["cli/src/commands/list.rs", "cli/src/commands/inspect.rs", "cli/src/commands/info.rs", "cli/src/commands/decode.rs", "cli/src/cli.rs"], [("argument parsing", "cli/src/cli.rs"), ("formatting", "cli/src/commands")],
 ["stdout, output files and exit status of gribber"])

prop("C26", "Every way of consuming an iterator delivers the same sequence",
 "The library's iterators - over decoded values, grid index pairs, coordinates, sections and submessages - each deliver one fixed sequence, and every way of consuming one agrees with it: calling next, skipping with nth or skip, stepping, taking, counting, asking for the last item, collecting or folding what is left, and going on after any mixture of these. A position past the end (however large) yields nothing, and so does everything after it. A clone goes on from where its original stands and neither disturbs the other; decoding, or asking for an iterator, once more starts the same sequence again.",
 ["histories", "inputs"], "all sequences of operations on every kind of iterator, with any arguments up to the largest",
 "Tests consume iterators from beginning to end with next or collect; histories with skips, clones and arguments beyond the end are not tried.",
 ["src/decoder.rs", "src/decoder/bitmap.rs", "src/decoder/simple.rs", "src/decoder/stream.rs", "src/decoder/complex.rs", "src/grid.rs", "src/reader.rs", "src/parser.rs", "src/context.rs"],
 [("value iterators", "src/decoder/bitmap.rs"), ("index iterator", "src/grid.rs GridPointIndexIterator"), ("submessage iterator", "src/context.rs SubmessageIterator")],
 ["items, counts and announced numbers of the iterators"])

prop("C27", "The library behaves the same however it is built",
 "With or without the optional projection feature (it is off by default), optimised without overflow checks and debug assertions as well as with them, and on a 32-bit target (where offsets, sizes and numbers of points may exceed a machine word) as on a 64-bit one, the library gives the same sections, submessages, headers, values, grid shapes, point orders, coordinates and errors, and so does the tool built on it. The one difference: without the feature, coordinates of polar stereographic and Lambert grids whose point order is available are refused as not supported - never given, never another error - while those of regular and Gaussian grids are given as ever, and the tool then prints values with NaN for coordinates. JPEG 2000 data, where its decoder is not available (WebAssembly), are likewise refused as not supported.",
 ["configurations", "inputs"], "all readable and damaged files under every combination of feature, build profile and word size considered",
 "The tests run in one profile and one set of features, so code that only another build compiles or that relies on debug assertions is never run.",
 ["src/datatypes/sections.rs", "src/grid/lambert.rs", "src/grid/polar_stereographic.rs", "src/grid/helpers.rs", "cli/src/commands/decode.rs"],
 [("feature gates", "src/datatypes/sections.rs GridDefinitionTemplateValues::latlons"), ("overflow and assertion checks", "arithmetic throughout src"), ("word size", "usize conversions in src/reader.rs, src/grid.rs, src/context.rs, src/decoder")],
 ["every public result of the library under each build", "gribber's output under each build"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
