#!/usr/bin/env python3
"""Writes properties.jsonl (the list of properties is kept here in a reviewable form)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
               "observe_at": observe, "hook_needed": hook}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

prop("C01", "SubRip files are read faithfully",
     "For every well-formed SubRip document the reader reports exactly the cues in the file, in order, each with its start and end time to the millisecond and each text run, in order and unaltered apart from markup, on the right row counted from the top of the subtitle (a Unicode LINE SEPARATOR also starts a new row; the right-to-left embedding mark U+202B is dropped). "
     "Bold, italic, underline and colour of every run are those set by the <>, {} and {\\\\} tags that precede it in the same cue (case-insensitive, carried across the rows of the cue, which ends at the first empty line; </font> returns to the enclosing font colour, or white when none is open), and {\\\\an}, {\\\\pos}, {\\\\fs} give its alignment, position and size. "
     "Every cue starts again from the defaults, and anything the file does not state (font, size, effect, fades, screen height) is reported as unspecified.",
     ["inputs"], "all well-formed .srt documents: any number of cues, rows, nested or unbalanced tags in any order and case, colour notations, separators, blank lines, counters, coordinates",
     "The tests read four small fixed files and about twenty fixed lines; they never combine tags with several rows, unmatched closers, tags in mid-line, nested colours over rows, or long documents.",
     ["src/subrip_reader.cc", "src/ssa_reader.cc", "src/colour.cc", "src/sub_time.cc", "src/util.cc"],
     [("COUNTER/METADATA/CONTENT state machine", "src/subrip_reader.cc SubripReader::read"),
      ("inline markup scanner with colour stack", "src/subrip_reader.cc SubripReader::convert_line"),
      ("time parser", "src/subrip_reader.cc SubripReader::convert_time"),
      ("run emission", "src/subrip_reader.cc SubripReader::maybe_content")],
     ["SubripReader(std::string).subtitles()"],
     [("rs", "style and position carried across the rows of one cue", "src/subrip_reader.cc read")])

prop("C02", "SSA/ASS files are read faithfully: text, timing and style",
     "For every well-formed SSA/ASS script the reader reports each Dialogue event, in file order, with its exact start and end time and its text split at \\\\n/\\\\N and at override blocks, with nothing lost or added (commas and colons in the text included), while Comment events, comment lines and sections other than Script Info, Styles and Events contribute nothing. "
     "Font name, size relative to the script's vertical resolution (288 if not given), primary and background colour, bold, italic, underline and shadow effect are those of the event's style (looked up by name ignoring leading '*', else Default), whatever order the Format lines put the fields in. "
     "The tags \\\\i, \\\\b, \\\\u, \\\\c and \\\\fs change the style of the text that follows them within the same event only, and tags the library does not implement have no effect.",
     ["inputs"], "all well-formed scripts: any resolution, any set of styles and field orders, any override tags (supported and unsupported) at any place in the text, v4 and v4+ section names",
     "Three small fixed scripts and five fixed lines are tested; the larger fixtures are private and absent. No test permutes Format fields, uses embedded fonts, unsupported tags such as \\\\clip or \\\\fscx, or several styles with different colours.",
     ["src/ssa_reader.cc", "src/raw_convert.cc", "src/locale_convert.cc", "src/util.cc", "src/sub_time.cc"],
     [("section and field parser", "src/ssa_reader.cc SSAReader::read"),
      ("style parser", "src/ssa_reader.cc Style::Style"),
      ("override tag interpreter", "src/ssa_reader.cc SSAReader::parse_tag"),
      ("text/tag/backslash state machine", "src/ssa_reader.cc SSAReader::parse_line")],
     ["SSAReader(std::string).subtitles()", "SSAReader::parse_line", "SSAReader::parse_tag"],
     [("styles", "named styles seen so far", "src/ssa_reader.cc read")])

prop("C03", "SSA/ASS events are placed where the script says",
     "For every SSA/ASS event the horizontal and vertical reference are those of the style's alignment or of the event's \\\\an tag, and the offset from that reference is the applicable margin as a fraction of the script's resolution: the event's MarginL, MarginR or MarginV when it is non-zero (however many digits it is written with), else the style's. "
     "The rows of a multi-row event are spaced 1.2 times the event's font size and stacked so that the block grows down from a top margin, up from a bottom margin, or is centred about mid-screen (where the vertical margin is ignored). "
     "\\\\pos puts the text at that point of the script's resolution measured from the top left, plus the vertical margin if there is one.",
     ["inputs"], "all alignments (1-9, by style and by tag), all margins of style and event, all resolutions, font sizes and numbers of rows, \\\\pos at any point",
     "The tests cover each alignment once with one row at one resolution and three two-row cases; combinations of style alignment, overriding tag, event margins, rows and resolution are not covered.",
     ["src/ssa_reader.cc", "src/horizontal_position.cc", "src/vertical_position.cc", "src/font_size.cc"],
     [("horizontal placement", "src/ssa_reader.cc SSAReader::Context::update_horizontal_position"),
      ("vertical placement and centring", "src/ssa_reader.cc SSAReader::parse_line"),
      ("margin override", "src/ssa_reader.cc SSAReader::read")],
     ["RawSubtitle::horizontal_position and vertical_position from SSAReader(std::string)"])

prop("C04", "WebVTT files are read faithfully",
     "For every WebVTT document made of a WEBVTT header, notes, other metadata blocks and cues with hours:minutes:seconds.milliseconds timings, the reader reports exactly the cues, in order, with exact times and the text of every row verbatim, rows numbered from 0 at the top of the subtitle (a Unicode LINE SEPARATOR also starts a new row). "
     "Notes (blocks that begin with NOTE as a whole word), cue identifiers, header lines and metadata contribute nothing, even when a note contains something that looks like a cue. "
     "A document that does not start with WEBVTT is rejected, and anything the file does not state (font, size, colour, style) is left at its default.",
     ["inputs"], "all documents of that shape: any number and order of notes, metadata blocks and cues, any row text, spacing, optional byte order mark and line ending",
     "One fixed file with two cues is tested.",
     ["src/web_vtt_reader.cc", "src/subrip_reader.cc", "src/util.cc"],
     [("HEADER/DATA/SUBTITLE/NOTE state machine", "src/web_vtt_reader.cc WebVTTReader::read"),
      ("time parser", "src/subrip_reader.cc SubripReader::convert_time")],
     ["WebVTTReader(std::string).subtitles()"])

prop("C05", "Textual STL files are read faithfully",
     "For every textual STL file each subtitle line is reported, in order (including a last line without line terminator), with its start and end hour, minute, second and frame as written whether or not there are spaces around the commas, and with its text split into rows at '|' numbered from 0 at the top of the subtitle and into runs at the ^B, ^I and ^U toggles, each run carrying the style in force at that point on its own row (a ^ before any other character is dropped with it). "
     "$FontName, $FontSize, $Bold, $Italic and $Underlined apply to the subtitles that follow; comments and unrecognised lines contribute nothing and do not disturb the other lines. "
     "Toggles act within their own subtitle, and commas in the text are kept.",
     ["inputs"], "all textual STL files: any mixture of settings, comments, junk lines and subtitles, any number of rows and balanced toggles, any spacing",
     "One fixed file with two subtitles of at most two rows is tested, always with a space before the first comma and a final newline.",
     ["src/stl_text_reader.cc", "src/sub_time.cc", "src/font_size.cc"],
     [("line parser", "src/stl_text_reader.cc STLTextReader::STLTextReader"),
      ("settings", "src/stl_text_reader.cc STLTextReader::set"),
      ("run emission", "src/stl_text_reader.cc STLTextReader::maybe_push")],
     ["STLTextReader(std::istream&).subtitles()"],
     [("_subtitle", "style, row and settings carried between runs and lines", "src/stl_text_reader.h")])

prop("C06", "Binary STL files are read as EBU Tech 3264 lays them out",
     "For every binary STL file with Latin text the reader reports every General Subtitle Information field from its specified place, both as a member and in its metadata, and for every non-comment subtitle its in and out time at the file's frame rate, its justification and its text decoded from ISO 6937, each row at the subtitle's vertical position plus the number of new-line codes before it. "
     "Italic and underline codes apply until switched off within the subtitle, colour codes until the end of the row, and text after the unused-space code is ignored; a subtitle continued in extension blocks is read as one text, and user data blocks are skipped. "
     "When rows lie beyond the maximum number of rows (99 counting as 12) all rows are moved up together so that the lowest is the last one.",
     ["inputs"], "all well-formed files: any frame rate code, GSI contents, number of TTI blocks, control codes, characters and diacritics, vertical positions, comment blocks and extension blocks",
     "Every test of the binary reader needs private files that are not in the repository, so effectively nothing of it is tested.",
     ["src/stl_binary_reader.cc", "src/stl_binary_tables.cc", "src/stl_util.cc", "src/iso6937.cc", "src/iso6937_tables.cc"],
     [("GSI/TTI parser", "src/stl_binary_reader.cc STLBinaryReader::read"),
      ("control codes and row numbers", "src/stl_binary_reader.cc STLBinaryReader::read"),
      ("metadata", "src/stl_binary_reader.cc STLBinaryReader::metadata")],
     ["STLBinaryReader(std::istream&) members, metadata() and subtitles()"])

prop("C07", "Binary STL writing and reading are inverse",
     "Writing any list of subtitles whose text ISO 6937 can represent to a binary STL file and reading that file back gives the same subtitles in the same order: start and end within half a frame at the file's frame rate, the same text on the same rows in the same order, and the same italic and underline on every character, however long the text is (up to the 241 blocks the format allows). "
     "Each row read back is the written position rounded to the file's row grid (or the next free row, if that is not below the row before it), kept on the screen with room for the rows after it; a file so written keeps its rows and times when it is read and written again, and left, centre and right justification survive. "
     "Every descriptive field given to the writer is read back unchanged (padded with spaces).",
     ["inputs"], "all subtitle lists: any times below 24 h given in milliseconds or frames, any supported frame rate, rows, references, block styles, text lengths (0 to many TTI blocks) and representable characters",
     "One fixed list of two short subtitles is written and the result is not even compared; nothing reads a written file back.",
     ["src/stl_binary_writer.cc", "src/stl_binary_reader.cc", "src/iso6937.cc", "src/stl_util.cc", "src/sub_time.cc", "src/collect.h"],
     [("TTI construction", "src/stl_binary_writer.cc make_tti_blocks"),
      ("row mapping", "src/stl_binary_writer.cc vertical_position"),
      ("GSI construction", "src/stl_binary_writer.cc write_stl_binary"),
      ("reader", "src/stl_binary_reader.cc STLBinaryReader::read")],
     ["bytes written by write_stl_binary", "STLBinaryReader on those bytes, collect()"])

prop("C08", "Every binary STL file written is well formed",
     "Whatever subtitles (of at least one row each) it is given, unless it refuses them because the format has no room for them, the writer produces a 1024-byte header followed by whole 128-byte blocks, the header's block count, subtitle count, row count, code page, frame rate, language, date and text fields describe exactly the file that was written, its row length is at least that of the longest row (up to 99), and every text field is space padded within its own bounds. "
     "Every block has in and out times that are valid time codes at the declared frame rate, a row on the screen, a justification matching the subtitle and a not-a-comment flag; a subtitle occupies consecutive blocks numbered from 0, with 255 on the last. "
     "Text contains no code that could be mistaken for a control code, switches italic and underline off again by the end of the subtitle, and is followed only by unused-space codes, of which there is at least one.",
     ["inputs"], "all subtitle lists and header fields accepted by the writer, including text that is long, unrepresentable or full of control characters and times that round up to the next second or minute",
     "One file is written by the tests and not inspected.",
     ["src/stl_binary_writer.cc", "src/stl_binary_tables.cc", "src/stl_util.cc", "src/iso6937.cc", "src/sub_time.cc"],
     [("TTI construction", "src/stl_binary_writer.cc make_tti_blocks"),
      ("GSI construction", "src/stl_binary_writer.cc write_stl_binary"),
      ("fixed width fields", "src/stl_binary_writer.cc put_string, put_int_as_string, put_int_as_int")],
     ["bytes written by write_stl_binary"])

prop("C09", "ISO 6937 conversion is exact, reversible and stateless",
     "Every character of the supported ISO 6937 repertoire decodes to the Unicode character the standard assigns (a diacritical mark and the letter after it to the composed letter), and any text over that repertoire encodes to bytes that decode back to it. "
     "Characters the code cannot represent are left out or replaced by the documented look-alike (dashes, hyphens, low quotation mark, prime) without altering their neighbours; undefined bytes and impossible combinations decode to nothing, likewise without altering their neighbours. "
     "Conversion of a text never depends on what was converted before.",
     ["inputs", "histories"], "all byte strings and all Unicode texts, in any sequence of conversions in one process",
     "Five decoded and six encoded strings are tested, using three diacritics; no undefined byte, and never one conversion after another that could have disturbed it.",
     ["src/iso6937.cc", "src/iso6937_tables.cc", "src/iso6937_tables.h"],
     [("decoder with pending diacritical", "src/iso6937.cc iso6937_to_utf16"),
      ("encoder with table search and substitutions", "src/iso6937.cc utf16_to_iso6937"),
      ("tables", "src/iso6937_tables.cc make_iso6937_tables")],
     ["iso6937_to_utf16", "utf16_to_iso6937"],
     [("iso6937::main, iso6937::diacriticals", "process-wide conversion tables, filled on first use", "src/iso6937_tables.cc")])

prop("C10", "Collecting groups runs into subtitles without loss or reordering",
     "For every list of raw subtitle runs, collecting it yields subtitles whose runs, read off in order, are exactly the given runs sorted by start time with ties in their original order, every run keeping its text and style. "
     "Consecutive runs share a subtitle exactly when their start, end and fade times agree, and share a line exactly when, within one subtitle, they are consecutive and have the same vertical position (proportion, reference and line number all agreeing); a subtitle's times and a line's position are those of its first run. "
     "The result does not depend on the container type asked for.",
     ["inputs"], "all lists of runs: any order, equal and overlapping times, mixed frame rates, repeated and interleaved positions, any styles",
     "collect() is used by the reader tests on a handful of already ordered files; unordered input, ties, interleavings and mixed frame rates are never tried.",
     ["src/collect.h", "src/subtitle.cc", "src/raw_subtitle.cc", "src/sub_time.cc", "src/vertical_position.cc"],
     [("stable sort and grouping", "src/collect.h collect"),
      ("metadata comparison", "src/subtitle.cc Subtitle::same_metadata, Line::same_metadata"),
      ("field copying", "src/subtitle.cc Subtitle, Line and Block constructors")],
     ["collect<std::vector<Subtitle>>", "collect<std::list<Subtitle>>"])

prop("C11", "Times behave like points on one time line",
     "Times that state a frame rate are ordered and compared by the instant they denote, whatever frame rates they are expressed in, so the order is total and transitive and exactly one of <, ==, > holds. "
     "Hours, minutes, seconds, milliseconds, frame counts at another rate and the value in seconds are those of the instant (rounded to the nearest unit), for times built from hours/minutes/seconds with frames or milliseconds or from a frame count. "
     "Adding and scaling give the exact sum or product to within the rounding of one millisecond or one frame (exactly, for sums of times at one common rate), always as a properly carried hours/minutes/seconds/frames value, and an operation that needs a frame rate the time does not have raises an error.",
     ["inputs"], "all times from 0 to 100 hours at all usual integer and fractional frame rates, all pairs and triples of them, all scale factors from 0.1 to 10",
     "About fifteen fixed values are tested, and never a comparison between different frame rates or a scale that rounds up to a full second.",
     ["src/sub_time.cc", "src/sub_time.h", "src/rational.cc", "src/rational.h"],
     [("comparison", "src/sub_time.cc operator<, operator>, operator=="),
      ("conversion", "src/sub_time.cc hours, minutes, seconds, frames_at, milliseconds, all_as_seconds"),
      ("arithmetic", "src/sub_time.cc add, scale, from_frames")],
     ["sub::Time public interface"])

prop("C12", "Any input is read or rejected cleanly",
     "Whatever bytes a reader is given as a SubRip, SSA/ASS, WebVTT, textual STL or binary STL file, it terminates and either returns subtitles or raises an exception derived from std::exception; it never reads or writes outside its memory, crashes, aborts or loops. "
     "Whatever a reader has accepted can be collected, dumped and written as binary STL with the same guarantee.",
     ["inputs"], "all byte strings (valid, corrupted and arbitrary) for each of the five readers, and every further processing of what they return",
     "The tests feed well-formed files almost exclusively; memory errors on malformed input show only by generating malformed input under a sanitizer.",
     ["src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc", "src/stl_binary_writer.cc", "src/iso6937.cc", "src/util.cc"],
     [("input validation by exceptions and SUB_ASSERT", "src/exceptions.h, src/sub_assert.h"),
      ("line and block input", "src/util.cc get_line_string, get_line_file; src/stl_binary_reader.cc InputReader")],
     ["reader constructors, collect, dump and write_stl_binary under address and undefined-behaviour sanitizers"])

prop("C13", "A document reads the same however it is supplied",
     "The subtitles read from a document are the same whether it is supplied as a string, an open C file or a C++ stream, and whatever the length of its lines. "
     "They are also the same with LF or CRLF line endings, with or without a leading UTF-8 byte order mark (text formats that accept one), and with or without a terminator on the last line. "
     "A document that is rejected from one source is rejected, for the same reason, from the other.",
     ["inputs", "configurations"], "all documents of all formats, line lengths from 0 to many kilobytes, all combinations of source, line ending, byte order mark and final terminator",
     "Each test uses one source per file, and no file in the repository has a line longer than about 200 bytes or CRLF line endings in every format.",
     ["src/util.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc"],
     [("line input", "src/util.cc get_line_string, get_line_file, remove_unicode_bom"),
      ("block input", "src/stl_binary_reader.cc StreamInputReader, FILEInputReader")],
     ["reader constructors taking std::string, FILE* and std::istream"])

prop("C14", "Malformed input is reported precisely",
     "When a SubRip file has a malformed timing line or font colour the reader raises its SubRip error carrying the number of the offending line of the file, a message quoting what was seen, and a context that contains the offending line and the lines just before it; a WebVTT file likewise raises its WebVTT error with message and context, and a missing header its own error. "
     "A binary STL file that is cut short at any byte or holds an undefined code in its header or an undefined comment flag raises an STL error, and an SSA/ASS colour that does not begin with &H where that is expected an SSA error; an SSA/ASS line that is not a name followed by a colon, a style or event with fewer fields than its Format, or an event time that is not of four parts is refused with an error too. "
     "A textual STL file never loses a good line because of an unrecognised one.",
     ["inputs"], "all positions and kinds of a single fault in an otherwise well-formed document, and all truncation points of a binary file",
     "One private (absent) file checks that an error is raised; line numbers, messages, contexts and truncation are not tested.",
     ["src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/ssa_reader.cc", "src/stl_binary_reader.cc", "src/stl_text_reader.cc", "src/exceptions.cc", "src/exceptions.h", "src/compose.hpp", "src/stl_binary_tables.cc"],
     [("line counting and context window", "src/subrip_reader.cc read; src/web_vtt_reader.cc read"),
      ("error classes", "src/exceptions.cc"),
      ("short read detection", "src/stl_binary_reader.cc InputReader::read")],
     ["exception type, what(), line_number(), context()"])

prop("C15", "The right reader is chosen for a file and nothing is leaked",
     "Opening a file by name gives, whatever the case of its extension, the same subtitles as the reader for its format: SubRip for .srt, and for .stl binary STL when the header has the STL disk format code and textual STL otherwise; a file with an unknown extension yields no reader. "
     "A file that is missing, malformed or cannot be read (a directory, say) raises an error. "
     "Whether reading succeeds or fails, no open file is left behind.",
     ["inputs", "histories"], "all names, extensions and contents (well-formed, malformed, empty, short, missing), in any sequence of openings",
     "reader_factory is not called by any test.",
     ["src/reader_factory.cc", "src/stl_binary_reader.cc", "src/stl_text_reader.cc", "src/subrip_reader.cc"],
     [("extension and header detection", "src/reader_factory.cc reader_factory"),
      ("file handling", "src/reader_factory.cc reader_factory")],
     ["reader_factory(path)", "open descriptors of the process"])

prop("C16", "Results do not depend on the process locale",
     "Reading any subtitle file, converting ISO 6937 text and writing a binary STL file give exactly the same subtitles, metadata and bytes whatever locale the process has selected, in particular with another decimal point, digit grouping or letter-case rules.",
     ["inputs", "configurations"], "all documents of all formats with fractional positions and sizes, large numbers and upper-case tags, in locales with comma decimals, grouping separators and Turkish case mapping",
     "All tests run in the C locale.",
     ["src/raw_convert.cc", "src/locale_convert.cc", "src/stl_binary_writer.cc", "src/stl_binary_reader.cc", "src/subrip_reader.cc", "src/reader_factory.cc"],
     [("decimal point adaptation", "src/raw_convert.cc make_local, make_raw"),
      ("number formatting", "src/stl_binary_writer.cc put_int_as_string; src/stl_binary_reader.cc metadata"),
      ("case folding", "src/subrip_reader.cc convert_line; src/reader_factory.cc")],
     ["readers, metadata() and write_stl_binary after setlocale/std::locale::global"])

prop("C17", "Results do not depend on what the process did before",
     "In any sequence of reads (successful or failing), conversions and writes in one process, every operation gives exactly the result it would give as the first operation of a fresh process. "
     "Reading the same document again gives the same subtitles, and writing the same subtitles again gives the same bytes.",
     ["histories"], "all sequences of operations over all formats, including malformed files and undefined characters",
     "Every test case runs a few operations on fixed data; shared state such as the conversion tables is set up once by the test fixture before any test.",
     ["src/iso6937.cc", "src/iso6937_tables.cc", "src/stl_binary_writer.cc", "src/stl_binary_reader.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/stl_text_reader.cc", "src/web_vtt_reader.cc"],
     [("process-wide tables", "src/iso6937_tables.cc"),
      ("per-object state only", "reader classes; src/stl_binary_writer.cc buffers")],
     ["any public operation, in a used process and in a fresh one"],
     [("iso6937::main, iso6937::diacriticals", "process-wide conversion tables", "src/iso6937_tables.cc")])

prop("C18", "Writing binary STL succeeds completely or reports failure",
     "If writing returns normally, the named file holds exactly the complete file, whatever it held before. "
     "A header field that does not fit its space, a date or country code of the wrong length, a revision number over 99, or subtitles whose text or number the format has no room for (over 241 blocks for one, over 99999 in all) are refused with an error before the file is touched. "
     "If the file cannot be created, or the device fails or fills up at any point, an error is raised.",
     ["inputs", "fault_sequences"], "all lengths of every header field, all previous contents, missing directories, and write failure after any number of bytes",
     "The one test writes short fields to a writable place.",
     ["src/stl_binary_writer.cc", "src/sub_assert.h"],
     [("field checks", "src/stl_binary_writer.cc write_stl_binary"),
      ("file output", "src/stl_binary_writer.cc write_stl_binary")],
     ["write_stl_binary: exception or return, and the file afterwards"])

prop("C19", "STL code tables are consistent",
     "Every language has exactly one two-character file code and one description, the codes, languages and descriptions correspond one to one in every direction, and they are those of EBU Tech 3264. "
     "The codes for display standard, language group, timecode status, cumulative status, justification and comment flag, and the disk format codes for frame rates, likewise decode to the value with the matching description and encode back to the same code, and any other code is refused with an STL error.",
     ["inputs"], "all codes (every one- and two-character string, every byte), all values of every enumeration, all descriptions and frame rates",
     "No test looks at the tables; one language is written once.",
     ["src/stl_binary_tables.cc", "src/stl_binary_tables.h", "src/stl_util.cc"],
     [("tables", "src/stl_binary_tables.cc STLBinaryTables::STLBinaryTables"),
      ("lookup", "src/stl_binary_tables.cc file_to_enum, enum_to_file, enum_to_description, description_to_enum"),
      ("frame rates", "src/stl_util.cc")],
     ["STLBinaryTables public interface", "stl_frame_rate_to_dfc, stl_dfc_to_frame_rate"])

prop("C20", "Positions, sizes and colours convert and compare consistently",
     "A vertical position's distance from the top of the screen is that of its reference point plus or minus its offset, whether given as a proportion or as a row of a number of rows, and vertical positions are ordered by it; a position that is not fully known counts as the top and never fails. "
     "A font size converts between points and proportion of screen height and back without changing, and is equal only to a size given by the same values; horizontal positions are equal when they have the same reference and are less than one pixel apart at 2K. "
     "Hexadecimal colours give each component as its value over 255 and anything else is refused. "
     "The names top, center and bottom of vertical references and none, border and shadow of effects are understood and any other is refused; a string is white space when it holds nothing but spaces, tabs and line feeds.",
     ["inputs"], "all references, proportions, rows and row counts, screen heights, font sizes and colours",
     "Eight fixed comparisons of vertical positions are tested; font size conversion and horizontal comparison are not.",
     ["src/vertical_position.cc", "src/horizontal_position.cc", "src/font_size.cc", "src/colour.cc", "src/effect.cc", "src/vertical_reference.cc", "src/util.cc"],
     [("vertical position", "src/vertical_position.cc"), ("horizontal position", "src/horizontal_position.cc"),
      ("font size", "src/font_size.cc"), ("colour", "src/colour.cc")],
     ["VerticalPosition, HorizontalPosition, FontSize, Colour public interfaces, string_to_vertical_reference, string_to_effect, empty_or_white_space"])

prop("C21", "Converting between formats keeps what both can express",
     "Reading any SubRip, SSA/ASS, WebVTT or binary STL document, collecting it and writing it as binary STL gives a file that, read back, has the same subtitles in the same order with times within half a frame and the same rows of text in the same order, each with the same italic and underline. "
     "This holds whether positions are proportions or rows, known or unknown, and no row is ever joined to its neighbour.",
     ["inputs"], "all well-formed documents of those formats whose text ISO 6937 can represent, at every supported frame rate",
     "No test converts from one format to another.",
     ["src/stl_binary_writer.cc", "src/stl_binary_reader.cc", "src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/collect.h", "src/iso6937.cc"],
     [("readers", "src/*_reader.cc"), ("grouping", "src/collect.h"), ("writer", "src/stl_binary_writer.cc")],
     ["write_stl_binary(collect(reader.subtitles())) read back with STLBinaryReader"])

prop("C22", "The dump and the dumpsubs tool show what was read",
     "Dumping a reader lists all of its metadata and then every subtitle, numbered from 0 in time order, with its times and one line per row giving the row's position and reference and its text with <i> and <u> marking exactly the italic and underlined parts. "
     "The dumpsubs command prints exactly that for a readable file and exits with success; for anything it cannot read, and for wrong usage, it prints a message on the error stream and exits with a failure status, never by a signal.",
     ["inputs"], "all documents dumpsubs can open, all malformed or missing files and all command lines",
     "dumpsubs has no tests and the dump is only compared for private (absent) files.",
     ["src/util.cc", "tools/dumpsubs.cc", "src/collect.h", "src/sub_time.cc", "src/reader_factory.cc"],
     [("dump", "src/util.cc dump"), ("command", "tools/dumpsubs.cc main")],
     ["dump(reader, stream)", "dumpsubs exit status, stdout, stderr"])

prop("C23", "A subtitle does not depend on its neighbours",
     "For every text format and for binary STL, reading a document that is the concatenation of the entries of two documents gives the entries of the first followed by those of the second: no style, colour, position, row number, timing or text of one cue leaks into another, whatever unbalanced markup it contains. "
     "Reordering or removing entries reorders or removes exactly the corresponding subtitles.",
     ["inputs"], "all pairs of entry lists and all permutations and subsets of an entry list, for SubRip, SSA/ASS, WebVTT, textual STL (with balanced toggles) and binary STL",
     "The tests have a single fixed file in which alignment returns to the default; style leaks and neighbour effects in other formats are not explored.",
     ["src/subrip_reader.cc", "src/ssa_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/stl_binary_reader.cc"],
     [("per-cue reset", "src/subrip_reader.cc read; src/web_vtt_reader.cc read; src/ssa_reader.cc read"),
      ("per-subtitle reset", "src/stl_text_reader.cc; src/stl_binary_reader.cc")],
     ["reader.subtitles() of whole and of parts"])

prop("C24", "Subtitles are equal exactly when all their parts are",
     "Two collected subtitles with known times and positions compare equal exactly when they have the same start, end and fade times (as instants, whatever frame rate states them, an absent fade being equal only to an absent one) and the same number of rows, and each row has an equal position and the same number of runs, each equal in text, font, size, effect, effect colour, colour, bold, italic and underline. "
     "Row positions are equal when the horizontal references are the same and the offsets differ by less than one pixel at 2K, and the vertical references, rows and proportions are the same. Rows, runs and colours compare in the same way by themselves.",
     ["inputs"], "all pairs of collected subtitles, in particular those that differ in exactly one part or state the same thing in different ways",
     "No test compares two subtitles, lines or blocks that differ.",
     ["src/subtitle.cc", "src/subtitle.h", "src/horizontal_position.cc", "src/vertical_position.cc", "src/font_size.cc", "src/colour.cc", "src/sub_time.cc"],
     [("comparisons", "src/subtitle.cc operator== (Subtitle, Line, Block)"), ("positions", "src/horizontal_position.cc operator==, src/vertical_position.cc operator=="),
      ("construction from a run", "src/subtitle.cc Subtitle::Subtitle, Line::Line, Block::Block")],
     ["operator== on Subtitle, Line, Block and Colour"])

prop("C25", "One line of SSA text parses by itself as it does in a script",
     "Parsing one line of SSA text on top of a given starting subtitle gives the line's text split at row breaks and tags with nothing lost or added, starting from the style, position, times and fades that the starting subtitle has and changing only what the line's tags change. "
     "A tag that returns to the default returns to the colour that the caller gives, rows are placed and stacked according to the resolution and margins that the caller gives, and a final line terminator is not text.",
     ["inputs"], "all lines of text, row breaks and tags, all starting subtitles without text, resolutions, margins and default colours",
     "About fifty fixed lines are tested, nearly all from one plain starting subtitle, and mostly for their text alone.",
     ["src/ssa_reader.cc", "src/ssa_reader.h"],
     [("line parser", "src/ssa_reader.cc SSAReader::parse_line"), ("tag interpreter", "src/ssa_reader.cc SSAReader::parse_tag"),
      ("what the caller gives", "src/ssa_reader.h SSAReader::Context")],
     ["SSAReader::parse_line"])

prop("C26", "Threads working on different documents do not affect each other",
     "Reading, collecting, converting and writing unrelated documents at the same time in different threads gives each the result it would have alone, without data races, even when they are the first things the process does. "
     "The same is true of threads that use one reader or one list of subtitles without changing it.",
     ["schedules", "inputs"], "all concurrent programs made of reads, conversions, collections, writes, dumps and look-ups on separate objects, or of uses of one object that do not change it",
     "All tests are single threaded.",
     ["src/iso6937.cc", "src/iso6937_tables.cc", "src/stl_binary_reader.cc", "src/stl_binary_writer.cc", "src/stl_binary_tables.cc", "src/ssa_reader.cc", "src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/raw_convert.cc", "src/locale_convert.cc", "src/util.cc", "src/collect.h", "src/reader_factory.cc"],
     [("tables made at first use", "src/iso6937.cc"), ("no other state outside the objects", "src/*.cc")],
     ["any public operation, from several threads"])

prop("C27", "Nothing is leaked or left behind",
     "Any operation of the library can be repeated for ever in one process: once it has returned or thrown and its results are destroyed, it holds no memory or open file more than before, and it has left no file behind other than the one that it was asked to write. "
     "This is so for operations that succeed and for those that fail: damaged documents, files that cannot be opened, and subtitles that cannot be written.",
     ["fault_sequences", "inputs", "histories"], "all sequences of reads, openings, conversions, collections, writes, dumps and look-ups, with well-formed and damaged documents, refused arguments and failing output",
     "The tests do not look at resources at all, and hardly test failures.",
     ["src/stl_binary_writer.cc", "src/reader_factory.cc", "src/stl_binary_reader.cc", "src/ssa_reader.cc", "src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/iso6937.cc", "src/util.cc"],
     [("blocks to be written", "src/stl_binary_writer.cc make_tti_blocks"), ("files opened by name", "src/reader_factory.cc reader_factory"), ("buffers of readers", "src/stl_binary_reader.cc; src/util.cc")],
     ["allocated memory, open descriptors and files after any public operation"])

prop("C28", "Running out of memory is reported and does no harm",
     "If an allocation is refused at any point of any operation, the operation ends with an exception derived from std::exception (when dumping, possibly with the stream failed instead) or gives the result that it gives otherwise; it never crashes or returns something else, it loses no memory and leaves no file open. "
     "Afterwards every operation works as it does in a process where this has not happened, even if the one that failed was the first.",
     ["fault_sequences", "inputs"], "every allocation made by reads, openings, conversions, collections, writes and dumps, refused alone or with all later ones",
     "The tests never make an allocation fail.",
     ["src/iso6937.cc", "src/iso6937_tables.cc", "src/stl_binary_reader.cc", "src/stl_binary_writer.cc", "src/stl_binary_tables.cc", "src/ssa_reader.cc", "src/subrip_reader.cc", "src/web_vtt_reader.cc", "src/stl_text_reader.cc", "src/collect.h", "src/util.cc", "src/reader_factory.cc"],
     [("tables made at first use", "src/iso6937.cc ensure_tables; src/iso6937_tables.cc"), ("stream errors", "src/stl_text_reader.cc; src/stl_binary_writer.cc"), ("ownership", "src/stl_binary_reader.cc InputReader; src/stl_binary_writer.cc make_tti_blocks; src/reader_factory.cc")],
     ["outcome, allocated memory and open descriptors of any public operation under allocation failures"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        p["statement"] = p["statement"].replace("\\\\", "\\")
        p["quantifier"]["text"] = p["quantifier"]["text"].replace("\\\\", "\\")
        p["why_tests_cant"] = p["why_tests_cant"].replace("\\\\", "\\")
        f.write(json.dumps(p) + "\n")
