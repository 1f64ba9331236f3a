"use strict";
// Source of properties.jsonl and MANIFEST.json (see gen.js).
const inputs = (text) => ({ over: ["inputs"], text });
const P = [];
const p = (id, title, statement, quantifier, why_tests_cant, files, mechanism, level_note, extra = {}) =>
  P.push({ id, title, statement, quantifier, why_tests_cant, files, mechanism, level_note, ...extra });

p("C01", "Caller text never becomes an extra ExifTool argument or command",
  "Whatever strings a caller passes as file names, output paths, tag values, list items, structure fields or tag edits, each public call sends ExifTool exactly one command in which every such string stays inside its own single argument, or the call rejects and nothing is sent. File paths always arrive as absolute paths (so they can never be read as options), and any path or raw argument containing CR, LF or NUL is refused.",
  { over: ["inputs", "configurations"], text: "every file name / destination / value string within the stated length bounds (every UTF-16 unit), for every public method, with and without ignoreMinorErrors" },
  "The specs try a handful of newline-bearing examples per call site; injection needs one unlucky character at one unguarded site, which only a claim over every character and every site excludes.",
  ["src/ExifToolTask.ts", "src/WriteTask.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/RewriteAllTagsTask.ts", "src/ExifTool.ts"],
  [{ name: "renderCommand control-character guard", where: "src/ExifToolTask.ts" }, { name: "_path.resolve of every file argument", where: "src/*Task.ts" }, { name: "htmlEncode of values", where: "src/WriteTask.ts" }],
  "All strings up to the stated number of UTF-16 units, every unit value; longer strings are outside the bound. The process boundary (BatchCluster.enqueueTask) is a recorder.");
p("C02", "Tag names outside the documented grammar are never sent",
  "A caller-supplied tag name (write keys, numericTags, retain lists, binary tag names) is accepted exactly when it is a non-empty string of letters, digits and _ : * ? + # ^ - that does not start with '-'; anything else rejects, sends nothing and touches no file. An accepted name reaches ExifTool verbatim, and the verdict on a name never depends on the calls made before it.",
  { over: ["inputs", "histories"], text: "every string up to the stated length at every public site that takes a tag name; sequences of three checks" },
  "The specs list some good and some bad names; the rule quantifies over every string, every entry point and every call history.",
  ["src/TagNameValidation.ts", "src/WriteTask.ts", "src/ReadTask.ts", "src/ExifTool.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts"],
  [{ name: "validateTagName", where: "src/TagNameValidation.ts" }],
  "Names of up to 8 (12 thorough) units at the validator and 5 (9) at each public site, every UTF-16 value per unit.");
p("C03", "Text written with write() is stored by ExifTool unchanged",
  "For every string without '&', NUL, U+001F or unpaired surrogates, write() sends an argument that ExifTool decodes back to exactly that string: as a plain value, as a list element, as a field of a structure, inside a list in a structure, or in a nested structure. Lists keep their length and order, and structures keep their fields.",
  inputs("every string within the stated length bounds, in every position (scalar, list, struct, list of structs, list in struct, nested struct)"),
  "Escaping bugs show up for single characters in single positions (a comma inside a list inside a struct, a leading blank); the round-trip specs exercise a few phrases.",
  ["src/WriteTask.ts", "src/Struct.ts"],
  [{ name: "enc / htmlEncode", where: "src/WriteTask.ts" }],
  "Strings of up to 2-4 units per position, every UTF-16 value. Trusts the transcription of ExifTool's decoder in harness/lib/exiftool-ref.js.");
p("C04", "editTags accepts exactly the safe edits and sends them literally, in order",
  "editTags() accepts an edit exactly when its tag is in the published vocabulary for that operation, its shape is well-formed and its text is a non-empty (for primitive tags) string that ExifTool and XML can preserve; otherwise it rejects and sends nothing. Accepted edits are sent once each, in order, as text ExifTool decodes to exactly the given value (HTML entities stay literal). A sequence in which an addition is followed by a removal matching the same value is rejected, as are write arguments starting with -api or -sep in any letter case.",
  { over: ["inputs", "histories"], text: "every value string in bounds, every vocabulary tag and one-character variations of it, listed malformed shapes, sequences of up to three edits, symbolic write arguments" },
  "The audit behind the vocabulary is about every character and every edit sequence; the specs check chosen ones.",
  ["src/TagEdit.ts", "src/WriteTask.ts", "src/ExifTool.ts"],
  [{ name: "validateTagEdits", where: "src/TagEdit.ts" }, { name: "WriteTask.forTagEdits", where: "src/WriteTask.ts" }],
  "Values of up to 2-6 units depending on the alphabet, sequences of up to 3 edits. Trusts harness/lib/exiftool-ref.js.");

p("C05", "write() sends each tag once, with GPS references that match the coordinates",
  "write() sends every given tag exactly once, in order, with null as an empty value and booleans, numbers and date objects in ExifTool's own syntax; values ExifTool cannot store (NaN, infinities, functions, foreign objects) reject and send nothing. A numeric GPS latitude, longitude or altitude is accompanied by a reference of the same hemisphere/sign unless the caller supplied one, null clears both, and a numeric latitude/longitude pair also sets GPSPosition. The caller's tags object is never modified, so reusing it for another write cannot leak the earlier write's references.",
  { over: ["inputs", "histories", "configurations"], text: "every integer coordinate in range and chosen decimals, every combination of given/absent/null references, value kinds pairwise, sequences of two writes" },
  "A wrong hemisphere depends on the sign, the presence of a reference and earlier writes together; specs write a few fixed places.",
  ["src/WriteTask.ts", "src/ExifTool.ts"],
  [{ name: "GPS reference derivation in WriteTask", where: "src/WriteTask.ts" }],
  "Integer coordinates over their whole range, a few decimals; two tags' value kinds crossed; two-write histories.");
p("C06", "Write outcomes match what ExifTool reported",
  "write(), editTags() and deleteAllTags() reject exactly when ExifTool printed an error on standard error, with the first such error as message and whatever standard output claims; otherwise they resolve with counts equal to the sums of ExifTool's created/updated/unchanged summary lines. Every warning, and every output line that is not a recognised summary, is returned once in warnings and changes no count. rewriteAllTags() resolves exactly when ExifTool reports one created file and no error.",
  { over: ["inputs", "faults"], text: "counts 0..99999, three summary lines in any order, arbitrary unexpected output lines in bounds, every mix of three stderr lines" },
  "A data-losing write reported as successful needs a particular mix of output and error lines; specs only see what the real ExifTool prints for a few files.",
  ["src/WriteTask.ts", "src/RewriteAllTagsTask.ts", "src/ErrorsAndWarnings.ts", "src/ExifToolTask.ts"],
  [{ name: "WriteTask.#parse", where: "src/WriteTask.ts" }],
  "Three summary lines, unexpected lines of up to 6 (8 thorough) printable units, three stderr lines of listed kinds.");
p("C07", "Every stderr line is classified and reported, none invented",
  "A standard-error line with 'warning: ' or 'nothing to write/do' as words is a warning, any other line mentioning error or warning (any letter case) is an error, and other lines are ignored; lines are trimmed, keep their order and are reported once, together with the Error and Warning tags of the output. read() and readRaw() report them in errors/warnings and still return the tags, writes reject on errors, and output that is not JSON rejects with ExifTool's own error when there is one.",
  { over: ["inputs", "faults"], text: "lines consisting of a keyword with arbitrary text of up to two units before and after, three-line sequences with LF/CRLF/blank separators, damaged output texts" },
  "Misclassification depends on letter case, word boundaries and neighbouring lines; specs hold a handful of messages.",
  ["src/ErrorsAndWarnings.ts", "src/ExifToolTask.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/WriteTask.ts"],
  [{ name: "errorsAndWarnings", where: "src/ErrorsAndWarnings.ts" }],
  "Text around the keywords of up to 2 units over printable ASCII and Latin letters; three lines.");
p("C08", "Values read back are the values ExifTool printed",
  "read() returns every tag ExifTool printed, under its own name and no other, with text, numbers, booleans, lists and structures unchanged; only the documented conversions apply (dates/times, GPS, *Valid yes/no words to booleans, binary placeholders to BinaryField with the printed size, placeholder words undef/null/undefined dropped). ExifToolVersion keeps its digits, group prefixes are kept, and readRaw() changes nothing at all.",
  { over: ["inputs", "configurations"], text: "every tag name (within the grammar of ordinary names) and every text value within the stated lengths, integers, booleans, nested lists and structures, with and without -G" },
  "A value mangled by over-eager parsing needs one particular name/value combination; specs check selected tags of selected files.",
  ["src/ReadTask.ts", "src/ReadRawTask.ts", "src/BinaryField.ts", "src/Boolean.ts", "src/JSON.ts"],
  [{ name: "ReadTask#parseTag", where: "src/ReadTask.ts" }],
  "Names of up to 5 (7) units, values of up to 4 (6) UTF-16 units of any value, numbers up to seven digits.");
p("C09", "read() never returns the tags of another file or of damaged output",
  "read() returns tags only when the SourceFile in the output denotes the requested file (the same path up to '.', '..' and repeated separators); tags of any other file reject. Truncated or concatenated output rejects for read() and readRaw(). Reads in flight at the same time each receive the tags of their own file, in any completion order.",
  { over: ["inputs", "schedules", "faults"], text: "every SourceFile spelling within the stated length, every substituted character, every truncation point, either completion order of two reads, swapped replies" },
  "A reply out of step with its request is a race or a fault; the tests only see replies in step.",
  ["src/ReadTask.ts", "src/ReadRawTask.ts", "src/ExifToolTask.ts"],
  [{ name: "SourceFile check in ReadTask#parse", where: "src/ReadTask.ts" }],
  "SourceFile of up to 5 (7) units over the path-significant alphabet, single-character substitutions over every UTF-16 value.");

p("C10", "GPS coordinates read back lie in the right hemisphere or are withheld",
  "When both coordinates are known, read() returns a latitude and longitude whose sign is negative for a south/west reference and otherwise the printed one, mirrored only when the mirror image (and not the coordinate itself) lies within one degree of GeolocationPosition; the returned references name the returned hemispheres. A coordinate missing from GPSLatitude/GPSLongitude is taken from GPSPosition, and none is invented. Out-of-range coordinates, and 0,0 when ignoreZeroZeroLatLon is set, remove every GPS* and Geolocation* tag; what is removed or unreadable is reported in warnings.",
  { over: ["inputs", "configurations"], text: "every coordinate decimal in and beyond its range, every reference spelling listed, GeolocationPosition values, presence combinations, ignoreZeroZeroLatLon" },
  "The sign depends on value, reference and geolocation together, with boundaries at zero, one degree and the range limits; specs use a few cities.",
  ["src/GPS.ts", "src/CoordinateParser.ts", "src/ReadTask.ts"],
  [{ name: "processCoordinate", where: "src/CoordinateParser.ts" }, { name: "parseGPSLocation", where: "src/GPS.ts" }],
  "Decimals with 2-6 places over the whole range; a margin around exactly one degree from GeolocationPosition is excluded. Arithmetic is exact rational, not binary floating point.");
p("C11", "Coordinate text is read as the exact decimal value, with its sign",
  "A coordinate printed in decimal, degrees, degrees-minutes or degrees-minutes-seconds notation, with any supported degree sign and an optional minus sign or N/S/E/W letter in either case, is read as its decimal value to six places, negative for a minus sign (also '-0'), S or W. Text with 60 or more minutes or seconds, or beyond the axis's range, or with other text before or behind the coordinate, is never returned as one. GPSPosition as two decimals or two DMS coordinates is read as that latitude and longitude.",
  inputs("every degree/minute/second combination within and just beyond the limits, fractional digits as bounded, every listed spelling"),
  "Sign and carry mistakes appear for single values (minus zero, 59.9999 seconds, the range limits); specs list a few coordinates.",
  ["src/CoordinateParser.ts", "src/GPS.ts", "src/ReadTask.ts", "src/Number.ts"],
  [{ name: "parseCoordinate / toDecimalDegrees", where: "src/CoordinateParser.ts" }],
  "Up to seven fractional digits of degrees and five of minutes; exact rational arithmetic, compared to within the sixth decimal place.");

p("C12", "Zone text is recognised exactly when it names a zone in use, as that zone",
  "Every spelling of a UTC offset (with or without UTC/GMT prefix, colon, leading zero, Unicode minus), every offset in minutes or hours and every IANA name is recognised exactly when it denotes an offset in use (or enabled through Settings) or an existing zone, and as that zone by normalizeZone, extractZone, offsetMinutesToZoneName and a date-time's suffix alike. Impossible hours or minutes, unused offsets, misspelled names and texts that merely contain a Z are never a zone. A documented abbreviation after a time (PDT, GMT, UTC, in any case) is the documented offset, or the one Settings.tzAbbreviationOffsets gives it. extractZone returns the rest of the text unchanged.",
  { over: ["inputs", "configurations", "histories"], text: "every offset spelling with hours 0..19 and minutes 0..99, every integer offset, quarter hours, IANA names with any one character replaced, archaic and Baker Island settings in either order of change" },
  "The set of zone spellings is large and the failures are single values; specs list a few dozen.",
  ["src/Timezones.ts", "src/Settings.ts", "src/Lazy.ts"],
  [{ name: "normalizeZone / extractZone", where: "src/Timezones.ts" }, { name: "offsetMinutesToZoneName / validTzOffsetMinutes", where: "src/Timezones.ts" }],
  "Offsets exhaustively within +-20 h; IANA names from ICU's list with single-character edits.");
p("C13", "Date and time text is read exactly, or refused, and rendered back the same",
  "Text with a date and time in EXIF, ISO or a supported month-name form is read as exactly those fields, with its own offset if it has one, else the given default zone (marked inferred), else no zone; dates or times that do not exist are refused, never shifted, and a text without a date is never read as one. toISOString and toExifString render exactly the fields and offset and read back as the same value, and the epoch value is the fields minus the offset. ExifDate (full, year-month, year) and ExifTime are read and rendered equally exactly.",
  inputs("every date and time of the stated years and every impossible two-digit field, fractions, zone suffixes, default zones"),
  "Carry, leap-year, padding and offset mistakes show for single dates; specs sample some.",
  ["src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/TimeParsing.ts", "src/DateTime.ts", "src/Timezones.ts"],
  [{ name: "ExifDateTime.from / toISOString / toExifString", where: "src/ExifDateTime.ts" }, { name: "ExifDate.from", where: "src/ExifDate.ts" }, { name: "ExifTime.fromEXIF", where: "src/ExifTime.ts" }],
  "Years 1900..2099 (2..9999 on one day, dates 1000..9999), 24:00 excluded; luxon is executed symbolically with it.");
p("C14", "Changing zones keeps the instant, or the local time of an unzoned date-time",
  "setZone on a zoned ExifDateTime or ExifTime keeps the instant and takes the target zone's offset at that instant; on an unzoned one (or with keepLocalTime) it keeps the local time; milliseconds and rawValue survive and inferredZone says how the zone was found. maybeMatchZone answers exactly when the same instant or the same local time lies within the limit of the target, in the target's zone. plus() moves by exactly the duration and never changes or invents a zone.",
  inputs("every second of two years, source and target zones including one with daylight saving time, durations, match limits"),
  "Day, month and year carries and DST transitions are single instants; specs sample a few.",
  ["src/ExifDateTime.ts", "src/ExifTime.ts", "src/TimeParsing.ts", "src/Timezones.ts"],
  [{ name: "ExifDateTime.setZone / maybeMatchZone / plus", where: "src/ExifDateTime.ts" }],
  "2023 and 2024 (1902..2098 between fixed offsets); fixed offsets and America/Los_Angeles; local times a DST change skips are excluded.");
p("C15", "Unzoned dates and times mean the same on every host and on every day",
  "A date-time without a zone is read, rendered, given a zone, moved by a duration and revived from JSON identically whatever the host's time zone, even for local times the host's clock skips or repeats. A date is the same date on every host. A time of day is read, rendered and given a zone the same on every host and on every day the program runs.",
  { over: ["inputs", "configurations", "histories"], text: "every minute of the months with clock changes, host zones with one-hour, half-hour and whole-day skips, days of clock changes as the current day" },
  "Tests run in one time zone on one day; the failures need a clock change.",
  ["src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/TimeParsing.ts"],
  [{ name: "ExifDateTime#toLocalDateTime", where: "src/ExifDateTime.ts" }, { name: "ExifDate.from", where: "src/ExifDate.ts" }, { name: "ExifTime.setZone", where: "src/ExifTime.ts" }],
  "The host zone is luxon's default zone: Los Angeles, London, Lord Howe, Sao Paulo, Apia, UTC.");
p("C16", "An inferred zone is the nearest offset in use to the observed difference",
  "inferLikelyOffsetMinutes answers a nearest offset in use no farther than the limit (30 minutes, Settings, or as given), and nothing when there is none. The zone inferred from a zoneless capture time and a UTC time is that of local minus UTC, from the first usable capture tag and UTC tag in the documented order, named in src; values with another zone or that are no date-time are passed over, and without a usable pair there is no zone.",
  { over: ["inputs", "configurations", "histories"], text: "every difference to the second, every limit listed, settings changed between calls, any two seconds of three days, all presence combinations" },
  "Midpoints between offsets, day carries and the limit are single values; specs sample some.",
  ["src/Timezones.ts", "src/Array.ts", "src/Settings.ts", "src/CapturedAtTagNames.ts"],
  [{ name: "inferLikelyOffsetMinutes / extractTzOffsetFromUTCOffset", where: "src/Timezones.ts" }],
  "Differences within +-1100 minutes; ties may go to either offset.");
p("C17", "read() takes the zone from the documented first source and applies it exactly",
  "The zone read() reports is the first usable of: GPS location when preferred, TimeZone, OffsetTimeOriginal, OffsetTimeDigitized, TimeZoneOffset, GPS location, a capture time's own non-UTC offset (unless switched off), UTC for videos (unless switched off); tzSource names it, and none is reported when none is usable. Date-times without an offset get that zone with their local time unchanged, marked inferred, only when backfilling is on; ones with an offset keep it; GPS and UTC tags are UTC; in videos read as UTC the instant is kept and shown in the file's zone. Zone values are understood in every form ExifTool prints, and Nikon's DaylightSavings adds its hour to TimeZone.",
  { over: ["inputs", "configurations"], text: "every presence combination of the sources with symbolic offsets, photo or video, the options per instance and per call, every minute of three days" },
  "The outcome depends on the combination of a dozen tags and options; the tests cover some combinations with fixed files.",
  ["src/ReadTask.ts", "src/Timezones.ts", "src/ExifDateTime.ts", "src/DefaultExifToolOptions.ts"],
  [{ name: "ReadTask#extractTzOffset / #parseTag", where: "src/ReadTask.ts" }, { name: "extractTzOffsetFromTags", where: "src/Timezones.ts" }],
  "Whole-hour offsets of 1..9 hours per source, TimeZoneOffset -13..16; ExifTool's JSON as given.");

p("C18", "Tags survive JSON serialisation and revival unchanged",
  "parseJSON of serialised tags revives every ExifDateTime, ExifDate, ExifTime and BinaryField, at any depth, as its class with the same fields, zone, inferred mark and raw text, and invalidUtf8Bytes as byte arrays with the same bytes. Every other value is what plain JSON gives, including objects that carry a _ctor of any other text or type, whatever it names.",
  inputs("every field value within the calendar, raw text of any UTF-16 units, every _ctor text within the stated length, every byte, every nesting listed"),
  "A lost field or a mistaken revival needs one field/absence combination or one _ctor text; specs round-trip a few files.",
  ["src/JSON.ts", "src/ExifDateTime.ts", "src/ExifDate.ts", "src/ExifTime.ts", "src/BinaryField.ts"],
  [{ name: "parseJSON / Revivers", where: "src/JSON.ts" }],
  "Raw text of up to 3 (6) units, _ctor of up to 5 units, up to three bytes.");
p("C19", "Writes are sent exactly once; other calls are retried within their limit",
  "write(), editTags() and deleteAllTags() send their command once and report that attempt's outcome. Every other call is sent again after a failure, at most taskRetries times, one attempt at a time, each with a new task for the same command, stops at the first success, and otherwise reports the last attempt's error. A binary tag that is not in the file is reported after one attempt, a refused call sends nothing, and without perl no command is sent. Concurrent calls do not share their retries.",
  { over: ["inputs", "faults", "schedules", "configurations"], text: "every pattern of failures over the attempts, every taskRetries up to 3, failures at once or after any delay, two calls in flight" },
  "Failure patterns and their timing come from the process pool; the tests rarely make a command fail, and never a write.",
  ["src/ExifTool.ts", "src/AsyncRetry.ts", "src/Which.ts"],
  [{ name: "ExifTool#enqueueTask", where: "src/ExifTool.ts" }, { name: "retryOnReject", where: "src/AsyncRetry.ts" }],
  "taskRetries 0..3; the process pool is a stand-in that settles each task once.");
p("C20", "Ending and disposal: graceful first, forced exactly after the timeout",
  "end() settles as the process pool's end does, gracefully unless told otherwise. Disposal (await using / using) ends gracefully once and asks for forceful cleanup exactly when that has not finished within the configured timeout; asynchronous disposal resolves when either finished and else rejects with the end's own error or the timeout; synchronous disposal never throws and logs failures. An ended instance is not ended again, and no timer is left running.",
  { over: ["schedules", "faults", "configurations"], text: "every delay of 0..10 s (or never) of the graceful and forceful end, success or failure of each, every timeout of 1..10000 ms" },
  "The outcome depends on which timer fires first; the tests use real, fast-ending processes.",
  ["src/ExifTool.ts"],
  [{ name: "ExifTool[Symbol.asyncDispose] / [Symbol.dispose] / end", where: "src/ExifTool.ts" }],
  "Delays up to 10 s in whole milliseconds, ties with the timeout excluded; the process pool is a stand-in.");

p("C21", "Options: the call's, else the instance's, else the default, and only that",
  "Each option that shapes a command (readArgs, writeArgs, numericTags, useMWG, geolocation, keepUTCTime, struct, ignoreMinorErrors, imageHashType and its deprecated includeImageDataMD5, forceWrite, allowMakerNoteRepair) is the call's, else the instance's, else the documented default, and the command sent holds exactly the arguments those options ask for. Options of one call or instance never change another's. The child process is the configured exiftool with the configured arguments, no shell, in an environment of exactly exiftoolEnv, LANG=C and EXIFTOOL_HOME.",
  { over: ["inputs", "configurations", "histories"], text: "every combination of unset / instance / call for each option, the others varied with it, every call form; a call with every option set between two without; two instances" },
  "The option space is a product over three levels and a dozen options; specs set one option at a time, mostly on one level.",
  ["src/ExifTool.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/WriteTask.ts", "src/BinaryExtractionTask.ts", "src/RewriteAllTagsTask.ts", "src/DefaultExifToolOptions.ts", "src/DefaultExiftoolArgs.ts", "src/ExifToolOptions.ts", "src/Pick.ts", "src/Object.ts"],
  [{ name: "ExifTool constructor option merge", where: "src/ExifTool.ts" }, { name: "ReadTask.for / WriteTask.for argument lists", where: "src/ReadTask.ts, src/WriteTask.ts" }],
  "Each option crossed with a vector of the others; options given as explicit undefined are excluded.");
p("C22", "Malformed UTF-8 text keeps its original bytes, and only such text does",
  "read() and readRaw() return a text with malformed UTF-8 as its repaired text, with exactly its original bytes in invalidUtf8Bytes at the same path, at every depth; several such texts each keep their own. Metadata that merely resembles the filter's wrapper, other values, and tags that are not returned have no such bytes. The filter sent to ExifTool leaves valid text and binary values alone, and repairs by dropping NULs and replacing malformed bytes with U+FFFD. It is sent, and its output decoded, exactly unless the caller's readArgs set a Filter of their own.",
  { over: ["inputs", "configurations"], text: "every byte value, every repaired text within the stated length, every position listed, near-miss wrappers with arbitrary units, Filter arguments in any letter case and form" },
  "Base64 decoding, nesting and wrapper recognition fail for single values and shapes; specs use a few files.",
  ["src/InvalidUtf8Bytes.ts", "src/Utf8JsonFilter.ts", "src/ReadTask.ts", "src/ReadRawTask.ts"],
  [{ name: "decodeInvalidUtf8Bytes", where: "src/InvalidUtf8Bytes.ts" }, { name: "Utf8ReplacementFilter", where: "src/Utf8JsonFilter.ts" }],
  "1..4 (7 thorough) bytes, texts of up to 3 units, nesting up to 4. The Perl filter is run by an interpreter for the subset it uses, on 1..3 (4) symbolic bytes.");
p("C23", "Binary extraction and version() report what ExifTool produced, or reject",
  "Extracting a binary tag to a file resolves exactly when ExifTool reports one created file and no error, and otherwise rejects with ExifTool's message. extractBinaryTagToBuffer returns exactly the bytes printed for the asked tag, in any letter case, and rejects when the tag is missing or not binary, never returning another tag's bytes. version() returns exactly the version printed and rejects anything that is none.",
  { over: ["inputs", "faults"], text: "any count, line endings, mixes of standard error lines, every byte value, names one letter off, damaged prefixes and output of any text in bounds" },
  "A failed extraction taken for a success needs a particular output; specs extract a few thumbnails.",
  ["src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/VersionTask.ts", "src/ExifToolTask.ts", "src/ExifTool.ts"],
  [{ name: "BinaryExtractionTask.for", where: "src/BinaryExtractionTask.ts" }, { name: "BinaryToBufferTask#parse", where: "src/BinaryToBufferTask.ts" }, { name: "VersionTask", where: "src/VersionTask.ts" }],
  "Counts 0..99999, 0..5 (8) bytes, texts of up to 3..7 units.");
p("C24", "Tag descriptions are ExifTool's own, in the asked language, cached safely",
  "A tag's description is exactly what ExifTool prints for it in the asked language, entities decoded once; unknown names (even of Object.prototype) and tags without one in that language have none; in English the curated descriptions win. Answers are the same from the disk cache, which is used only when of the same ExifTool version and language and intact; cache trouble is never an error. However many lookups are in flight ExifTool is asked once, and again only after clear().",
  { over: ["inputs", "configurations", "histories", "faults"], text: "descriptions and names of arbitrary text in bounds, languages in either order, a cache cut at every point or with other contents, file-system failures, concurrent lookups" },
  "Entity and cache faults need one character, one cut or one order of loading; specs load the real list once.",
  ["src/TagDescriptions.ts"],
  [{ name: "TagDescriptions", where: "src/TagDescriptions.ts" }],
  "Descriptions of up to 5 units plus an entity, two tags; the cache directory is an in-memory stand-in.");
p("C25", "Each call gets exactly its own output, however it is cut and whatever it says",
  "On one ExifTool process or several, with any number of calls in flight, each call gets exactly its own command's output and warnings, however they are delayed or cut into chunks, mid-character included. Metadata and file names that contain ExifTool's {ready} mark or words of its failures are returned like any other and disturb no call. A call whose process dies or hangs is rejected (a read is first retried), never answered with another's output. end() makes every process exit, settles every call and refuses later ones.",
  { over: ["inputs", "schedules", "faults"], text: "values and file names over the mark's letters, every multi-byte text in bounds, every cut listed, every delay of 0..50 ms, process exit at any point of the answer, one or two processes" },
  "A lost or mixed answer needs a chunk boundary inside one character or mark, or one order of arrivals, which real pipes produce rarely.",
  ["src/ExifToolTask.ts", "src/DefaultExifToolOptions.ts", "src/ExifTool.ts", "src/AsyncRetry.ts", "src/VersionTask.ts"],
  [{ name: "ExifToolTask onStdout / onStderr / #parser", where: "src/ExifToolTask.ts" }, { name: "pass / fail / exitCommand", where: "src/DefaultExifToolOptions.ts" }],
  "Three calls in flight, texts of up to 8 units; batch-cluster is executed as shipped, the child process is a stand-in.");
p("C26", "Settings and loggers take effect at once, everywhere, and reset restores them",
  "A Setting has the last value set or, after reset, its default, and tells exactly its current subscribers of each change, once, with old and new value. Whatever was set and asked before, offsets, abbreviations and zone inference follow the settings in force; Settings.reset() restores all. A logger given as an object or function, to the constructor or Settings.logger, with or without every level, gets the messages of its levels from tasks and process pool, changes at once, and never makes a call fail.",
  { over: ["inputs", "histories", "configurations"], text: "every sequence of sets, resets, subscriptions and questions within the stated length, every offset and difference in bounds, every form of logger" },
  "Stale caches and wrongly wired loggers need an order of change and use; specs change a setting once before use.",
  ["src/Settings.ts", "src/Timezones.ts", "src/ExifTool.ts", "src/DefaultExifToolOptions.ts", "src/Lazy.ts"],
  [{ name: "Setting / Settings", where: "src/Settings.ts" }, { name: "clearOffsetCaches", where: "src/Timezones.ts" }, { name: "ExifTool constructor logger", where: "src/ExifTool.ts" }],
  "Four (6) steps on two settings, two (3) changes before a question.");
p("C27", "The ExifTool that runs is the configured one, else the documented first found",
  "A configured exiftoolPath (text, promise, function or asynchronous function) is what is run, asked for at most once per instance; blank means the default. By default the vendored ExifTool is run, from app.asar.unpacked when a folder of its path is exactly app.asar; when neither is there, the one in Electron's resourcesPath, then the first in PATH that can be read and executed; else the call rejects. Perl is found the same way: an absolute path that can be run, else the first in PATH; by default it runs ExifTool exactly where /usr/bin/perl is missing (never on Windows).",
  { over: ["inputs", "configurations"], text: "paths with arbitrary folder names in bounds, every combination of candidates there or not, every PATH of up to three directories with every access state, every form of the option" },
  "The lookup depends on what exists on the host and on packaging; specs run on one host with everything installed.",
  ["src/ExiftoolPath.ts", "src/Which.ts", "src/ExifTool.ts", "src/IsWin32.ts"],
  [{ name: "exiftoolPath", where: "src/ExiftoolPath.ts" }, { name: "which", where: "src/Which.ts" }, { name: "ExifTool#exiftoolPath / processFactory", where: "src/ExifTool.ts" }],
  "POSIX paths; folder names of up to 8 units, PATH directories of up to 3 (5) units.");

p("C28", "On Windows and macOS file names arrive intact and match as they do there",
  "On Windows every call that names files first tells ExifTool that file names are UTF-8, then names each file by its absolute Windows path in one argument; names with CR, LF or NUL are refused. On Windows and macOS read() takes a SourceFile that differs from the requested file only in letter case (on Windows also in the direction of slashes) for that file, and rejects one that differs in anything else, accents and invisible characters included. On Windows the vendored exiftool.exe is found, unpacked from an asar archive if need be, else the one in Electron's resources, else the first exiftool.exe in PATH.",
  { over: ["inputs", "configurations"], text: "every public call that names files, file names of arbitrary UTF-16 units behind drive, UNC and relative prefixes, every pair of ASCII characters at one place of requested and reported name, every combination of installed candidates" },
  "The suite runs on one operating system, where none of this code is reached.",
  ["src/FilenameCharsetArgs.ts", "src/File.ts", "src/IsWin32.ts", "src/ExiftoolPath.ts", "src/Which.ts", "src/ReadTask.ts", "src/ReadRawTask.ts", "src/WriteTask.ts", "src/BinaryExtractionTask.ts", "src/BinaryToBufferTask.ts", "src/RewriteAllTagsTask.ts"],
  [{ name: "Utf8FilenameCharsetArgs", where: "src/FilenameCharsetArgs.ts" }, { name: "compareFilePaths", where: "src/File.ts" }, { name: "exiftoolPath / which", where: "src/ExiftoolPath.ts" }],
  "Names of up to 2 (3) arbitrary units; the operating system is stood in for by its platform name and its node:path.");

module.exports = { P, NA: [] };
