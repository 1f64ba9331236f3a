"use strict";
// Hand-written part of DESIGN.md's property section: the oracle each check compares the code with.
module.exports = {
  C01: "The command text recorded at the process boundary, split into lines the way ExifTool's -@ reader does: exactly the expected number of lines, the file argument absolute, the caller's text in one line, `-execute` once and last. For refusals: nothing recorded. Every UTF-16 unit is symbolic, so CR, LF, NUL, U+2028, lone surrogates, leading dashes and `..` are all values of one query.",
  C02: "The grammar as the documentation states it, written as a formula over code units, against accept/reject and the argument sent; stateful mistakes (a /g regex's lastIndex) are found by three checks in sequence.",
  C03: "`harness/lib/exiftool-ref.js`: a transcription of ExifTool's FilterArgfileLine, -E un-escaping, InflateStruct and list splitting (Perl side), executed symbolically on the argument the code produced; must give back the input.",
  C04: "The published vocabulary and shape rules, written out in the harness; for accepted values the same decoder as C03 (two layers for structure fields); for sequences the rule 'addition followed by a matching removal'.",
  C05: "A per-tag table of what ExifTool must be sent; sign of the reference against sign of the coordinate as an SMT formula; the caller's object compared with a copy.",
  C06: "Sums over the printed lines; reject iff an error line is among stderr. Wordings are those of exiftool's own script.",
  C07: "The classification written as formulas over the line's units (word boundary and case rules), against errors/warnings/rejection of each public call.",
  C08: "The printed JSON value itself, apart from the documented conversions, which the harness's names and values either avoid or spell out.",
  C09: "Reject, or report, whenever the output is for another file, is damaged or has several records; nothing of another file is returned. Oracle: the SourceFile and text the harness made up.",
  C10: "Reference hemisphere and range rules in exact decimal arithmetic (numbers are scaled integers, not floats), against GPSLatitude, GPSLongitude and GPSPosition returned.",
  C11: "degrees + minutes/60 + seconds/3600 as an exact rational, rounded as documented, with ranges and hemispheres; refusal for anything outside.",
  C12: "Minutes of the offset computed from the symbolic digits; ICU's list of zone names for IANA text (`engine/zones.json`).",
  C13: "The calendar as a formula (civil-date encoding); the fields of the text, digit by digit; the epoch as fields minus offset.",
  C14: "Epoch arithmetic in seconds; United States DST rules of the two years written in the harness.",
  C15: "Self-composition: the result computed on a UTC host (or on an ordinary day) equals the one on the symbolic host/day.",
  C16: "The minimum over the offset table, as a formula; documented tag order.",
  C17: "The documented priority list as a chain of choices; local time kept / instant kept as equations on minutes.",
  C18: "Equality of each field with the value before serialisation; plain JSON for the rest.",
  C19: "A counting model of attempts; the stand-in pool settles each task as a symbolic failure pattern and delay say.",
  C20: "Symbolic timers: every timer has a symbolic due time and the solver chooses every order consistent with them; the outcome table in terms of (graceful delay, forceful delay, timeout).",
  C21: "For each option, value = call ?? instance ?? default; the expected argument list is built from these and compared with the recorded command.",
  C22: "base64 of the symbolic digits computed arithmetically in the harness; the repaired text. The Perl filter is taken from the command that is sent and interpreted on symbolic bytes (`harness/lib/perl.js`); counterexamples and witnesses are replayed with Perl and the vendored ExifTool.",
  C23: "Count = 1 and no error line; bytes from the base64 digits; the version text's grammar.",
  C24: "The description the harness put into the -listx text; an in-memory file system with faults.",
  C25: "The real batch-cluster runs on symbolic timers against a stand-in child process (`harness/lib/child.js`) that answers each command with the harness's text, cut and delayed as the symbolic schedule says; the oracle is the text made up for that command's file.",
  C26: "A model of the setting (current value, subscriber list) beside the real one; the documented offset tables filtered by the settings in force; for loggers, the set of levels the logger has.",
  C27: "The documented order as a chain of conditions over the symbolic existence of each candidate; a stand-in file system and process environment.",
  C28: "node:path.win32's own resolve for the expected argument, ASCII case folding and NFC as formulas for the expected match, the documented order for the lookup; platform, os and path modules replaced.",
};
