"use strict";
const { fakeExifTool, outcome, goodTagName } = require("./lib/et");

exports.assumptions = ["mkdirSync is replaced by a recorder; the BatchCluster only records tasks"];

// Every public place that takes a caller-supplied tag name, and the line of
// the command the accepted name must appear in.
const SITES = {
  write: { call: (h, et, n) => et.write("/f.jpg", h.symObj([[n, "x"]])), line: (n) => "-" + n + "=x" },
  writeNull: { call: (h, et, n) => et.write("/f.jpg", h.symObj([[n, null]])), line: (n) => "-" + n + "=" },
  numericTags: { call: (h, et, n) => et.read("/f.jpg", { numericTags: [n] }), line: (n) => "-" + n + "#" },
  retain: { call: (h, et, n) => et.deleteAllTags("/f.jpg", { retain: [n] }), line: (n) => "-" + n + "<" + n },
  retainSecond: { call: (h, et, n) => et.deleteAllTags("/f.jpg", { retain: ["Artist", n] }), line: (n) => "-" + n + "<" + n },
  extractBinaryTag: { call: (h, et, n) => et.extractBinaryTag(n, "/f.jpg", "/d/o.bin"), line: (n) => "-" + n },
  extractBinaryTagToBuffer: { call: (h, et, n) => et.extractBinaryTagToBuffer(n, "/f.jpg"), line: (n) => "-" + n },
};
const harnesses = {
  validate: {
    claim: "validateTagName accepts exactly the documented grammar",
    bounds: "names of 0..8 UTF-16 code units (thorough: 0..12), every value per unit",
    reach: ["accepted", "rejected"],
    run(h) {
      const validateTagName = h.entry("TagNameValidation", "validateTagName");
      const name = h.str("name", { min: 0, max: h.tier === "thorough" ? 12 : 8 });
      let ok = true;
      try {
        validateTagName(name);
      } catch (e) {
        ok = false;
      }
      h.observe("ok", ok);
      h.reach(ok ? "accepted" : "rejected");
      h.assert(h.eq(ok, goodTagName(h, name)), "validateTagName's verdict differs from the grammar");
    },
  },
  history: {
    claim: "the verdict on a name does not depend on the names checked before it",
    bounds: "three names of 0..3 UTF-16 code units checked in sequence",
    reach: ["end"],
    run(h) {
      const validateTagName = h.entry("TagNameValidation", "validateTagName");
      for (let i = 0; i < 3; i++) {
        const name = h.str("name" + i, { min: 0, max: 3 });
        let ok = true;
        try {
          validateTagName(name);
        } catch (e) {
          ok = false;
        }
        h.assert(h.eq(ok, goodTagName(h, name)), "validateTagName's verdict depends on earlier calls");
      }
      h.reach("end");
    },
  },
  nonString: {
    claim: "validateTagName refuses everything that is not a string",
    bounds: "nullish, boolean, number, object, array, array of a valid name",
    reach: ["rejected"],
    run(h) {
      const validateTagName = h.entry("TagNameValidation", "validateTagName");
      const v = h.choice("v", [undefined, null, true, false, 0, 7, {}, [], ["Artist"], { toString: () => "Artist" }]);
      let ok = true;
      try {
        validateTagName(v);
      } catch (e) {
        ok = false;
      }
      h.assert(!ok, "a non-string was accepted as a tag name");
      h.reach("rejected");
    },
  },
};
for (const site of Object.keys(SITES)) {
  harnesses["site_" + site] = {
    claim: site + ": a tag name outside the grammar rejects and sends nothing; one inside it is sent verbatim",
    bounds: "names of 0..5 UTF-16 code units (thorough: 0..9), every value per unit",
    reach: ["sent", "rejected"],
    async run(h) {
      const { et, sent, fsCalls } = fakeExifTool(h, {});
      const name = h.str("name", { min: 0, max: h.tier === "thorough" ? 9 : 5 });
      const r = await outcome(() => SITES[site].call(h, et, name));
      const good = goodTagName(h, name);
      h.observe("n", sent.length);
      if (sent.length === 0) {
        h.reach("rejected");
        h.assert(!r.ok, "a call that sends nothing must reject");
        h.assert(h.not(good), "a valid tag name was refused");
        h.assert(fsCalls.length === 0, "the file system was touched for a refused tag name");
        return;
      }
      h.reach("sent");
      h.assert(good, "an invalid tag name was sent to ExifTool");
      h.assert(sent.length === 1, "one call sends one command");
      const want = SITES[site].line(name);
      let found = false;
      for (const l of sent[0].command.split("\n")) found = h.or(found, l === want);
      h.assert(found, "the tag name was not sent verbatim");
    },
  };
}
exports.harnesses = harnesses;
