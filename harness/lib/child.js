"use strict";
// A stand-in for `exiftool -stay_open True -@ -`: reads commands from stdin and
// answers as the harness says. Everything happens on the harness's timers, and
// no process is started or signalled.
const { EventEmitter } = require("node:events");
const PID0 = 1 << 30; // above any real process id

class FakeStream extends EventEmitter {
  constructor(h) {
    super();
    this.h = h;
    this.destroyed = false;
    this.writable = true;
    this.decoder = null;
  }
  setEncoding(enc) {
    this.decoder = new (this.h.pkg("node:string_decoder").StringDecoder)(enc);
    return this;
  }
  unref() {}
  ref() {}
  destroy() {
    this.destroyed = true;
    this.writable = false;
  }
  push(data) {
    if (this.destroyed) return;
    this.emit("data", this.decoder === null ? data : this.decoder.write(data));
  }
}
class FakeChild extends EventEmitter {
  constructor(h, pool, n) {
    super();
    this.h = h;
    this.pool = pool;
    this.n = n;
    this.pid = PID0 + n;
    this.exitCode = null;
    this.signalCode = null;
    this.commands = [];
    this.killed = false;
    this.alive = true;
    this.buf = "";
    this.busy = false;
    this.stdout = new FakeStream(h);
    this.stderr = new FakeStream(h);
    this.stdin = new FakeStream(h);
    this.stdin.write = (s, cb) => {
      this.buf += s;
      if (cb) Promise.resolve().then(() => cb());
      this.pump();
      return true;
    };
    this.stdin.end = (s) => {
      this.ended = s ?? "";
      this.stdin.writable = false;
      if (this.pool.obeys !== false && /^-stay_open\nFalse\n$/.test(this.ended)) h.timers().set(() => this.exit(0, null), 1, [], false);
    };
  }
  unref() {}
  ref() {}
  kill(sig) {
    this.pool.kills.push([this.n, sig]);
    if (this.pool.unkillable && sig !== "SIGKILL") return true;
    this.h.timers().set(() => this.exit(null, sig ?? "SIGTERM"), 1, [], false);
    return true;
  }
  exit(code, signal) {
    if (!this.alive) return;
    this.alive = false;
    this.exitCode = code;
    this.signalCode = signal;
    this.stdout.destroyed = this.stderr.destroyed = true;
    this.emit("exit", code, signal);
    this.emit("close", code, signal);
  }
  pump() {
    if (this.busy || !this.alive) return;
    const i = this.buf.indexOf("-execute\n");
    if (i < 0) return;
    const cmd = this.buf.slice(0, i + 9);
    this.buf = this.buf.slice(i + 9);
    const args = cmd.split("\n").slice(0, -2);
    this.busy = true;
    const startup = this.commands.length === 0;
    this.commands.push(args);
    const events = (args.length > 0 && args.every((a) => a === "-ver" || a === "-ignoreMinorErrors") ? this.pool.version?.(this, startup) : undefined) ?? (args[0] === "-ver" ? [["out", "13.59\n{ready}\n"]] : this.pool.answer(args, this));
    this.deliver(events);
  }
  // events: [stream, data, delay]; "exit" ends the process, "hang" never answers
  deliver(events) {
    if (events.length === 0) {
      this.busy = false;
      this.pump();
      return;
    }
    const [kind, data, ms = 0] = events[0];
    this.h.timers().set(
      () => {
        if (!this.alive) return;
        if (kind === "hang") return;
        if (kind === "exit") return this.exit(data ?? 1, null);
        try {
          (kind === "out" ? this.stdout : this.stderr).push(data);
        } catch (e) {
          if (e instanceof Error) this.pool.crashed ??= e;
          else throw e;
        }
        this.deliver(events.slice(1));
      },
      ms,
      [],
      false,
    );
  }
}
// pool.answer(args, child) -> events; options for ExifTool
function fakePool(h, options, answer) {
  const pool = { answer, children: [], kills: [], crashed: undefined };
  h.onKill((pid, sig) => {
    const c = pool.children.find((x) => x.pid === pid && x.alive);
    if (c === undefined) throw Object.assign(new Error("kill ESRCH"), { code: "ESRCH" });
    if (sig === 0) return true;
    return c.kill(sig);
  });
  const ExifTool = h.entry("ExifTool", "ExifTool");
  const et = new ExifTool({
    checkPerl: false,
    taskRetries: 0,
    processFactory: () => {
      const c = new FakeChild(h, pool, pool.children.length);
      pool.children.push(c);
      return c;
    },
    ...options,
  });
  return { et, pool };
}
module.exports = { fakePool, FakeChild };
