// node wasm.js <module>: one answer line per request line
"use strict";
const fs = require("fs");
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let ex = null;
function one(line) {
  const req = Buffer.from(line);
  try {
    if (!ex) ex = new WebAssembly.Instance(mod, {}).exports;
    const at = ex.request(req.length);
    new Uint8Array(ex.memory.buffer, at, req.length).set(req);
    const n = ex.run();
    return Buffer.from(new Uint8Array(ex.memory.buffer, ex.response(), n)).toString();
  } catch (e) {
    if (!(e instanceof WebAssembly.RuntimeError)) throw e;
    ex = null; // a trap: start afresh
    return "panic";
  }
}
let buf = "";
const chunk = Buffer.alloc(1 << 16);
for (;;) {
  let n;
  try {
    n = fs.readSync(0, chunk, 0, chunk.length, null);
  } catch (e) {
    if (e.code === "EAGAIN") continue;
    if (e.code === "EOF") break;
    throw e;
  }
  if (n === 0) break;
  buf += chunk.toString("latin1", 0, n);
  let i;
  while ((i = buf.indexOf("\n")) >= 0) {
    fs.writeSync(1, one(buf.slice(0, i)) + "\n");
    buf = buf.slice(i + 1);
  }
}
