#!/usr/bin/env node
// Runs the driver's WebAssembly module: a case a line in, an answer a line out. What ends the module ends this process, with 101.
import fs from "node:fs";
const file = new URL("../../build/wasm/target/wasm32-unknown-unknown/debug/driver_wasm.wasm", import.meta.url);
const module = new WebAssembly.Module(fs.readFileSync(file));
// the clock of chrono is the only thing the module could ask for; nothing of what it runs does
const imports = {};
for (const { module: m, name, kind } of WebAssembly.Module.imports(module))
  if (kind === "function") (imports[m] ??= {})[name] = () => { throw new Error(`import ${m}.${name}`); };
const { memory, room, run, done } = new WebAssembly.Instance(module, imports).exports;

function answer(line) {
  const p = room(line.length) >>> 0;
  new Uint8Array(memory.buffer).set(line, p);
  const q = run(p, line.length) >>> 0;
  const n = new DataView(memory.buffer).getUint32(q, true);
  const out = Buffer.concat([new Uint8Array(memory.buffer).subarray(q + 4, q + 4 + n), Buffer.from("\n")]);
  done(q, n);
  for (let i = 0; i < out.length; ) i += fs.writeSync(1, out, i);
}

const chunk = Buffer.alloc(1 << 20);
let held = [];
for (;;) {
  const n = fs.readSync(0, chunk, 0, chunk.length, null);
  if (n === 0) break;
  let at = 0;
  for (let e; (e = chunk.subarray(0, n).indexOf(10, at)) >= 0; at = e + 1) {
    const line = Buffer.concat([...held, chunk.subarray(at, e)]);
    held = [];
    try {
      if (line.length) answer(line);
    } catch (x) {
      process.stderr.write(`${x}\n`);
      process.exit(101);
    }
  }
  held.push(Buffer.from(chunk.subarray(at, n)));
}
