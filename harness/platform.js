// Runs recorded calls in a WebAssembly module: node platform.js MODULE [CALLS OUT]
'use strict';
const fs = require('fs');
const { Worker, isMainThread, workerData, parentPort } = require('worker_threads');

class Abort extends Error {}
class Unsupported extends Error {}
const f64 = new DataView(new ArrayBuffer(8));
function parts(x) {                                   // finite x = m * 2^e
  f64.setFloat64(0, x);
  const b = f64.getBigUint64(0), ex = Number((b >> 52n) & 2047n), fr = b & ((1n << 52n) - 1n);
  const m = ex ? fr | (1n << 52n) : fr;
  return [b >> 63n ? -m : m, (ex || 1) - 1075];
}
function round(m, e) {                  // the double nearest to m * 2^e
  if (m === 0n) return 0;
  const neg = m < 0n; if (neg) m = -m;
  let drop = m.toString(2).length - 53;
  if (e + drop < -1074) drop = -1074 - e;
  let k;
  if (drop <= 0) k = m << BigInt(-drop);
  else {
    const d = BigInt(drop), low = m & ((1n << d) - 1n), half = 1n << (d - 1n);
    k = m >> d;
    if (low > half || (low === half && (k & 1n))) k++;
  }
  const q = e + drop, x = Number(k);                  // q >= -1074: x * 2^q is exact, or overflows
  const r = q > 900 ? x * 2 ** 900 * 2 ** (q - 900) : x * 2 ** q;
  return neg ? -r : r;
}
function fma(x, y, z) {
  const p = x * y;
  if (!Number.isFinite(x) || !Number.isFinite(y)) return p + z;
  if (!Number.isFinite(z)) return z;
  if (x === 0 || y === 0) return p + z;
  const [a, ea] = parts(x), [b, eb] = parts(y), [c, ec] = parts(z);
  let m = a * b, e = ea + eb;
  if (c === 0n) return round(m, e);
  const lo = Math.min(e, ec);
  m = (m << BigInt(e - lo)) + (c << BigInt(ec - lo));
  return round(m, lo);
}
function ldexp(x, n) {
  if (!Number.isFinite(x) || x === 0) return x;
  const [m, e] = parts(x);
  n = Math.max(-5000, Math.min(5000, n));
  if (m.toString(2).replace('-', '').length + e + n > 1100) return x > 0 ? Infinity : -Infinity;
  return round(m, e + n);
}
const rint = (x) => { if (!Number.isFinite(x) || Math.abs(x) >= 2 ** 52) return x; const s = x < 0 || Object.is(x, -0) ? -(2 ** 52) : 2 ** 52; const r = (x + s) - s; return r === 0 ? (s < 0 ? -0 : 0) : r; };
const lib = {
  floor: Math.floor, ceil: Math.ceil, trunc: Math.trunc, sqrt: Math.sqrt, fabs: Math.abs, fmod: (x, y) => x % y, fma, ldexp, scalbn: ldexp, scalbln: ldexp,
  rint, nearbyint: rint, round: (x) => { const t = Math.trunc(x); return Math.abs(x - t) >= 0.5 ? t + Math.sign(x) : t; },
  copysign: (x, y) => (Object.is(Math.sign(y), -0) || y < 0 ? -Math.abs(x) : Math.abs(x)),
  fmin: (x, y) => (x !== x ? y : y !== y ? x : Math.min(x, y)), fmax: (x, y) => (x !== x ? y : y !== y ? x : Math.max(x, y)),
  pow: Math.pow, exp2: (x) => 2 ** x, log2: Math.log2,
};
function imports(module, inst) {
  const env = {};
  for (const i of WebAssembly.Module.imports(module)) {
    if (i.kind !== 'function') continue;
    const n = i.name, d = n.endsWith('f') && lib[n.slice(0, -1)];
    if (n === 'abort' || n === '__assert_fail' || n === '__assert' || n === '_ZSt9terminatev' || n === '__fortify_fail') env[n] = () => { throw new Abort(); };
    else if (lib[n]) env[n] = lib[n];
    else if (n === 'fmaf') env[n] = (x, y, z) => Math.fround(oddSum(x * y, z));
    else if (d) env[n] = (...a) => Math.fround(d(...a));
    else if (n === 'lrint' || n === 'lrintf') env[n] = (x) => rint(x);
    else if (n === 'frexp' || n === 'frexpf') env[n] = (x, p) => {
      let e = 0, m = x;
      if (x !== 0 && Number.isFinite(x)) { const [a, b] = parts(x); const l = a.toString(2).replace('-', '').length; e = b + l; m = ldexp(x, -e); }
      new DataView(inst().memory.buffer).setInt32(p, e, true); return m;
    };
    else env[n] = () => { throw new Unsupported(n); };
  }
  return env;
}
function oddSum(p, z) {                               // p + z rounded to odd: rounding it to float then rounds once
  const s = p + z;
  if (!Number.isFinite(s)) return s;
  const t = s - p, e = (p - (s - t)) + (z - t);
  if (e === 0) return s;
  f64.setFloat64(0, s);
  let b = f64.getBigInt64(0);
  if (!(b & 1n)) b += (e > 0) === (s > 0) ? 1n : -1n;
  f64.setBigInt64(0, b);
  return f64.getFloat64(0);
}
function load(file) {
  const module = new WebAssembly.Module(fs.readFileSync(file));
  let x;
  const inst = new WebAssembly.Instance(module, { env: imports(module, () => x) });
  x = inst.exports;
  x.__wasm_call_ctors();
  return x;
}
function list(x) {
  let t = '';
  for (let i = 0; i < x.plat_count(); i++) {
    const m = new Uint8Array(x.memory.buffer);
    let p = x.plat_name(i), s = '';
    for (; m[p]; p++) s += String.fromCharCode(m[p]);
    t += s + ' ' + x.plat_ok(i) + '\n';
  }
  return t;
}

if (isMainThread && process.argv.length < 4) process.stdout.write(list(load(process.argv[2])));
else if (isMainThread) {
  // the worker makes the calls; when one does not end it is given up and the rest is made by another worker
  const [, , file, calls, out] = process.argv;
  const shared = new SharedArrayBuffer(12), at = new Int32Array(shared);   // calls begun, where this one is, where the outcomes not written yet begin
  fs.writeFileSync(out, '');
  let hangs = 0;
  const start = (from) => {
    const w = new Worker(__filename, { workerData: { file, calls, out, shared, from, skip: hangs > 2 } });
    let last = -1, still = 0;
    const timer = setInterval(() => {
      const now = Atomics.load(at, 0);
      still = now === last ? still + 1 : 0;
      if (still >= (now === from.begun ? 12 : 2)) {
        clearInterval(timer);
        w.removeAllListeners();
        w.terminate().then(() => { hangs++; start({ read: Atomics.load(at, 2), hang: Atomics.load(at, 1), begun: Atomics.load(at, 0) }); });
      }
      last = now;
    }, 5000);
    w.on('error', (e) => { console.error(e); process.exit(3); });
    w.on('exit', (c) => { clearInterval(timer); if (c) process.exit(c); });
  };
  start({ read: 0, hang: -1, begun: 0 });
} else {
  const { file, calls, out, shared, from, skip } = workerData, at = new Int32Array(shared);
  const buf = fs.readFileSync(calls), fd = fs.openSync(out, 'a');
  let x = load(file), sp = x.__stack_pointer.value, pos = from.read, c = 0;
  let chunks = [], size = 0;
  const flush = () => { if (size) fs.writeSync(fd, Buffer.concat(chunks)); chunks = []; size = 0; Atomics.store(at, 2, pos); };
  while (pos < buf.length) {
    const len = buf.readUInt16LE(pos), rec = buf.subarray(pos + 2, pos + 2 + len), mlen = rec.readUInt16LE(8);
    if (size > 1 << 16) flush();
    Atomics.store(at, 1, pos);
    Atomics.add(at, 0, 1);
    new Uint8Array(x.memory.buffer).set(rec, x.plat_in.value);
    let s = 0, r = 0;
    if (pos === from.hang) s = 14;
    else if (skip) s = 255;
    else {
      try { r = x.plat_call(c++ & 1 ? 0xAA : 0x55); } catch (e) {
        s = e instanceof Abort ? 6 : e instanceof Unsupported ? 255 : 11;
        x.__stack_pointer.value = sp;
        if (!(e instanceof Abort) && !(e instanceof Unsupported) && !(e instanceof WebAssembly.RuntimeError) && !(e instanceof RangeError)) throw e;
      }
    }
    if (!x.plat_arena(mlen, r)) s = 254;
    const o = Buffer.alloc(3 + r + mlen);
    o[0] = s; o.writeUInt16LE(r + mlen, 1);
    o.set(new Uint8Array(x.memory.buffer, x.plat_out.value, r + mlen), 3);
    chunks.push(o); size += o.length;
    pos += 2 + len;
  }
  flush();
  fs.closeSync(fd);
}
