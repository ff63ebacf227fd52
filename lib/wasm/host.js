// hosts a WebAssembly build of the library: answers one call per message on stdin/stdout, or runs a self-judging module
const fs = require('fs');
const half = x => x < 0 ? -Math.round(-x) : Math.round(x);
const even = x => { const f = Math.floor(x), d = x - f; return d < .5 ? f : d > .5 ? f + 1 : f % 2 === 0 ? f : f + 1; };
let inst, wrote = '';
const dbl = (p, n) => Array.from(new Float64Array(inst.exports.memory.buffer, p, n));
const str = p => { const m = new Uint8Array(inst.exports.memory.buffer); let e = p; while (m[e]) e++; return Buffer.from(m.subarray(p, e)).toString(); };
const known = {
  fmod: (a, b) => a % b, round: half, rint: even, nearbyint: even, exp2: x => Math.pow(2, x), fabs: Math.abs, fmin: (a, b) => isNaN(a) ? b : isNaN(b) ? a : Math.min(a, b), fmax: (a, b) => isNaN(a) ? b : isNaN(b) ? a : Math.max(a, b),
  fdim: (a, b) => a > b ? a - b : 0, ldexp: (x, e) => x * Math.pow(2, e), lrint: even, lround: half, copysign: (a, b) => (b < 0 || Object.is(b, -0)) ? -Math.abs(a) : Math.abs(a),
};
const env = new Proxy({
  report: (f, c, v, n, w) => console.log(`FAIL fn=${str(f)} case=${c} why=${str(w)}; values ${dbl(v, n).join(' ')}`),
  count: (f, n) => { total += n; names.push(str(f)); },
}, { get: (t, k) => { if (k in t) return t[k]; for (const b of [k, k.replace(/f$/, '')]) { if (known[b]) return known[b]; if (typeof Math[b] === 'function') return Math[b]; } return undefined; } });
if (process.argv[3] === 'check') { const miss = WebAssembly.Module.imports(new WebAssembly.Module(fs.readFileSync(process.argv[2]))).filter(i => typeof env[i.name] !== 'function').map(i => i.name); if (miss.length) { console.log('the host has no ' + miss.join(' ')); process.exit(1); } process.exit(0); }
let total = 0; const names = [];
inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), { env });
if (process.argv[3]) {
  const [n, seed, only] = process.argv.slice(3).map(Number);
  const bad = inst.exports.judge(n, seed, only === undefined ? -1 : only);
  console.log(`COUNT lane_judgements=${total} helper_calls=${n * names.length}`); console.log('HELPERS ' + names.join(' '));
  if (!bad) console.log('OK');
} else {
  const at = inst.exports.vt_buf(), out = Buffer.alloc(65536), hd = Buffer.alloc(4);
  const full = (b, n) => { let o = 0; while (o < n) { let k; try { k = fs.readSync(0, b, o, n - o); } catch (e) { if (e.code === 'EOF') process.exit(0); if (e.code === 'EAGAIN') continue; throw e; } if (!k) process.exit(0); o += k; } };
  for (;;) {
    full(hd, 4); const n = hd.readInt32LE(0); const m = Buffer.from(inst.exports.memory.buffer);
    full(out, n); out.copy(m, at, 0, n);
    let r; try { r = inst.exports.vt_run(); } catch (e) { r = -1; fs.writeSync(2, 'wasm trap: ' + e + '\n'); }
    out.writeInt32LE(r, 0); if (r > 0) Buffer.from(inst.exports.memory.buffer).copy(out, 4, at, at + r);
    let o = 0, e = r > 0 ? r + 4 : 4; while (o < e) o += fs.writeSync(1, out, o, e - o);
  }
}
