// Simulated host for W02. stdin: u32 length of a JSON header {sizes:[...], plans:[{mod, stop}]}, the header, the modules.
// Every host call a module makes is recorded; `stop` > 0 ends the instance at that call. stdout: per plan a JSON line
// with the number of bytes that follow it.
const fs = require('fs');
const all = fs.readFileSync(0);
const n = all.readUInt32LE(0);
const head = JSON.parse(all.subarray(4, 4 + n).toString());
const write = b => { for (let i = 0; i < b.length; ) i += fs.writeSync(1, b, i); };
let at = 4 + n;
const mods = head.sizes.map(s => { const b = all.subarray(at, at + s); at += s; try { return new WebAssembly.Module(b); } catch (e) { return String(e); } });
class Stop extends Error {}
const hex = x => { if (Number.isNaN(x)) return 'nan'; const v = new DataView(new ArrayBuffer(8)); v.setFloat64(0, x); return v.getBigUint64(0).toString(16).padStart(16, '0'); };
for (const plan of head.plans) {
  let out = '', calls = 0, end = 'done', msg = '';
  const put = s => { out += s + '\n'; if (++calls === plan.stop) throw new Stop('stop'); if (calls > 200000) throw new Error('too many calls'); return 0; };
  const imports = { env: { trace_i32: x => put(String(x)), trace_i64: x => put(String(x)), trace_f64: x => put(hex(x)) } };
  try {
    const m = mods[plan.mod];
    if (typeof m === 'string') throw new Error(m);
    const inst = new WebAssembly.Instance(m, imports);
    try { const r = inst.exports.entry(); out += String(r) + "\n"; } catch (e) {
      msg = String(e);
      end = e instanceof Stop ? 'stop' : e instanceof WebAssembly.RuntimeError ? 'trap' : e instanceof RangeError ? 'stack' : 'error';
    }
  } catch (e) { end = 'invalid'; msg = String(e); }
  const o = Buffer.from(out);
  write(Buffer.from(JSON.stringify({ end, msg, calls, size: o.length }) + '\n'));
  write(o);
}
