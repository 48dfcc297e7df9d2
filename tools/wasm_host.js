// Simulated WASI host. stdin: u32 length of a JSON list of plans, the plans, the module. Every decision is in the
// plans; each one runs in an instance of its own. stdout: per plan a JSON line with the number of bytes that follow it.
const fs = require('fs'), v8 = require('v8');
const all = fs.readFileSync(0);
const n = all.readUInt32LE(0);
const plans = JSON.parse(all.subarray(4, 4 + n).toString());
const write = b => { for (let i = 0; i < b.length; ) i += fs.writeSync(1, b, i); };
let wasm = null, refused = '';
try { wasm = new WebAssembly.Module(all.subarray(4 + n)); } catch (e) { refused = String(e); }
for (const plan of plans) {
  const out = [];
  let mem = null, calls = 0, bad = '', end = 'done', msg = '', growths = 0;
  const fail = m => { if (!bad) bad = m; return 8; };
  const imports = { wasi_snapshot_preview1: { fd_write(fd, iovs, cnt, nw) {
    const act = calls < plan.acts.length ? plan.acts[calls] : plan.rest; calls++;
    if (calls > 20000) { bad = bad || 'too many writes'; throw new Error('stop'); }
    if (fd !== 1) return fail('write to descriptor ' + fd);
    const v = new DataView(mem.buffer), parts = [];
    let total = 0;
    if (cnt < 0 || iovs < 0 || iovs + 8 * cnt > mem.buffer.byteLength || nw < 0 || nw + 4 > mem.buffer.byteLength) return fail('arguments outside memory');
    for (let i = 0; i < cnt; i++) {
      const p = v.getUint32(iovs + 8 * i, true), l = v.getUint32(iovs + 8 * i + 4, true);
      if (p + l > mem.buffer.byteLength) return fail('data outside memory');
      parts.push(Buffer.from(new Uint8Array(mem.buffer, p, l))); total += l;
    }
    if (act < 0) { v.setUint32(nw, 0xdeadbeef, true); return -act; }        // error: the count is not defined
    const k = act === 0 ? 0 : act >= 1000000 ? total : Math.min(act, total); // 0: no progress
    out.push(Buffer.from(Buffer.concat(parts).subarray(0, k)));
    v.setUint32(nw, k, true);
    return 0;
  } } };
  try {
    if (!wasm) throw new Error(refused);
    v8.setFlagsFromString('--wasm-max-mem-pages=' + (plan.pages || 65536));
    for (const i of WebAssembly.Module.imports(wasm)) if (!(i.module in imports) || !(i.name in imports[i.module])) throw new Error('import ' + i.module + '.' + i.name);
    const inst = new WebAssembly.Instance(wasm, imports);
    mem = inst.exports.memory || null;
    const before = mem ? mem.buffer.byteLength : 0;
    try { inst.exports._start(); } catch (e) {
      msg = String(e);
      end = e instanceof WebAssembly.RuntimeError ? 'trap' : e instanceof RangeError ? 'stack' : 'error';
    }
    if (mem && mem.buffer.byteLength > before) growths = 1;
  } catch (e) { end = 'invalid'; msg = String(e); }
  const o = Buffer.concat(out);
  write(Buffer.from(JSON.stringify({ end, msg, bad, calls, growths, size: o.length }) + '\n'));
  write(o);
}
