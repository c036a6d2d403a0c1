// Schema-driven driver over generated TypeScript modules (also used for AssemblyScript through a shim).
// argv: schemas.json  (array of {schema, file, err?}), errors.json, [as]: the modules are translated AssemblyScript
import * as fs from 'fs';
import * as readline from 'readline';
const cfg = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const f64 = new DataView(new ArrayBuffer(8));
const mods = [];
for (const c of cfg) {
  if (!c.file) { mods.push(null); continue; }
  try { let m = await import(c.file); if (c.nsname) m = m[c.nsname]; mods.push(m); } catch (e) { mods.push(null); c.err = String(e && e.stack || e); }
}
fs.writeFileSync(process.argv[3], JSON.stringify(cfg.map(c => c.err || null)));
const AS = process.argv[4] === 'as';
class Refused extends Error { constructor(n) { super(n); this.name = n; } }
const must = (x, n) => { if (!x) throw new Refused(n); return x; };
// how the two languages are called
const A = AS ? {
  write(o, da, tag) { must(o.writeBytesDA(da, tag), 'False'); must(!da.hasError, 'Unreported'); },
  read(c, da) { const m = c.fromBytesDA(da); return must(m, 'Null'); },
  process(da, max) {
    const o = da.currentOffset, l = M.ProcessRawBytesDA(da, max);
    if (max === 1) { // the base class reads one message of whatever type
      const d = new M.DataAccess(da.data); d.currentOffset = o; const m = M.Message.fromBytesDA(d);
      must(l.length ? m && typeOf(m) === typeOf(l[0]) && d.currentOffset === da.currentOffset : m === null, 'Base');
      if (o === 0) { const m = M.Message.fromBytes(da.data); must(l.length ? m && typeOf(m) === typeOf(l[0]) : m === null, 'Base'); }
    }
    return l; },
  pack(l, da, dv) { M.PackMessages(l, new DataView(dv.buffer, dv.byteOffset + da.currentOffset, dv.byteLength - da.currentOffset)); return da.currentOffset + Number(M.GetPackedSize(l)); },
  unpack(da, dv) { return M.UnpackMessages(new DataView(dv.buffer, dv.byteOffset + da.currentOffset, dv.byteLength - da.currentOffset)); },
} : {
  write(o, da, tag) { o.writeBytes(da, tag); },
  read(c, da) { return c.fromBytes(da); },
  process(da, max) { return M.ProcessRawBytes(da, max); },
  pack(l, da, dv) { M.PackMessages(l, da); return da.currentOffset; },
  unpack(da, dv) { return M.UnpackMessages(da); },
};
// what the emulation of AssemblyScript does not know is no outcome of the code
let gap = false;
function note(e) { if (AS && e && (e.name === 'ReferenceError' || e.name === 'SyntaxError' || (e.name === 'TypeError' && !/ of (null|undefined)/.test(e.message)))) { if (!gap) process.stderr.write(String(e.stack).slice(0, 300) + '\n'); gap = true; } }
let toks, pos, out, S, M;
const tok = () => { if (pos >= toks.length) throw new Error('driver: token underrun'); return toks[pos++]; };
const ni = () => parseInt(tok(), 10);
const w = (...a) => { for (const x of a) out.push(String(x)); };
const hex = b => { let s = ''; for (const x of b) s += (x < 16 ? '0' : '') + x.toString(16); return s; };
const unhex = s => { const b = new Uint8Array(s.length / 2); for (let i = 0; i < b.length; i++) b[i] = parseInt(s.substr(2 * i, 2), 16); return b; };
const te = new TextEncoder(), td = new TextDecoder('utf-8', { ignoreBOM: true });
const isEnum = t => S.enums.find(e => e.name === t), isStruct = t => S.structs.find(e => e.name === t);
function rdType(t) {
  const st = isStruct(t);
  if (st) return build(st, new M[t]());
  const x = tok();
  switch (t) {
    case 'string': return td.decode(unhex(x.slice(1)));
    case 'bool': return x !== '0';
    case 'int64': case 'uint64': return BigInt(x);
    case 'float': f64.setUint32(0, Number(x)); return f64.getFloat32(0);
    case 'double': f64.setBigUint64(0, BigInt(x)); return f64.getFloat64(0);
    default: return Number(x);
  }
}
function build(st, o) { for (const [n, t, l] of st.members) { if (l) { const k = ni(); const a = []; for (let i = 0; i < k; i++) a.push(rdType(t)); o[n] = a; } else o[n] = rdType(t); } return o; }
// utf-16 string -> hex utf-8; lone surrogates come out as their own 3-byte form so that they are not hidden
function shex(s) {
  if (typeof s !== 'string') return 'zz';
  let r = ''; const p = x => { r += (x < 16 ? '0' : '') + x.toString(16); };
  for (const ch of s) { const c = ch.codePointAt(0);
    if (c < 0x80) p(c); else if (c < 0x800) { p(0xc0 | c >> 6); p(0x80 | c & 63); } else if (c < 0x10000) { p(0xe0 | c >> 12); p(0x80 | c >> 6 & 63); p(0x80 | c & 63); }
    else { p(0xf0 | c >> 18); p(0x80 | c >> 12 & 63); p(0x80 | c >> 6 & 63); p(0x80 | c & 63); } }
  return r;
}
function prType(t, v) {
  const st = isStruct(t);
  if (st) { if (M[t] && !(v instanceof M[t])) { w('?notstruct'); return; } return pr(st, v); }
  switch (t) {
    case 'string': w('s' + shex(v)); return;
    case 'bool': w(v === true ? '1' : v === false ? '0' : '?' + typeof v); return;
    case 'int64': case 'uint64': w(typeof v === 'bigint' ? v.toString() : '?' + typeof v); return;
    case 'float': if (typeof v !== 'number') { w('?' + typeof v); return; } f64.setFloat32(0, v); if (!Object.is(Math.fround(v), v)) { w('?notfloat'); return; } w(f64.getUint32(0)); return;
    case 'double': if (typeof v !== 'number') { w('?' + typeof v); return; } f64.setFloat64(0, v); w(f64.getBigUint64(0).toString()); return;
    default: w(typeof v === 'number' ? v : '?' + typeof v);
  }
}
function pr(st, o) { for (const [n, t, l] of st.members) { const v = o[n]; if (l) { if (!Array.isArray(v)) { w('?nolist'); continue; } w(v.length); for (const x of v) prType(t, x); } else prType(t, v); } }
const cls = mi => M[S.messages[mi - 1].name];
const mk = mi => build(S.messages[mi - 1], new (cls(mi))());
const typeOf = m => m.getMessageType();
const pmsg = m => { const mi = typeOf(m); w(mi); if (mi >= 1 && mi <= S.messages.length) { if (!(m instanceof cls(mi))) w('?wrongclass'); else pr(S.messages[mi - 1], m); } };
const intact = (u, a, b) => { for (let i = a; i < b; i++) if (u[i] !== 0xAA) return false; return true; };
const ename = e => (e && e.name ? String(e.name) : 'error').replace(/\s/g, '_');
function view() { const vo = ni(), off = ni(), trail = ni(); const d = unhex(tok().slice(1)); const u = new Uint8Array(vo + off + d.length + trail).fill(0xAA); u.set(d, vo + off);
  return { u, off, dv: new DataView(u.buffer, vo, off + d.length), whole: vo === 0 && trail === 0 }; }
const bi = b => b ? 1 : 0;
const ops = {
  W() { const mi = ni(), tag = ni() !== 0, total = ni(), vo = ni(), cap = ni(), off = ni(); const o = mk(mi); const u = new Uint8Array(total).fill(0xAA); const da = new M.DataAccess(new DataView(u.buffer, vo, cap)); if (off) da.currentOffset = off;
    let sz; try { sz = o.getSizeInBytes(); } catch (e) { note(e); sz = -1; }
    try { A.write(o, da, tag); } catch (e) { note(e); w('err', ename(e), sz, sz, bi(intact(u, 0, vo + off) && intact(u, vo + cap, total))); return; }
    const end = da.currentOffset; const ok = end >= off && end <= cap;
    w('ok', sz, sz, end, bi(intact(u, 0, vo + off) && ok && intact(u, vo + end, total)), 'x' + (ok ? hex(u.subarray(vo + off, vo + end)) : '')); },
  R() { const mi = ni(), style = ni(); const v = view(); const da = new M.DataAccess(v.dv); if (v.off) da.currentOffset = v.off; let m, p = '-';
    try { if (style === 1 && v.off === 0) m = cls(mi).fromBytes(v.dv); else if (style === 2 && v.off === 0 && v.whole) m = cls(mi).fromBytes(AS ? v.dv : v.u.buffer); else { m = A.read(cls(mi), da); p = da.currentOffset; } } catch (e) { note(e); w('err', ename(e)); return; }
    v.u.fill(0xEE); if (m === null || m === undefined) { w('err', AS ? 'Null' : 'null'); return; } w('ok', p); pmsg(m); },
  P() { const max = ni(); const v = view(); const da = new M.DataAccess(v.dv); if (v.off) da.currentOffset = v.off; let l; try { l = A.process(da, max); } catch (e) { note(e); w('err', ename(e)); return; } v.u.fill(0xEE); w('ok', da.currentOffset, l.length); for (const m of l) pmsg(m); },
  U() { const v = view(); const da = new M.DataAccess(v.dv); if (v.off) da.currentOffset = v.off; let l; try { l = A.unpack(da, v.dv); } catch (e) { note(e); w('err', ename(e)); return; } v.u.fill(0xEE); w('ok', AS ? '-' : da.currentOffset, l.length); for (const m of l) pmsg(m); },
  K() { const total = ni(), vo = ni(), cap = ni(), off = ni(), n = ni(); const l = []; for (let i = 0; i < n; i++) l.push(mk(ni())); const u = new Uint8Array(total).fill(0xAA); const dv = new DataView(u.buffer, vo, cap); const da = new M.DataAccess(dv); if (off) da.currentOffset = off; let end;
    let sz; try { sz = M.GetPackedSize(l); } catch (e) { note(e); sz = -1; }
    try { end = A.pack(l, da, dv); } catch (e) { note(e); w('err', ename(e), sz, bi(intact(u, 0, vo + off) && intact(u, vo + cap, total))); return; }
    const ok = end >= off && end <= cap; w('ok', sz, end, bi(intact(u, 0, vo + off) && ok && intact(u, vo + end, total)), 'x' + (ok ? hex(u.subarray(vo + off, vo + end)) : '')); },
  Q() { const vo = ni(), off = ni(), trail = ni(), cap = ni(), n = ni(), total = vo + cap + trail; const u = new Uint8Array(total).fill(0xAA); const dv = new DataView(u.buffer, vo, cap); const da = new M.DataAccess(dv); if (off) da.currentOffset = off; const it = []; w('ok'); let bad = false;
    for (let i = 0; i < n; i++) { const mi = ni(), tag = ni() !== 0; const o = mk(mi); it.push([mi, tag]); if (!bad) { try { A.write(o, da, tag); w('w', da.currentOffset); } catch (e) { note(e); bad = true; w('werr'); } } }
    if (bad) return; const end = da.currentOffset, okk = end >= off && end <= cap; w('b', bi(intact(u, 0, vo + off) && okk && intact(u, vo + end, total)), 'x' + (okk ? hex(u.subarray(vo + off, vo + end)) : ''));
    const r = new M.DataAccess(dv); if (off) r.currentOffset = off;
    for (const [mi, tag] of it) { try { if (tag) { const l = A.process(r, 1); w('t', r.currentOffset, l.length); for (const m of l) pmsg(m); } else { const m = A.read(cls(mi), r); w('r', r.currentOffset); pmsg(m); } } catch (e) { note(e); w('rerr'); break; } } },
  D() { const mi = ni(); const style = ni(); let o = new (cls(mi))();
    if (style === 1) { dirty(S.messages[mi - 1], o, 0); o = new (cls(mi))(); } // another instance was modified before
    else if (style === 2 && M.MessageTypeMap) o = new (M.MessageTypeMap.get(mi))();
    const u = new Uint8Array(1 << 16).fill(0xAA); const da = new M.DataAccess(new DataView(u.buffer)); let b = '', sz; try { sz = o.getSizeInBytes(); } catch (e) { note(e); sz = -1; } try { A.write(o, da, true); b = hex(u.subarray(0, da.currentOffset)); } catch (e) { note(e); }
    w('ok', sz, sz, typeOf(o), 'x' + b); pr(S.messages[mi - 1], o); },
  T() { w('ok'); S.messages.forEach((m, i) => { w(m.name, M.MessageType[m.name + 'Type'], typeOf(new (cls(i + 1))())); }); },
};
ops.G = ops.W;
function dirty(st, o, d) { for (const [n, t, l] of st.members) { const sub = isStruct(t); if (l) { if (Array.isArray(o[n])) o[n].push(sub ? new M[t]() : t === 'string' ? 'dirt' : t === 'bool' ? true : (t === 'int64' || t === 'uint64') ? 7n : 7); } else if (sub) { if (d < 20) dirty(sub, o[n], d + 1); } else o[n] = t === 'string' ? 'dirt' : t === 'bool' ? true : (t === 'int64' || t === 'uint64') ? 7n : 7; } }
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
for await (const line of rl) {
  if (!line) continue;
  toks = line.split(' '); pos = 0; out = [];
  const id = tok(), si = ni(), op = tok(); ni(); ni();
  S = cfg[si] && cfg[si].schema; M = mods[si];
  if (!M) w('noschema'); else { try { ops[op](); } catch (e) { process.stderr.write('driver error ' + id + ' ' + (e && e.stack) + '\n'); out = ['drivererr', ename(e)]; note(e); } }
  if (gap) { gap = false; out = ['err', 'Emulation']; }
  // the pipe may take only a part of a long line, or be full
  const reply = Buffer.from(id + ' ' + out.join(' ') + '\n');
  for (let p = 0; p < reply.length;) {
    try { p += fs.writeSync(1, reply, p); }
    catch (e) { if (e.code !== 'EAGAIN') throw e; Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 2); }
  }
}
