// Schema-driven driver over Swift modules translated by swift.mjs. argv: cfg.json (array of {schema, file}), errors.json (array of null or [kind, text]).
import * as fs from 'fs';
import * as readline from 'readline';
import * as R from './swift.mjs';
const cfg = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const errs = [];
const mods = cfg.map(c => {
  if (!c.file) { errs.push(null); return null; }
  try { const m = R.load_module(fs.readFileSync(c.file, 'utf8')); errs.push(null); return m; }
  catch (e) { errs.push([e instanceof R.BuildError ? 'build' : 'gap', e instanceof R.BuildError || e instanceof R.Gap ? e.message : String(e && e.stack || e)]); return null; }
});
fs.writeFileSync(process.argv[3], JSON.stringify(errs));
let toks, pos, out, S, M, gap = false;
const tok = () => { if (pos >= toks.length) throw new Error('driver: token underrun'); return toks[pos++]; };
const ni = () => parseInt(tok(), 10);
const w = (...a) => { for (const x of a) out.push(String(x)); };
const hex = b => Buffer.from(b.buffer, b.byteOffset, b.length).toString('hex');
const unhex = s => new Uint8Array(Buffer.from(s, 'hex'));
const isEnum = t => S.enums.find(e => e.name === t), isStruct = t => S.structs.find(e => e.name === t);
const T = n => { const t = M.types[(S.ns ? S.ns + '.' : '') + n]; if (!t) throw new R.Gap('no type ' + n); return t; };
const NAT = { byte: 'UInt8', bool: 'Bool', int16: 'Int16', uint16: 'UInt16', int32: 'Int32', uint32: 'UInt32', int64: 'Int64', uint64: 'UInt64', float: 'Float32', double: 'Float64', string: 'String' };
const I = (t, v) => R.make(t, '_', new R.I(null, BigInt(v)));
const td = new TextDecoder('utf-8', { ignoreBOM: true, fatal: true }), te = new TextEncoder();
function rdType(t) {
  const st = isStruct(t); if (st) return build(st, T(t).init$());
  const x = tok(), e = isEnum(t);
  if (e) { const v = T(t).$all.find(c => c.rawValue.v === BigInt(x)); if (!v) throw new Error('driver: no such enumerator'); return v; }
  switch (t) {
    case 'string': return td.decode(unhex(x.slice(1)));
    case 'bool': return x !== '0';
    case 'float': return R.make('Float32', 'bitPattern', I('UInt32', x));
    case 'double': return R.make('Float64', 'bitPattern', I('UInt64', x));
    default: return I(NAT[t], x);
  }
}
function build(st, o) { for (const [n, t, l] of st.members) { let v; if (l) { const k = ni(); v = []; for (let i = 0; i < k; i++) v.push(rdType(t)); } else v = rdType(t); R.setf(o, n, v); } return o; }
function prType(t, v) {
  const st = isStruct(t), e = isEnum(t);
  if (st) { if (!(v instanceof T(t))) { w('?notstruct'); return; } return pr(st, v); }
  if (e) { if (!(v instanceof T(t))) { w('?notenum'); return; } w(v.rawValue.v); return; }
  switch (t) {
    case 'string': w(typeof v === 'string' ? 's' + hex(te.encode(v)) : '?' + typeof v); return;
    case 'bool': w(v === true ? '1' : v === false ? '0' : '?' + typeof v); return;
    case 'float': case 'double': if (!(v instanceof R.F) || v.t !== NAT[t]) { w('?notfloat'); return; } w(R.get(v, 'bitPattern').v); return;
    default: w(v instanceof R.I && v.t === NAT[t] ? v.v : '?notint');
  }
}
function pr(st, o) { for (const [n, t, l] of st.members) { const v = R.get(o, n); if (l) { if (!Array.isArray(v)) { w('?nolist'); continue; } w(v.length); for (const x of v) prType(t, x); } else prType(t, v); } }
const cls = mi => T(S.messages[mi - 1].name);
const mk = mi => build(S.messages[mi - 1], cls(mi).init$());
const typeOf = m => Number(R.call(m, 'GetMessageType$').rawValue.v);
const pmsg = m => { const mi = typeOf(m); w(mi); if (mi >= 1 && mi <= S.messages.length) { if (!(m instanceof cls(mi))) w('?wrongclass'); else pr(S.messages[mi - 1], m); } };
// what went wrong: in a reader a stop of the program is a crash, in a writer it is how the language refuses
function failed(e, writing) {
  if (e instanceof R.Gap) { if (!gap) process.stderr.write('gap: ' + e.message + '\n'); gap = true; return; }
  if (e instanceof R.Thrown) { w('err', e.v.constructor === M.types[(S.ns ? S.ns + '.' : '') + 'DataReaderError'] ? e.v.$n : 'Other'); return; }
  if (e instanceof R.Trap || e instanceof RangeError) { if (writing) w('err', 'Trap', ...writing()); else { out = ['crash', String(e.message).replace(/\s+/g, '_').slice(0, 120)]; } return; }
  throw e;
}
// data given to a reader: a slice of a larger Data whose indices do not start at 0
function view() { const vo = ni(), off = ni(), trail = ni(); const d = unhex(tok().slice(1)); const u = new Uint8Array(vo + off + d.length + trail).fill(0xAA); u.set(d, vo + off);
  return { u, off, data: o => new R.Data(u, vo + o, vo + off + d.length), whole: vo === 0 && trail === 0 }; }
const max = n => I('Int', n);
const process_ = (d, n) => S.ns ? R.call(T0(S.ns), 'ProcessRawBytes$_$max', d, max(n)) : M.root['ProcessRawBytes$_$max'](d, max(n));
const T0 = n => M.types[n] || (() => { throw new R.Gap('no namespace'); })();
const must = l => { if (!Array.isArray(l)) throw new R.Gap('not a list'); return l; };
const bi = b => b ? 1 : 0;
const filled = n => { const m = new R.MutableData(); m.add(new Uint8Array(n).fill(0xAA)); return m; };
const intact = (m, off) => { if (m.n < off) return false; for (let i = 0; i < off; i++) if (m.u[i] !== 0xAA) return false; return true; };
const num = v => v instanceof R.I ? v.v : '?';
function size(f) { try { return num(f()); } catch (e) { if (e instanceof R.Gap) throw e; return -1; } }
const ops = {
  W() { const mi = ni(), tag = ni() !== 0; ni(); ni(); ni(); const off = ni(); const o = mk(mi), m = filled(off); const sz = size(() => R.call(o, 'GetSizeInBytes$'));
    try { R.call(o, 'WriteBytes$data$tag', m, tag); } catch (e) { return failed(e, () => [sz, sz, bi(intact(m, off))]); }
    w('ok', sz, sz, m.n, bi(intact(m, off)), 'x' + hex(m.bytes.subarray(off))); },
  R() { const mi = ni(), style = ni(), v = view(); let m, p = '-';
    try { if (style === 1) { m = R.call(cls(mi), 'FromBytes$_', v.data(v.off)); } else { const r = T('DataReader')['init$fromData'](v.data(0)); if (v.off) R.setf(r, 'currentOffset', I('Int', v.off)); m = R.call(cls(mi), 'FromBytes$dataReader', r); p = num(R.get(r, 'currentOffset')); } } catch (e) { return failed(e); }
    v.u.fill(0xEE); w('ok', p); pmsg(m); },
  P() { const n = ni(), v = view(); let l; try { l = must(process_(v.data(v.off), n)); } catch (e) { return failed(e); } v.u.fill(0xEE); w('ok', '-', l.length); for (const m of l) pmsg(m); },
  U() { const v = view(); let l; try { l = must(R.call(T('Message'), 'UnpackMessages$_', v.data(v.off))); } catch (e) { return failed(e); } v.u.fill(0xEE); w('ok', '-', l.length); for (const m of l) pmsg(m); },
  K() { ni(); ni(); ni(); const off = ni(), n = ni(); const l = []; for (let i = 0; i < n; i++) l.push(mk(ni())); const m = filled(off); const sz = size(() => R.call(l, 'GetPackedSize$'));
    try { R.call(l, 'PackMessages$_', m); } catch (e) { return failed(e, () => [sz, bi(intact(m, off))]); }
    w('ok', sz, m.n, bi(intact(m, off)), 'x' + hex(m.bytes.subarray(off))); },
  Q() { ni(); const off = ni(); ni(); ni(); const n = ni(), m = filled(off), it = []; w('ok'); let bad = false;
    for (let i = 0; i < n; i++) { const mi = ni(), tag = ni() !== 0, o = mk(mi); it.push([mi, tag]); if (!bad) { try { R.call(o, 'WriteBytes$data$tag', m, tag); w('w', m.n); } catch (e) { if (e instanceof R.Gap) throw e; bad = true; w('werr'); } } }
    if (bad) return; w('b', bi(intact(m, off)), 'x' + hex(m.bytes.subarray(off)));
    const d = R.Data.of(m.bytes.slice()), r = T('DataReader')['init$fromData'](d); if (off) R.setf(r, 'currentOffset', I('Int', off));
    for (const [mi, tag] of it) { try {
      if (tag) { const at = Number(num(R.get(r, 'currentOffset'))); const l = must(process_(new R.Data(d.u, at, d.e), 1)); R.setf(r, 'currentOffset', I('Int', at + 1)); if (l.length === 1) R.call(cls(typeOf(l[0])), 'FromBytes$dataReader', r); w('t', num(R.get(r, 'currentOffset')), l.length); for (const x of l) pmsg(x); }
      else { const x = R.call(cls(mi), 'FromBytes$dataReader', r); w('r', num(R.get(r, 'currentOffset'))); pmsg(x); } } catch (e) { if (e instanceof R.Gap) throw e; w('rerr'); break; } } },
  D() { const mi = ni(), style = ni(); let o = cls(mi).init$(); if (style === 1) { dirty(S.messages[mi - 1], o, 0); o = cls(mi).init$(); }
    const m = filled(0); let b = ''; const sz = size(() => R.call(o, 'GetSizeInBytes$')); try { R.call(o, 'WriteBytes$data$tag', m, true); b = hex(m.bytes); } catch (e) { if (e instanceof R.Gap) throw e; }
    w('ok', sz, sz, typeOf(o), 'x' + b); pr(S.messages[mi - 1], o); },
  T() { w('ok'); S.messages.forEach((m, i) => { const c = R.get(T('MessageType'), m.name + 'Type'); w(m.name, num(c.rawValue), typeOf(cls(i + 1).init$())); }); },
};
ops.G = ops.W;
function dirty(st, o, d) { for (const [n, t, l] of st.members) { const sub = isStruct(t), e = isEnum(t); const v = e ? T(t).$all.at(-1) : t === 'string' ? 'dirt' : t === 'bool' ? true : t === 'float' || t === 'double' ? new R.F(NAT[t], 7) : sub ? null : I(NAT[t], 7);
  if (l) { o[n].push(sub ? T(t).init$() : v); } else if (sub) { if (d < 20) dirty(sub, o[n], d + 1); } else R.setf(o, n, v); } }
const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
for await (const line of rl) {
  if (!line) continue;
  toks = line.split(' '); pos = 0; out = []; gap = false;
  const id = tok(), si = ni(), op = tok(); ni(); ni();
  S = cfg[si] && cfg[si].schema; M = mods[si];
  if (!M) w('noschema'); else { R.enter(M.key); try { ops[op](); } catch (e) { if (e instanceof R.Gap) failed(e); else { process.stderr.write('driver error ' + id + ' ' + (e && e.stack) + '\n'); gap = true; } } }
  if (gap) out = ['err', 'Emulation'];
  const reply = Buffer.from(id + ' ' + out.join(' ') + '\n');
  for (let p = 0; p < reply.length;) {
    try { p += fs.writeSync(1, reply, p); }
    catch (e) { if (e.code !== 'EAGAIN') throw e; Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 2); }
  }
}
