// Swift -> JavaScript, for the generated code only (there is no Swift compiler here): the part of the language and of Foundation which such code
// uses, with the integer types, overflow and range traps, value semantics of structs and arrays, and Data's slices. What is not known is a Gap: the
// code is then not judged. A Trap is where a Swift program would stop. A BuildError is code which no Swift compiler takes.
export class Gap extends Error {}
export class Trap extends Error {}
export class BuildError extends Error {}
export class Thrown extends Error { constructor(v) { super('thrown'); this.v = v; } }
const gap = m => { throw new Gap(m); };
const trap = m => { throw new Trap(m); };

// ---- values ----
const INTS = { UInt8: [false, 8], Int8: [true, 8], UInt16: [false, 16], Int16: [true, 16], UInt32: [false, 32], Int32: [true, 32], UInt64: [false, 64], Int64: [true, 64], Int: [true, 64], UInt: [false, 64] };
for (const t in INTS) { const [s, n] = INTS[t]; const b = BigInt(n); INTS[t] = { s, n, lo: s ? -(1n << (b - 1n)) : 0n, hi: s ? (1n << (b - 1n)) - 1n : (1n << b) - 1n }; }
export class I { constructor(t, v) { this.t = t; this.v = v; } }
export class F { constructor(t, v) { this.t = t; this.v = v; } }
const FL = { Float32: 'Float32', Float: 'Float32', Float64: 'Float64', Double: 'Float64' };
const mkI = (t, v) => { const r = INTS[t]; if (v < r.lo || v > r.hi) trap(`${v} is out of the range of ${t}`); return new I(t, v); };
const mkF = (t, v) => new F(t, t === 'Float32' ? Math.fround(v) : v);
const wrap = (t, v) => new I(t, INTS[t].s ? BigInt.asIntN(INTS[t].n, v) : BigInt.asUintN(INTS[t].n, v));
export const int = n => new I('Int', BigInt(n));
class Implicit { constructor(n) { this.n = n; } }
export class Enumeration { constructor(n, i) { this.$n = n; this.$i = i; } }
export class Struct { $clone() { const o = Object.create(Object.getPrototypeOf(this)); for (const k in this) o[k] = cp(this[k]); return o; } }
export class Klass {}
export function cp(v) { return v instanceof Struct ? v.$clone() : Array.isArray(v) ? v.map(cp) : v; }
const def = v => v instanceof I && v.t === null ? mkI('Int', v.v) : v instanceof F && v.t === null ? mkF('Float64', v.v) : v;
export class Data {
  constructor(u, s, e) { this.u = u; this.s = s; this.e = e; }
  static of(u) { return new Data(u, 0, u.length); }
  get bytes() { return this.u.subarray(this.s, this.e); }
}
export class MutableData { // NSMutableData
  constructor() { this.u = new Uint8Array(64); this.n = 0; }
  add(b) { if (this.n + b.length > this.u.length) { const u = new Uint8Array(Math.max(2 * this.u.length, this.n + b.length)); u.set(this.u.subarray(0, this.n)); this.u = u; } this.u.set(b, this.n); this.n += b.length; }
  get bytes() { return this.u.subarray(0, this.n); }
}
class Pointer { constructor(u, o) { this.u = u; this.o = o; } }
class RawBuffer { constructor(u) { this.u = u; } }
class Ref { constructor(g, s) { this.g = g; this.s = s; } }
class Range { constructor(a, b) { this.a = a; this.b = b; } }
const dv = new DataView(new ArrayBuffer(8));
function load(t, u) { // little-endian bytes of a type
  if (INTS[t]) { let v = 0n; for (let i = INTS[t].n / 8; i-- > 0;) v = v << 8n | BigInt(u[i]); return wrap(t, v); }
  if (FL[t]) { for (let i = 0; i < u.length; i++) dv.setUint8(i, u[i]); return FL[t] === 'Float32' ? mkF('Float32', dv.getFloat32(0, true)) : mkF('Float64', dv.getFloat64(0, true)); }
  gap('load ' + t);
}
function bytesOf(v) {
  if (v instanceof I && v.t) { const n = INTS[v.t].n / 8, u = new Uint8Array(n); let x = BigInt.asUintN(64, v.v); for (let i = 0; i < n; i++) { u[i] = Number(x & 255n); x >>= 8n; } return u; }
  if (v instanceof F && v.t) { if (v.t === 'Float32') { dv.setFloat32(0, v.v, true); return new Uint8Array(dv.buffer.slice(0, 4)); } dv.setFloat64(0, v.v, true); return new Uint8Array(dv.buffer.slice(0, 8)); }
  if (typeof v === 'boolean') return new Uint8Array([v ? 1 : 0]);
  gap('bytes of ' + typeof v);
}
const sizeOf = t => INTS[t] ? INTS[t].n / 8 : FL[t] ? (FL[t] === 'Float32' ? 4 : 8) : t === 'Bool' ? 1 : gap('size of ' + t);
const idx = v => v instanceof I && (v.t === null || v.t === 'Int') ? (v.v > 9007199254740991n || v.v < -9007199254740991n ? trap('index') : Number(v.v)) : gap('index of another type');
const te = new TextEncoder(), td = new TextDecoder('utf-8', { fatal: true, ignoreBOM: true });
const isUtf8 = e => e instanceof Implicit ? e.n === 'utf8' || gap('encoding') : e === ENC || gap('encoding');
const ENC = { enc: 'utf8' };

// ---- operations ----
// a value given to something of a declared type
export function co(t, v) {
  if (typeof t !== 'string') return v === undefined ? gap('void') : v;
  if (INTS[t]) { if (!(v instanceof I)) gap('not an integer'); return v.t === t ? v : v.t === null ? mkI(t, v.v) : gap(`${v.t} given as ${t}`); }
  if (FL[t]) { if (v instanceof I && v.t === null) return mkF(FL[t], Number(v.v)); if (!(v instanceof F)) gap('not a float'); return v.t === FL[t] ? v : v.t === null ? mkF(FL[t], v.v) : gap(`${v.t} given as ${t}`); }
  if (t === 'Bool') return typeof v === 'boolean' ? v : gap('not a Bool');
  if (t === 'String') return typeof v === 'string' ? v : gap('not a String');
  return v;
}
export function typed(T, v) { // T: a run-time type, or a name of a basic one
  if (typeof T === 'string') return co(T, v);
  if (typeof T === 'function') {
    if (v instanceof Implicit) return T[v.n] instanceof Enumeration ? T[v.n] : gap('implicit member ' + v.n);
    if (T.prototype instanceof Enumeration || T.prototype instanceof Struct || T.prototype instanceof Klass) { if (v !== null && !(v instanceof T)) gap('a value of another type'); }
    return v;
  }
  return v;
}
function same(a, b) { // what an assignment to a place holding a gets
  if (a instanceof I) return co(a.t, b); if (a instanceof F) return co(a.t, b);
  if (a instanceof Enumeration && b instanceof Implicit) return typed(a.constructor, b);
  if (a !== null && a !== undefined && b !== null && (typeof a !== typeof b || Array.isArray(a) !== Array.isArray(b))) gap('assignment of another type');
  return def(b);
}
export const asg = (a, b) => same(a, cp(b));
function uni(a, b) {
  if (a instanceof I && b instanceof I) { const t = a.t || b.t; if (a.t && b.t && a.t !== b.t) gap(`operands ${a.t} and ${b.t}`); return [t, t && !a.t ? mkI(t, a.v) : a, t && !b.t ? mkI(t, b.v) : b]; }
  if (a instanceof F || b instanceof F) { const t = a instanceof F && a.t || b instanceof F && b.t || null; if (a instanceof I && a.t || b instanceof I && b.t || !(a instanceof F || a instanceof I) || !(b instanceof F || b instanceof I)) gap('operands'); if (a instanceof F && b instanceof F && a.t && b.t && a.t !== b.t) gap('operands'); return [t, a instanceof I ? new F(t, Number(a.v)) : a, b instanceof I ? new F(t, Number(b.v)) : b]; }
  return null;
}
const num = (a, b) => uni(a, b) || gap('operands');
const res = (t, v) => t ? mkI(t, v) : new I(null, v);
function arith(f, g) { return (a, b) => { const [t, x, y] = num(a, b); return x instanceof I ? res(t, f(x.v, y.v)) : t ? mkF(t, g(x.v, y.v)) : new F(null, g(x.v, y.v)); }; }
function cmp(f) { return (a, b) => { if (a instanceof I && b instanceof I) return f(a.v, b.v); if (typeof a === 'string' && typeof b === 'string') gap('order of strings'); const [, x, y] = num(a, b); return f(x.v, y.v); }; }
export function eq(a, b) {
  if (a instanceof I && b instanceof I) return a.v === b.v;
  if (a instanceof Implicit && b instanceof Enumeration) a = typed(b.constructor, a); if (b instanceof Implicit && a instanceof Enumeration) b = typed(a.constructor, b);
  if (a instanceof Enumeration && b instanceof Enumeration) return a === b;
  if (typeof a === 'string' && typeof b === 'string') return a.normalize('NFC') === b.normalize('NFC');
  if (typeof a === 'boolean' && typeof b === 'boolean') return a === b;
  if (a === null || b === null) return a === b;
  const d = x => x instanceof Data ? x.bytes : x instanceof MutableData ? x.bytes : null;
  if (d(a) && d(b)) return d(a).length === d(b).length && d(a).every((x, i) => x === d(b)[i]);
  if (Array.isArray(a) && Array.isArray(b)) return a.length === b.length && a.every((x, i) => eq(x, b[i]));
  if (a instanceof F || b instanceof F) { const u = uni(a, b); if (u) return u[1].v === u[2].v; }
  gap('==');
}
const bits = f => (a, b) => { const [t, x, y] = num(a, b); if (!(x instanceof I)) gap('bits'); return t ? wrap(t, f(x.v, y.v)) : new I(null, f(x.v, y.v)); };
const wrapping = f => (a, b) => { const [t, x, y] = num(a, b); if (!(x instanceof I)) gap('wrapping'); return wrap(t || 'Int', f(x.v, y.v)); };
function shift(f) { return (a, b) => { if (!(a instanceof I && b instanceof I)) gap('shift'); const t = a.t || 'Int'; let n = b.v; if (n > 64n) n = 64n; if (n < -64n) n = -64n; return wrap(t, f(a.v, n)); }; }
const nz = (b, m) => b.v === 0n ? trap(m) : 0;
export const op = {
  '+': (a, b) => { if (typeof a === 'string' && typeof b === 'string') return a + b; if (Array.isArray(a) && Array.isArray(b)) return [...cp(a), ...cp(b)]; return arith((x, y) => x + y, (x, y) => x + y)(a, b); },
  '-': arith((x, y) => x - y, (x, y) => x - y), '*': arith((x, y) => x * y, (x, y) => x * y),
  '/': (a, b) => { if (b instanceof I && a instanceof I) nz(b, 'division by zero'); return arith((x, y) => x / y, (x, y) => x / y)(a, b); },
  '%': (a, b) => { if (!(b instanceof I)) gap('%'); nz(b, 'division by zero'); return arith((x, y) => x % y, null)(a, b); },
  '&+': wrapping((x, y) => x + y), '&-': wrapping((x, y) => x - y), '&*': wrapping((x, y) => x * y),
  '&': bits((x, y) => x & y), '|': bits((x, y) => x | y), '^': bits((x, y) => x ^ y),
  '<<': shift((x, n) => n >= 0n ? x << n : x >> -n), '>>': shift((x, n) => n >= 0n ? x >> n : x << -n),
  '<': cmp((x, y) => x < y), '<=': cmp((x, y) => x <= y), '>': cmp((x, y) => x > y), '>=': cmp((x, y) => x >= y),
  '==': eq, '!=': (a, b) => !eq(a, b),
  '===': (a, b) => a === b, '!==': (a, b) => a !== b,
  '..<': (a, b) => { const [t, x, y] = num(a, b); if (!(x instanceof I)) gap('range'); if (x.v > y.v) trap('Range requires lowerBound <= upperBound'); return new Range(t || 'Int', [x.v, y.v]); },
  '...': (a, b) => { const [t, x, y] = num(a, b); if (!(x instanceof I)) gap('range'); if (x.v > y.v + 1n || x.v > y.v) trap('Range requires lowerBound <= upperBound'); return new Range(t || 'Int', [x.v, y.v + 1n]); },
};
export const neg = a => a instanceof I ? res(a.t, -a.v) : a instanceof F ? new F(a.t, -a.v) : gap('-');
export const inv = a => a instanceof I && a.t ? wrap(a.t, ~a.v) : gap('~');
export const truth = v => typeof v === 'boolean' ? v : gap('not a Bool');
export const force = v => v === null ? trap('unexpectedly found nil') : v === undefined ? gap('void') : v;
export const lit = v => new I(null, v), flit = v => new F(null, v);
export const implicit = n => new Implicit(n);
export const ref = (g, s) => new Ref(g, s);
export function* each(v) {
  if (v instanceof Range) { for (let i = v.b[0]; i < v.b[1]; i++) yield new I(v.a, i); return; }
  if (Array.isArray(v)) { yield* v.slice(); return; }
  if (v instanceof Data) { for (const x of v.bytes) yield new I('UInt8', BigInt(x)); return; }
  gap('for-in');
}
export function fatal(...a) { trap('Fatal error' + (typeof a[0] === 'string' ? ': ' + a[0] : '')); }
const fn = {
  data: {
    'withUnsafeBytes$_': (d, f) => f(new RawBuffer(d.bytes)),
    'subdata$in': (d, r) => { if (!(r instanceof Range)) gap('subdata'); const [a, b] = r.b.map(Number); if (a < d.s || b > d.e) trap('Data subscript out of bounds'); return Data.of(d.u.slice(a, b)); },
    'prefix$_': (d, n) => { const k = idx(n); if (k < 0) trap('prefix'); return new Data(d.u, d.s, Math.min(d.e, d.s + k)); },
    'dropFirst$_': (d, n) => { const k = idx(n); if (k < 0) trap('dropFirst'); return new Data(d.u, Math.min(d.e, d.s + k), d.e); },
    'suffix$from': (d, n) => { const k = idx(n); if (k < d.s || k > d.e) trap('suffix'); return new Data(d.u, k, d.e); },
    'prefix$upTo': (d, n) => { const k = idx(n); if (k < d.s || k > d.e) trap('prefix'); return new Data(d.u, d.s, k); },
    'index$_$offsetBy': (d, i, n) => int(idx(i) + idx(n)),
  },
  mut: {
    'append$_': (m, d) => { m.add((d instanceof Data || d instanceof MutableData) ? d.bytes.slice() : gap('append')); },
    'append$_$length': (m, p, n) => { const k = idx(n); let u; if (p instanceof Ref) u = bytesOf(p.g()); else if (p instanceof Pointer) u = p.u.subarray(p.o); else gap('append'); if (k < 0 || k > u.length) trap('read past the end of a variable'); m.add(u.slice(0, k)); },
  },
  raw: {
    'load$fromByteOffset$as': (r, o, t) => { const k = idx(o), n = sizeOf(t); if (k < 0 || k + n > r.u.length) trap('load out of bounds'); if ((r.u.byteOffset + k) % n) gap('unaligned load'); return load(t, r.u.slice(k, k + n)); },
    'loadUnaligned$fromByteOffset$as': (r, o, t) => { const k = idx(o), n = sizeOf(t); if (k < 0 || k + n > r.u.length) trap('load out of bounds'); return load(t, r.u.slice(k, k + n)); },
    'loadUnaligned$as': (r, t) => fn.raw.loadUnaligned$fromByteOffset$as(r, int(0), t),
    'load$as': (r, t) => fn.raw.load$fromByteOffset$as(r, int(0), t),
  },
  array: {
    'append$_': (a, v) => { a.push(def(cp(v))); }, 'append$contentsOf': (a, v) => { a.push(...each(v)); },
    'compactMap$_': (a, f) => a.map(x => f(x)).filter(x => x !== null), 'map$_': (a, f) => a.map(x => f(x)), 'filter$_': (a, f) => a.filter(x => truth(f(x))),
    'forEach$_': (a, f) => { for (const x of a.slice()) f(x); }, 'reduce$_$_': (a, z, f) => a.reduce((x, y) => { const s = f(x, y); return x instanceof I && x.t === null ? s : same(x, s); }, z),
    'reserveCapacity$_': () => {}, 'removeAll$': a => { a.length = 0; }, 'removeLast$': a => a.length ? a.pop() : trap('removeLast'), 'isEmpty': a => a.length === 0,
    'prefix$_': (a, n) => cp(a.slice(0, idx(n))), 'dropFirst$_': (a, n) => cp(a.slice(idx(n))), 'dropFirst$': a => cp(a.slice(1)), 'contains$_': (a, v) => a.some(x => eq(x, v)),
  },
  string: {
    'data$using': (s, e) => { isUtf8(e); return Data.of(te.encode(s)); }, 'lengthOfBytes$using': (s, e) => { isUtf8(e); return int(te.encode(s).length); },
  },
};
export const arrayExt = [];
export function call(o, n, ...a) {
  if (o === undefined) gap('call on nothing: ' + n);
  if (o === null) gap('call on nil: ' + n);
  let f;
  if (Array.isArray(o)) { f = fn.array[n]; if (!f) for (const e of arrayExt) if (e.ns === curNs && Object.hasOwn(e.f, n)) return e.f[n].apply(o, a); }
  else if (typeof o === 'string') f = fn.string[n];
  else if (o instanceof Data) f = fn.data[n];
  else if (o instanceof MutableData) f = fn.mut[n];
  else if (o instanceof RawBuffer) f = fn.raw[n];
  else if (typeof o === 'function' || o instanceof Klass || o instanceof Struct || o instanceof Enumeration) { if (typeof o[n] === 'function') return o[n](...a); }
  else if (o === SWIFT) { if (BUILTIN[n]) return BUILTIN[n](...a); }
  else if (o instanceof Builtin) return o.call(n, a);
  if (!f) gap('method ' + n); return f(o, ...a);
}
let curNs = null; export const enter = ns => { curNs = ns; };
class Builtin { constructor(n) { this.n = n; } call(n, a) { gap(this.n + '.' + n); } }
export const SWIFT = new Builtin('Swift');
export const BUILTIN = {
  'withUnsafeBytes$of$_': (r, f) => f(new RawBuffer(bytesOf(r instanceof Ref ? r.g() : r))),
  'memcpy$_$_$_': (d, s, n) => { const k = idx(n); if (!(d instanceof Ref)) gap('memcpy'); let u; if (s instanceof Pointer) u = s.u.subarray(Math.max(0, s.o)); else if (s instanceof Ref) u = bytesOf(s.g()); else gap('memcpy'); if (s instanceof Pointer && s.o < 0) trap('memcpy before the start');
    const old = d.g(), b = bytesOf(old); if (k < 0 || k > b.length) trap('memcpy past the end of the target'); if (k > u.length) trap('memcpy past the end of the data'); b.set(u.subarray(0, k)); d.s(load(old.t, b)); },
  'fatalError$_': fatal, 'fatalError$': fatal, 'preconditionFailure$_': fatal, 'preconditionFailure$': fatal,
  'precondition$_': c => { if (!truth(c)) fatal('precondition'); }, 'precondition$_$_': c => { if (!truth(c)) fatal('precondition'); }, 'assert$_': c => { if (!truth(c)) fatal('assert'); }, 'assert$_$_': c => { if (!truth(c)) fatal('assert'); },
  'min$_$_': (a, b) => op['<='](a, b) ? a : b, 'max$_$_': (a, b) => op['>='](a, b) ? a : b, 'abs$_': a => a instanceof I ? (a.v < 0n ? neg(a) : a) : gap('abs'),
  'stride$from$to$by': (a, b, s) => { const r = []; const k = s.v; if (k === 0n) trap('stride'); for (let i = a.v; k > 0n ? i < b.v : i > b.v; i += k) r.push(new I(a.t || b.t || 'Int', i)); return r; },
};
// construction of a basic type: T(labels…)
export function make(t, n, ...a) {
  const v = a[0];
  if (INTS[t]) switch (n) {
    case '_': if (v instanceof I) return mkI(t, v.v); if (v instanceof F) { if (!isFinite(v.v)) trap('not finite'); return mkI(t, BigInt(Math.trunc(v.v))); } if (typeof v === 'string') { if (!/^[-+]?\d+$/.test(v)) return null; const x = BigInt(v); return x < INTS[t].lo || x > INTS[t].hi ? null : new I(t, x); } return gap(t);
    case 'littleEndian': return co(t, v);
    case 'bigEndian': { const x = co(t, v); return load(t, bytesOf(x).reverse()); }
    case 'truncatingIfNeeded': return wrap(t, v.v);
    case 'exactly': return v.v < INTS[t].lo || v.v > INTS[t].hi ? null : new I(t, v.v);
    case 'clamping': return new I(t, v.v < INTS[t].lo ? INTS[t].lo : v.v > INTS[t].hi ? INTS[t].hi : v.v);
    case 'bitPattern': if (v instanceof I && v.t && INTS[v.t].n === INTS[t].n) return wrap(t, v.v); return gap('bitPattern');
    case '': return new I(t, 0n);
  }
  if (FL[t]) switch (n) { case '_': return v instanceof F ? mkF(FL[t], v.v) : v instanceof I ? mkF(FL[t], Number(v.v)) : gap(t); case 'bitPattern': { const it = FL[t] === 'Float32' ? 'UInt32' : 'UInt64'; return load(FL[t], bytesOf(co(it, v))); } case '': return mkF(FL[t], 0); }
  if (t === 'String') switch (n) {
    case '': return ''; case '_': return typeof v === 'string' ? v : gap('String');
    case 'data$encoding': isUtf8(a[1]); try { return td.decode(v.bytes); } catch (e) { return null; }
    case 'decoding$as': return new TextDecoder('utf-8', { ignoreBOM: true }).decode(v.bytes);
  }
  if (t === 'Data') switch (n) {
    case '': return Data.of(new Uint8Array(0)); case '_': if (v instanceof RawBuffer) return Data.of(v.u.slice()); if (v instanceof Data || v instanceof MutableData) return Data.of(v.bytes.slice()); if (Array.isArray(v)) return Data.of(Uint8Array.from(v, x => Number(co('UInt8', x).v))); return gap('Data');
  }
  if (t === 'NSMutableData') { const m = new MutableData(); if (n === '') return m; if (n === 'data') { m.add(v.bytes); return m; } if (n === 'capacity') return m; if (n === 'length') { m.add(new Uint8Array(idx(v))); return m; } }
  if (t === 'Bool' && n === '_' && typeof v === 'boolean') return v;
  gap(`${t}(${n})`);
}
export function get(o, n) {
  if (o === null || o === undefined) gap('member of nothing: ' + n);
  if (Array.isArray(o)) switch (n) { case 'count': return int(o.length); case 'isEmpty': return o.length === 0; case 'first': return o.length ? o[0] : null; case 'last': return o.length ? o[o.length - 1] : null; case 'indices': return new Range('Int', [0n, BigInt(o.length)]); case 'startIndex': return int(0); case 'endIndex': return int(o.length); }
  if (typeof o === 'string') switch (n) { case 'utf8': return [...te.encode(o)].map(x => new I('UInt8', BigInt(x))); case 'isEmpty': return o.length === 0; case 'count': if (!/^[\x20-\x7e]*$/.test(o)) return int([...new Intl.Segmenter().segment(o)].length); return int(o.length); case 'unicodeScalars': return [...o]; case 'utf16': return Array.from({ length: o.length }, (_, i) => new I('UInt16', BigInt(o.charCodeAt(i)))); }
  if (o instanceof Data) switch (n) { case 'count': return int(o.e - o.s); case 'isEmpty': return o.e === o.s; case 'startIndex': return int(o.s); case 'endIndex': return int(o.e); case 'indices': return new Range('Int', [BigInt(o.s), BigInt(o.e)]); }
  if (o instanceof MutableData) switch (n) { case 'length': case 'count': return int(o.n); }
  if (o instanceof RawBuffer) switch (n) { case 'baseAddress': return o.u.length ? new Pointer(o.u, 0) : null; case 'count': return int(o.u.length); }
  if (o instanceof I) switch (n) { case 'littleEndian': return o; case 'bigEndian': case 'byteSwapped': return load(o.t, bytesOf(o).reverse()); case 'bitWidth': return int(INTS[o.t || 'Int'].n); }
  if (o instanceof F) switch (n) { case 'bitPattern': return load(o.t === 'Float32' ? 'UInt32' : 'UInt64', bytesOf(o)); case 'isNaN': return Number.isNaN(o.v); }
  if (o instanceof Range && n === 'count') return int(o.b[1] - o.b[0]);
  if (typeof o === 'function' || o instanceof Klass || o instanceof Struct || o instanceof Enumeration) { const v = o[n]; if (v !== undefined && n !== 'name' && n !== 'length' && n !== 'prototype') return v; if (typeof o === 'function' && Object.hasOwn(o, n)) return o[n]; }
  gap('member ' + n);
}
export function tget(t, n) { // static members of basic types
  if (INTS[t]) { if (n === 'max') return new I(t, INTS[t].hi); if (n === 'min') return new I(t, INTS[t].lo); if (n === 'bitWidth') return int(INTS[t].n); if (n === 'zero') return new I(t, 0n); if (n === 'self') return t; }
  if (FL[t] && n === 'self') return t; if (t === 'Bool' && n === 'self') return t;
  if (t === 'String' && n === 'Encoding') return new Builtin('Encoding');
  gap(`${t}.${n}`);
}
export const layout = (t, n) => n === 'size' || n === 'stride' ? int(sizeOf(t)) : gap('MemoryLayout.' + n);
export const setf = (o, n, v) => { if (!(o instanceof Klass || o instanceof Struct)) gap('assignment to a member'); const T = o.$types && o.$types[n]; if (!T && !Object.hasOwn(o, n)) gap('member ' + n); const x = cp(v); o[n] = T ? typed(T, x instanceof Implicit || T === undefined ? x : x) : same(o[n], x); };
export const encoding = (o, n) => o instanceof Builtin && o.n === 'Encoding' ? (n === 'utf8' ? ENC : gap('encoding ' + n)) : get(o, n);
export function sub(o, i) {
  if (Array.isArray(o)) { if (i instanceof Range) { const [a, b] = i.b.map(Number); if (a < 0 || b > o.length) trap('Array index out of range'); return cp(o.slice(a, b)); } const k = idx(i); if (k < 0 || k >= o.length) trap('Index out of range'); return o[k]; }
  if (o instanceof Data) { if (i instanceof Range) { if (i.b[0] < BigInt(o.s) || i.b[1] > BigInt(o.e)) trap('Data subscript out of bounds'); return new Data(o.u, Number(i.b[0]), Number(i.b[1])); } const k = idx(i); if (k < o.s || k >= o.e) trap('Data subscript out of bounds'); return new I('UInt8', BigInt(o.u[k])); }
  gap('subscript');
}
export const setsub = (o, i, v) => { if (!Array.isArray(o)) gap('subscript assignment'); const k = idx(i); if (k < 0 || k >= o.length) trap('Index out of range'); o[k] = same(o[k], cp(v)); };
export function cast(v, t) { if (t === 'Data' && v instanceof MutableData) return Data.of(v.bytes.slice()); if (INTS[t] || FL[t]) { if (v.t === null) return co(t, v); } if (typeof t === 'function' && v instanceof t) return v; return gap('as'); }
export const castq = (v, t) => typeof t === 'function' ? (v instanceof t ? v : null) : gap('as?');
export const ptr = (p, n) => p instanceof Pointer ? new Pointer(p.u, p.o + idx(n)) : null;
export const plus = (a, b) => a instanceof Pointer ? ptr(a, b) : op['+'](a, b);
export const raise = v => { if (!(v instanceof Enumeration)) gap('throw'); throw new Thrown(v); };
export const matches = (v, p) => p instanceof Range ? v instanceof I && v.v >= p.b[0] && v.v < p.b[1] : eq(v, p);
export const isA = { Data, MutableData };
// enumeration cases from [name, raw or undefined]
export function cases(C, raw, list) {
  let next = 0n; const seen = new Set();
  list.forEach(([n, r], i) => { const e = new C(n, i); if (raw) { if (INTS[raw]) { const v = r === undefined ? next : r.v; if (v < INTS[raw].lo || v > INTS[raw].hi) throw new BuildError(`raw value ${v} does not fit ${raw}`); if (seen.has(v)) throw new BuildError(`raw value ${v} for enum case is not unique`); seen.add(v); next = v + 1n; e.rawValue = new I(raw, v); } else gap('raw type ' + raw); } C[n] = e; });
  C.$all = list.map(x => C[x[0]]);
  if (raw) C.init$rawValue = v => { const x = co(raw, v); return C.$all.find(e => e.rawValue.v === x.v) || null; };
  if (raw && !list.length) throw new BuildError('an enum with no cases cannot declare a raw type');
}

// ---- text to tokens ----
const KW = new Set('associatedtype class deinit enum extension fileprivate func import init inout internal let open operator private precedencegroup protocol public rethrows static struct subscript typealias var break case catch continue default defer do else fallthrough for guard if in repeat return throw switch where while as false is nil self Self super throws true try'.split(' '));
const OPS = ['..<', '...', '===', '!==', '&&=', '<<=', '>>=', '&+=', '&-=', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<', '>>', '->', '??', '&+', '&-', '&*', '+', '-', '*', '/', '%', '=', '<', '>', '!', '?', '&', '|', '^', '~', '(', ')', '[', ']', '{', '}', ',', ':', ';', '.', '@', '#', '\\'];
function lex(src) {
  const T = []; let i = 0, nl = true; const bad = m => { throw new BuildError(m); };
  const idc = /[\p{L}\p{N}\p{M}\p{So}\p{Emoji_Presentation}_\u200d\ufe0f]/u;
  while (i < src.length) {
    const c = src[i];
    if (c === '\n' || c === '\r') { nl = true; i++; continue; }
    if (/\s/.test(c)) { i++; continue; }
    if (src.startsWith('//', i)) { while (i < src.length && src[i] !== '\n' && src[i] !== '\r') i++; continue; }
    if (src.startsWith('/*', i)) { let d = 1; i += 2; while (d) { if (i >= src.length) bad("unterminated '/*' comment"); if (src.startsWith('/*', i)) { d++; i += 2; } else if (src.startsWith('*/', i)) { d--; i += 2; } else { if (src[i] === '\n') nl = true; i++; } } continue; }
    const sp = i === 0 || /[\s({[,;:]/.test(src[i - 1]);
    const push = (k, v, e) => { T.push({ k, v, nl, sp, at: i, end: e, spa: e >= src.length || /[\s)}\],;:]/.test(src[e]) }); nl = false; i = e; };
    if (c === '"') {
      if (src.startsWith('"""', i)) gap('multi-line string');
      let j = i + 1, s = '';
      for (;;) { if (j >= src.length || src[j] === '\n') bad('unterminated string'); if (src[j] === '"') break; if (src[j] === '\\') { const e = src[j + 1]; if (e === '(') { let d = 1; j += 2; while (d && j < src.length) { if (src[j] === '(') d++; if (src[j] === ')') d--; j++; } s += '?'; continue; } const m = { n: '\n', t: '\t', r: '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'" }[e]; if (m === undefined) gap('escape'); s += m; j += 2; continue; } s += src[j++]; }
      push('str', s, j + 1); continue;
    }
    if (/[0-9]/.test(c)) {
      const m = /^(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE][-+]?[0-9]+)?)/.exec(src.slice(i, i + 80));
      const s = m[0].replace(/_/g, ''); push(/^[0-9]+$|^0[xbo]/.test(s) ? 'int' : 'float', s, i + m[0].length); continue;
    }
    if (c === '`') { const j = src.indexOf('`', i + 1); push('id', src.slice(i + 1, j), j + 1); continue; }
    if (c === '$' && /[0-9]/.test(src[i + 1])) { push('id', '$' + src[i + 1], i + 2); continue; }
    const cpt = String.fromCodePoint(src.codePointAt(i));
    if (idc.test(cpt)) { let j = i; for (;;) { if (j >= src.length) break; const q = String.fromCodePoint(src.codePointAt(j)); if (!idc.test(q)) break; j += q.length; } const s = src.slice(i, j); push(KW.has(s) ? 'kw' : 'id', s, j); continue; }
    const o = OPS.find(o => src.startsWith(o, i)); if (!o) bad('unexpected character ' + JSON.stringify(c));
    push('op', o, i + o.length);
  }
  T.push({ k: 'eof', v: '', nl: true, sp: true, at: i, end: i });
  return T;
}

// ---- tokens to a tree ----
const MODS = new Set(['public', 'private', 'fileprivate', 'internal', 'open', 'static', 'final', 'override', 'required', 'mutating', 'nonmutating', 'convenience', 'lazy', 'weak', 'unowned', 'indirect']);
const BP = { '||': 1, '&&': 2, '<': 4, '<=': 4, '>': 4, '>=': 4, '==': 4, '!=': 4, '===': 4, '!==': 4, '??': 5, '..<': 6, '...': 6, '+': 7, '-': 7, '|': 7, '^': 7, '&+': 7, '&-': 7, '*': 8, '/': 8, '%': 8, '&': 8, '&*': 8, '<<': 9, '>>': 9 };
const ASG = new Set(['=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>=', '&+=', '&-=']);
// Swift that this translator does not know, and that the generated code does not use: where it occurs, a failure to parse says nothing about the code
const UNFAMILIAR = [/->\s*[\w.\[\]?:, ]+\s+in\b/, /\{\s*\(\s*\w+(\s+\w+)?\s*[:,)]/, /\{\s*\[\s*(weak|unowned|self)\b/, /\b(any|some)\s+[A-Z]/, /@(escaping|autoclosure|convention|Sendable)\b/, /\b(didSet|willSet)\b/, /\b(get|set)\s*\{/, /#/,
  /[\[(,]\s*(\.\.<|\.\.\.)/, /\.\.\.\s*[\]),]/, /\\\./, /[(,:]\s*[-+*\/%<>=!|&^]+\s*[),]/, /\bcatch\s+[\w(]/, /\w(?<!MemoryLayout)<[\w,\s:\[\]?.]+>\s*[(.]/, /[:(,]\s*\(\s*\w+\s*:/, /\b(operator|precedencegroup|async|await|actor|macro|consuming|borrowing|inout|protocol|associatedtype|subscript|deinit|indirect|each|repeat)\b/, /"{3}/, /\bcase\s+let\b/, /\bif\s+case\b/, /\bis\s+[A-Z]/, /\bas\s*[?!]/];
function unfamiliar(src) { const s = src.replace(/\/\/.*$/gm, '').replace(/\/\*[\s\S]*?\*\//g, '').replace(/"(\\.|[^"\\\n])*"/g, '""'); for (const r of UNFAMILIAR) { const m = r.exec(s); if (m) return m[0].slice(0, 60); } return null; }
function parse(src) {
  const T = lex(src); let p = 0;
  const pk = (n = 0) => T[Math.min(p + n, T.length - 1)];
  const is = (v, n = 0) => { const t = pk(n); return (t.k === 'op' || t.k === 'kw' || t.k === 'id') && t.v === v; };
  const bad = m => { const t = pk(); throw new Unparsed(`${m} near line ${src.slice(0, t.at).split('\n').length}: ${src.slice(t.at, t.at + 30).split('\n')[0]}`); };
  const eat = v => { if (!is(v)) bad(`expected '${v}'`); return T[p++]; };
  const opt = v => is(v) ? (p++, true) : false;
  const ident = () => { const t = pk(); if (t.k === 'id') { p++; return t.v; } if (t.k === 'kw') throw new BuildError(`keyword '${t.v}' cannot be used as an identifier here, near line ${src.slice(0, t.at).split('\n').length}`); bad('expected a name'); };
  function type() {
    let t;
    if (opt('[')) { const e = type(); if (opt(':')) { type(); gap('dictionary'); } eat(']'); t = { k: 'arr', e }; }
    else if (opt('(')) { const l = []; while (!is(')')) { l.push(type()); if (!opt(',')) break; } eat(')'); if (opt('throws')); if (opt('->')) { type(); t = { k: 'fun' }; } else t = l.length === 0 ? { k: 'n', n: ['Void'] } : l.length === 1 ? l[0] : gap('tuple'); }
    else if (opt('inout')) { return { k: 'inout', e: type() }; }
    else { const n = [is('Self') ? (p++, 'Self') : ident()]; if (is('any') || is('some')) gap('any'); while (is('.')) { p++; n.push(ident()); } if (is('<')) { p++; type(); while (opt(',')) type(); eat('>'); gap('generic type'); } t = { k: 'n', n }; }
    while (is('?') || is('!')) { p++; t = { k: 'opt', e: t }; }
    return t;
  }
  function mods() { const m = new Set(); for (;;) { if (is('@')) { p++; p++; if (is('(') && !pk().sp) { let d = 0; do { if (is('(')) d++; if (is(')')) d--; p++; } while (d); } continue; } const t = pk(); if (t.k !== 'eof' && MODS.has(t.v) && !(t.k === 'id' && pk(1).k === 'op')) { m.add(t.v); p++; if (is('(') && is('set', 1)) { p += 3; } continue; } if (t.v === 'class' && t.k === 'kw' && (is('func', 1) || is('var', 1) || MODS.has(pk(1).v))) { m.add('static'); p++; continue; } return m; } }
  function block() { eat('{'); const b = []; while (!is('}')) { if (pk().k === 'eof') bad('unexpected end'); if (opt(';')) continue; b.push(stmt()); end(); } eat('}'); return b; }
  function end() { if (!(pk().nl || is(';') || is('}') || pk().k === 'eof')) { const t = pk(); throw new BuildError(`consecutive statements on a line, near line ${src.slice(0, t.at).split('\n').length}: ${src.slice(t.at, t.at + 30).split('\n')[0]}`); } }
  function params() {
    eat('('); const l = []; while (!is(')')) { let label = pk().v; if (pk().k !== 'id' && pk().k !== 'kw') bad('parameter'); p++; let name = label; if (!is(':')) name = ident(); eat(':'); const t = type(); if (opt('...')) gap('variadic'); let d; if (opt('=')) d = expr(0); l.push({ label, name, t, d }); if (!opt(',')) break; } eat(')'); return l;
  }
  function inherit() { const l = []; if (opt(':')) do { l.push(type()); } while (opt(',')); return l; }
  function body(kind) { // members of a type
    eat('{'); const l = []; while (!is('}')) { if (pk().k === 'eof') bad('unexpected end'); if (opt(';')) continue; const d = decl(kind); if (!d) bad('expected a declaration'); l.push(...(Array.isArray(d) ? d : [d])); end(); } eat('}'); return l;
  }
  function decl(inside) {
    const s = p, m = mods(), t = pk();
    if (t.k === 'kw') switch (t.v) {
      case 'import': p++; ident(); while (opt('.')) ident(); return { k: 'import' };
      case 'class': case 'struct': case 'enum': case 'extension': case 'protocol': {
        p++; if (t.v === 'protocol') gap('protocol'); const name = t.v === 'extension' ? type() : ident(); if (is('<')) gap('generic'); const inh = inherit(); let where; if (opt('where')) { const a = type(); if (!is('==') && !is(':')) bad('where'); const o = T[p++].v; where = [a, o, type()]; }
        return { k: t.v, name, inh, where, body: body(t.v), m };
      }
      case 'case': if (inside !== 'enum') break; { p++; const l = []; do { const n = ident(); if (is('(')) gap('associated values'); let r; if (opt('=')) { r = expr(0); } l.push({ k: 'case', name: n, raw: r }); } while (opt(',')); return l; }
      case 'func': { p++; const name = pk().k === 'op' ? gap('operator') : ident(); if (is('<')) gap('generic'); const ps = params(); const th = opt('throws'); const ret = opt('->') ? type() : null; if (is('where')) gap('where'); return { k: 'func', name, ps, ret, th, m, body: block() }; }
      case 'init': { p++; if (is('?') || is('!')) gap('failable init'); const ps = params(); const th = opt('throws'); return { k: 'init', ps, m, th, body: block() }; }
      case 'var': case 'let': if (inside === 'block') { p = s; return null; } { p++; return vars(t.v, m, true); }
      case 'typealias': { p++; const n = ident(); eat('='); return { k: 'alias', name: n, t: type() }; }
      case 'subscript': case 'deinit': gap(t.v);
    }
    p = s; return null;
  }
  function vars(kind, m, member) {
    const l = []; do {
      if (is('(')) gap('tuple pattern');
      const name = is('_') ? (p++, '_') : ident(); let t, e, g; if (opt(':')) t = type(); if (opt('=')) e = expr(0); else if (member !== null && is('{') && !pk().nl) { // computed
        const q = p; p++; if (is('get') || is('set') || is('willSet') || is('didSet')) gap('accessors'); p = q; g = block(); }
      if (is('{') && e && member) gap('observers');
      l.push({ k: 'var', kind, name, t, e, g, m });
    } while (opt(',')); return l;
  }
  function conds() { // if/guard/while conditions
    const l = []; do {
      if (is('let') || is('var')) { const kind = T[p++].v; const name = ident(); let t; if (opt(':')) t = type(); let e; if (opt('=')) e = expr(0, true); l.push({ k: 'bind', kind, name, t, e }); }
      else if (is('case') || is('#')) gap('if case');
      else l.push({ k: 'cond', e: expr(0, true) });
    } while (opt(',')); return l;
  }
  function stmt() {
    const t = pk();
    if (t.k === 'id' && is(':', 1) && (is('for', 2) || is('while', 2) || is('repeat', 2))) gap('label');
    const d = decl('block'); if (d) return Array.isArray(d) ? { k: 'decls', l: d } : d;
    if (t.k === 'kw') switch (t.v) {
      case 'let': case 'var': p++; return { k: 'decls', l: vars(t.v, new Set(), t.v === 'let' ? null : null) };
      case 'if': { p++; const c = conds(), b = block(); let e; if (opt('else')) e = is('if') ? [stmt()] : block(); return { k: 'if', c, b, e }; }
      case 'guard': { p++; const c = conds(); eat('else'); return { k: 'guard', c, b: block() }; }
      case 'while': { p++; const c = conds(); return { k: 'while', c, b: block() }; }
      case 'repeat': { p++; const b = block(); eat('while'); return { k: 'repeat', b, e: expr(0) }; }
      case 'for': { p++; if (is('case') || is('(')) gap('for pattern'); opt('var') || opt('let'); const name = is('_') ? (p++, '_') : ident(); if (is(':')) gap('for type'); eat('in'); const e = expr(0, true); let w; if (opt('where')) w = expr(0, true); return { k: 'for', name, e, w, b: block() }; }
      case 'return': { p++; if (pk().nl || is('}') || is(';')) return { k: 'return' }; return { k: 'return', e: expr(0) }; }
      case 'throw': p++; return { k: 'throw', e: expr(0) };
      case 'break': case 'continue': case 'fallthrough': p++; if (pk().k === 'id' && !pk().nl) gap('label'); return { k: t.v };
      case 'defer': p++; return { k: 'defer', b: block() };
      case 'do': { p++; const b = block(); const c = []; while (opt('catch')) { let pat; if (!is('{')) { if (is('let')) gap('catch let'); pat = expr(0, true); } c.push({ pat, b: block() }); } return { k: 'do', b, c }; }
      case 'switch': { p++; const e = expr(0, true); eat('{'); const l = []; while (!is('}')) { let pats = null; if (opt('default')) eat(':'); else { eat('case'); pats = []; do { if (is('let') || is('var') || is('is')) gap('pattern'); pats.push(expr(0)); } while (opt(',')); if (is('where')) gap('where'); eat(':'); } const b = []; while (!is('case') && !is('default') && !is('}')) { if (opt(';')) continue; if (pk().k === 'eof') bad('unexpected end'); b.push(stmt()); end(); } if (!b.length) throw new BuildError("a 'case' label must have at least one executable statement"); l.push({ pats, b }); } eat('}'); return { k: 'switch', e, l }; }
    }
    const e = expr(0);
    const o = pk(); if (o.k === 'op' && ASG.has(o.v)) { p++; const r = expr(0); return { k: 'assign', op: o.v, l: e, r }; }
    return { k: 'expr', e };
  }
  function expr(bp, nt) { // nt: no trailing closure
    let l = unary(nt);
    for (;;) {
      const t = pk();
      if (t.k === 'kw' && (t.v === 'as' || t.v === 'is')) { if (bp > 5) return l; p++; let q = ''; if (t.v === 'as' && (is('!') || is('?'))) q = T[p++].v; l = { k: t.v + q, l, t: type() }; continue; }
      if (t.k !== 'op') return l;
      if (t.v === '?' && t.sp) { if (bp > 0) return l; p++; const a = expr(0, nt); eat(':'); l = { k: 'tern', c: l, a, b: expr(0, nt) }; continue; }
      const b = BP[t.v]; if (!b || b < bp) return l;
      if (t.nl && !t.spa) return l;
      p++; const r = expr(t.v === '??' ? b : b + 1, nt); l = { k: 'bin', op: t.v, l, r };
    }
  }
  function unary(nt) {
    const t = pk();
    if (t.k === 'kw' && t.v === 'try') { p++; const q = !pk().sp && (is('!') || is('?')) ? T[p++].v : ''; return { k: 'try' + q, e: expr(0, nt) }; }
    if (t.k === 'op' && (t.v === '!' || t.v === '-' || t.v === '~' || t.v === '+')) { p++; return { k: 'un', op: t.v, e: unary(nt) }; }
    if (t.k === 'op' && t.v === '&') { p++; return { k: 'inout', e: unary(nt) }; }
    return postfix(nt);
  }
  function args(close) { const l = []; while (!is(close)) { let label = '_'; if ((pk().k === 'id' || pk().k === 'kw') && is(':', 1)) { label = pk().v; p += 2; } l.push({ label, e: expr(0) }); if (!opt(',')) break; } eat(close); return l; }
  function closure() {
    eat('{'); let ps = null; let q = p; // { a, b in … } or { (a: T) -> R in … }
    const names = []; let ok = false; if (pk().k === 'id') { for (;;) { if (pk().k !== 'id') break; names.push(pk().v); p++; if (opt(',')) continue; ok = is('in'); break; } } else if (is('(') || is('[')) { let d = 0, r = 0; while (pk(r).k !== 'eof') { const v = pk(r).v; if (pk(r).k === 'op' && (v === '(' || v === '[')) d++; if (pk(r).k === 'op' && (v === ')' || v === ']')) d--; if (v === 'in' && d === 0) gap('closure signature'); if (d === 0 && v !== ')' ) break; r++; } }
    if (ok) { eat('in'); ps = names; } else p = q;
    const b = []; while (!is('}')) { if (pk().k === 'eof') bad('unexpected end'); if (opt(';')) continue; b.push(stmt()); end(); } eat('}'); return { k: 'closure', ps, b };
  }
  function postfix(nt) {
    let e = primary(nt);
    for (;;) {
      const t = pk();
      if (t.k !== 'op') return e;
      if (t.v === '.' ) { p++; const n = pk(); if (n.k === 'int') gap('tuple'); if (n.k !== 'id' && n.k !== 'kw') bad('member'); p++; e = { k: 'mem', e, n: n.v }; continue; }
      if (t.v === '(' && !t.nl) { p++; const a = args(')'); if (!nt && is('{') && !pk().nl) a.push({ label: '_', e: closure() }); e = { k: 'call', f: e, a }; continue; }
      if (t.v === '[' && !t.nl) { p++; const a = args(']'); if (a.length !== 1) gap('subscript'); e = { k: 'sub', e, i: a[0].e }; continue; }
      if (t.v === '{' && !t.nl && !nt && (e.k === 'mem' || e.k === 'id')) { e = { k: 'call', f: e, a: [{ label: '_', e: closure() }] }; continue; }
      if (t.v === '!' && !t.sp && T[p].at === T[p - 1].end) { p++; e = { k: 'force', e }; continue; }
      if (t.v === '?' && T[p].at === T[p - 1].end && is('.', 1)) gap('optional chaining');
      return e;
    }
  }
  function primary(nt) {
    const t = pk();
    if (t.k === 'int') { p++; return { k: 'int', v: BigInt(t.v) }; }
    if (t.k === 'float') { p++; return { k: 'float', v: Number(t.v) }; }
    if (t.k === 'str') { p++; return { k: 'str', v: t.v }; }
    if (t.k === 'id') { p++; if (t.v === 'MemoryLayout' && is('<')) { p++; const y = type(); eat('>'); eat('.'); return { k: 'layout', t: y, n: ident() }; } return { k: 'id', n: t.v }; }
    if (t.k === 'kw') switch (t.v) { case 'true': case 'false': p++; return { k: 'bool', v: t.v === 'true' }; case 'nil': p++; return { k: 'nil' }; case 'self': p++; return { k: 'self' }; case 'Self': p++; return { k: 'Self' }; case 'super': p++; return { k: 'super' }; default: if (['if', 'switch'].includes(t.v)) gap(t.v + ' expression'); throw new BuildError(`keyword '${t.v}' in an expression, near line ${src.slice(0, t.at).split('\n').length}`); }
    if (t.k === 'op') {
      if (t.v === '(') { p++; if (opt(')')) return { k: 'void' }; const e = expr(0); if (is(',')) gap('tuple'); eat(')'); return { k: 'par', e }; }
      if (t.v === '[') { p++; const l = []; while (!is(']')) { l.push(expr(0)); if (is(':')) gap('dictionary'); if (!opt(',')) break; } eat(']'); return { k: 'arr', l }; }
      if (t.v === '{') return closure();
      if (t.v === '.') { p++; const n = pk(); p++; return { k: 'implicit', n: n.v }; }
    }
    bad('expected an expression');
  }
  const top = []; while (pk().k !== 'eof') { if (opt(';')) continue; const d = decl('top'); if (!d) gap('top-level statement'); top.push(...(Array.isArray(d) ? d : [d])); end(); }
  return top;
}
class Unparsed extends Error {}

// ---- tree to JavaScript ----
const BASIC = new Set([...Object.keys(INTS), ...Object.keys(FL), 'Bool', 'String', 'Data', 'NSMutableData']);
export function load_module(src) {
  let tree; try { tree = parse(src); } catch (e) { const u = (e instanceof Unparsed || e instanceof BuildError) && unfamiliar(src); if (u) throw new Gap('syntax ' + u); if (e instanceof Unparsed) throw new BuildError('does not parse: ' + e.message); throw e; }
  let N = 0; const out = []; const J = JSON.stringify;
  const js = n => '$' + n.replace(/[^A-Za-z0-9_]/g, c => '$' + c.codePointAt(0).toString(16)) + '_' + (++N);
  const types = []; // every declared type
  const mangle = (n, ls) => n + '$' + ls.join('$');
  // declarations
  function collect(list, outer) {
    const names = new Map();
    for (const d of list) {
      if (d.k === 'class' || d.k === 'struct' || d.k === 'enum') {
        if (outer.types.has(d.name) || names.has(d.name)) throw new BuildError(`invalid redeclaration of '${d.name}'`);
        if (BASIC.has(d.name)) gap('a type called ' + d.name);
        const t = { kind: d.k, name: d.name, outer, types: new Map(), mem: new Map(), d, js: js(d.name), ext: [] }; outer.types.set(d.name, t); types.push(t); collect(d.body, t);
      } else if (d.k === 'alias') gap('typealias');
    }
    for (const d of list) {
      const put = (key, v) => { const k = (v.st ? 's:' : 'i:') + key; if (outer.mem.has(k)) throw new BuildError(`invalid redeclaration of '${key}'`); outer.mem.set(k, v); };
      if (d.k === 'func') { const opts = d.ps.filter(q => q.d).length; for (let b = 0; b < 1 << opts; b++) { let i = 0; const ls = d.ps.filter(q => !q.d || (b >> i++ & 1)).map(q => q.label); if (b === (1 << opts) - 1) put(mangle(d.name, ls), { k: 'func', st: d.m.has('static') || outer.root, d }); else put(mangle(d.name, ls), { k: 'short', st: d.m.has('static') || outer.root, d, ls }); } }
      else if (d.k === 'init') { put(mangle('init', d.ps.map(q => q.label)), { k: 'init', st: true, d }); if (d.ps.some(q => q.d)) gap('default argument of init'); }
      else if (d.k === 'var') put(d.name, { k: 'prop', st: d.m.has('static') || outer.root, d });
      else if (d.k === 'case') put(d.name, { k: 'case', st: true, d });
    }
  }
  const root = { root: true, types: new Map(), mem: new Map(), js: '$root', outer: null };
  collect(tree, root);
  // lookups
  function findType(n, at) { for (let t = at; t; t = t.outer) { if (t.types.has(n)) return t.types.get(n); if (t.name === n) return t; } return BASIC.has(n) ? n : null; }
  function rtype(ty, at) { // to a type record, the name of a basic type, {arr}, {opt} or null (Void)
    if (!ty) return null;
    if (ty.k === 'arr') return { arr: rtype(ty.e, at) }; if (ty.k === 'opt') return { opt: rtype(ty.e, at) };
    if (ty.k === 'fun' || ty.k === 'inout') gap('type ' + ty.k);
    if (ty.n.length === 1 && ty.n[0] === 'Void') return null;
    if (ty.n[0] === 'Self') return at.self || at;
    let t = findType(ty.n[0], at); if (!t && ty.n[0] === 'Error') return null; if (!t) gap('type ' + ty.n.join('.'));
    for (const n of ty.n.slice(1)) { if (typeof t === 'string') gap('type ' + ty.n.join('.')); t = t.types.get(n) || gap('type ' + ty.n.join('.')); }
    return t;
  }
  const tjs = t => t === null ? 'null' : typeof t === 'string' ? J(FL[t] && t || t) : t.arr !== undefined || t.opt !== undefined ? 'null' : t.js;
  const sup = t => { if (t.supr === undefined) { t.supr = null; for (const y of t.d.inh) { const r = y.n && (y.n.length === 1 && y.n[0] === 'Error') ? null : rtype(y, t.outer); if (typeof r === 'string') t.raw = r; else if (r) { if (t.kind !== 'class' || r.kind !== 'class') gap('inheritance'); t.supr = r; } } } return t.supr; };
  function member(t, key) { // in a type and what it inherits from
    for (let x = t; x && !x.root; x = x.kind === 'class' ? sup(x) : null) for (const s of ['i:', 's:']) { if (x.mem.has(s + key)) return x.mem.get(s + key); for (const e of x.ext) if (e.has(s + key)) return e.get(s + key); }
    return null;
  }
  // environments: { vars: Map, up, fn }, fn: { type, st, ret, self }
  const scope = (env, fnn, brk) => ({ vars: new Map(), up: env, fn: fnn || env.fn, brk: brk === undefined ? env.brk : brk }); // brk: what an unlabelled break leaves, if that is a switch
  function declare(env, n, t) { if (n === '_') return js('_'); if (env.vars.has(n)) throw new BuildError(`invalid redeclaration of '${n}'`); const v = { js: js(n), t }; env.vars.set(n, v); return v.js; }
  const local = (env, n) => { for (let e = env; e; e = e.up) if (e.vars.has(n)) return e.vars.get(n); return null; };
  const selfOf = env => env.fn.self || gap('self');
  const coerce = (t, x) => t === null ? x : typeof t === 'string' || t.js ? `R.typed(${tjs(t)}, ${x})` : x;
  function typeExpr(e, env) { // an expression that names a type
    if (e.k === 'id') { if (local(env, e.n)) return null; return findType(e.n, env.fn.type); }
    if (e.k === 'Self') return env.fn.type;
    if (e.k === 'par') return typeExpr(e.e, env);
    if (e.k === 'mem') { const t = typeExpr(e.e, env); if (t && typeof t !== 'string') return t.types.get(e.n) || null; if (e.e.k === 'id' && e.e.n === 'Swift' && !local(env, 'Swift')) return BASIC.has(e.n) ? e.n : null; }
    return null;
  }
  const bareStatic = (env, v, key, owner) => { // an unqualified static member: of which type object
    return owner === env.fn.type || isSub(env.fn.type, owner) ? (env.fn.st ? 'this' : null) : owner.js; };
  const isSub = (t, o) => { for (let x = t; x && !x.root; x = x.kind === 'class' ? sup(x) : null) if (x === o) return true; return false; };
  function lookup(env, key) { // an unqualified member or global: [owner, entry]
    for (let t = env.fn.type; t; t = t.outer) { if (t.root) { const v = t.mem.get('s:' + key); return v ? [t, v] : null; } const m = member(t, key); if (m) return [t, m]; }
    return null;
  }
  function X(e, env) { // expression
    switch (e.k) {
      case 'int': return `R.lit(${e.v}n)`; case 'float': return `R.flit(${e.v})`; case 'str': return J(e.v); case 'bool': return String(e.v); case 'nil': return 'null'; case 'void': return 'undefined';
      case 'par': return X(e.e, env);
      case 'try': return X(e.e, env);
      case 'try!': return `(() => { try { return ${X(e.e, env)}; } catch (e) { if (e instanceof R.Thrown) R.fatal('try!'); throw e; } })()`;
      case 'try?': return `(() => { try { return ${X(e.e, env)}; } catch (e) { if (e instanceof R.Thrown) return null; throw e; } })()`;
      case 'self': return selfOf(env); case 'Self': return env.fn.st ? 'this' : `${selfOf(env)}.constructor`;
      case 'arr': return `[${e.l.map(x => `R.cp(${X(x, env)})`).join(', ')}]`;
      case 'implicit': return `R.implicit(${J(e.n)})`;
      case 'un': return e.op === '!' ? `!R.truth(${X(e.e, env)})` : e.op === '-' ? `R.neg(${X(e.e, env)})` : e.op === '~' ? `R.inv(${X(e.e, env)})` : X(e.e, env);
      case 'bin': if (e.op === '&&' || e.op === '||') return `(R.truth(${X(e.l, env)}) ${e.op} R.truth(${X(e.r, env)}))`; if (e.op === '??') return `(${X(e.l, env)} ?? ${X(e.r, env)})`; return e.op === '+' ? `R.plus(${X(e.l, env)}, ${X(e.r, env)})` : `R.op[${J(e.op)}](${X(e.l, env)}, ${X(e.r, env)})`;
      case 'tern': return `(R.truth(${X(e.c, env)}) ? ${X(e.a, env)} : ${X(e.b, env)})`;
      case 'as': case 'as!': return `R.cast(${X(e.l, env)}, ${tjs(rtype(e.t, env.fn.type))})`; case 'as?': return `R.castq(${X(e.l, env)}, ${tjs(rtype(e.t, env.fn.type))})`;
      case 'is': return `(R.castq(${X(e.l, env)}, ${tjs(rtype(e.t, env.fn.type))}) !== null)`;
      case 'force': return `R.force(${X(e.e, env)})`;
      case 'layout': return `R.layout(${tjs(rtype(e.t, env.fn.type))}, ${J(e.n)})`;
      case 'inout': { const t = X(e.e, env); return `R.ref(() => ${t}, $v => { ${assign(e.e, '$v', env)} })`; }
      case 'sub': return `R.sub(${X(e.e, env)}, ${X(e.i, env)})`;
      case 'closure': { const s = scope(env, { ...env.fn, ret: undefined, closure: true }); const ps = e.ps || ['$0', '$1', '$2']; const names = ps.map(n => declare(s, n)); const b = e.b.length === 1 && e.b[0].k === 'expr' ? `return ${X(e.b[0].e, s)};` : S(e.b, s); return `((${names.join(', ')}) => { ${b} })`; }
      case 'id': {
        const v = local(env, e.n); if (v) return v.js;
        const l = lookup(env, e.n); if (l) return place(env, l, e.n);
        const t = findType(e.n, env.fn.type); if (t && typeof t !== 'string') return t.js;
        gap('name ' + e.n);
      }
      case 'mem': {
        if (e.n === 'self') { const t = typeExpr(e.e, env); if (t) return tjs(t); return X(e.e, env); }
        const t = typeExpr(e.e, env);
        if (typeof t === 'string') return `R.tget(${J(t)}, ${J(e.n)})`;
        if (t) { const m = member(t, e.n); if (m && m.st) return `R.get(${e.e.k === 'Self' ? X(e.e, env) : t.js}, ${J(e.n)})`; if (t.types.has(e.n)) return t.types.get(e.n).js; if (e.n === 'allCases') gap('allCases'); throw new BuildError(`type '${t.name}' has no member '${e.n}'`); }
        if (e.e.k === 'mem' && e.e.n === 'Encoding') return `R.encoding(${X(e.e, env)}, ${J(e.n)})`;
        return `R.get(${X(e.e, env)}, ${J(e.n)})`;
      }
      case 'call': return callx(e, env);
      case 'super': gap('super');
    }
    gap('expression ' + e.k);
  }
  function place(env, [owner, m], n) {
    if (owner.root) return m.k === 'prop' ? `$root[${J(n)}]` : gap('global ' + n);
    if (m.k === 'func' || m.k === 'short') gap('a function as a value');
    if (m.st) { const b = bareStatic(env, m, n, owner); if (b === null) throw new BuildError(`static member '${n}' cannot be used on an instance`); return `R.get(${b}, ${J(n)})`; }
    if (env.fn.type !== owner && !isSub(env.fn.type, owner) || env.fn.st) throw new BuildError(`instance member '${n}' cannot be used here`);
    return `R.get(${selfOf(env)}, ${J(n)})`;
  }
  const A = (a, env) => a.map(x => x.e.k === 'inout' ? X(x.e, env) : `R.cp(${X(x.e, env)})`);
  function construct(t, a, env, obj) {
    const ls = a.map(x => x.label), key = ls.join('$'), as = A(a, env).map(x => ', ' + x).join('');
    if (typeof t === 'string') return `R.make(${J(t)}, ${J(key)}${as.replace(/^$/, '')})`;
    if (t.kind === 'enum') { sup(t); if (key === 'rawValue' && t.raw) return `${t.js}.init$rawValue(${as.slice(2)})`; gap('enum init'); }
    return `${obj || t.js}.${J('init$' + key).replace(/^"|"$/g, '').replace(/[^A-Za-z0-9_$]/g, () => gap('label'))}(${as.slice(2)})`;
  }
  function callx(e, env) {
    const f = e.f, ls = e.a.map(x => x.label);
    if (f.k === 'arr') { if (e.a.length || f.l.length !== 1) gap('call of an array'); return '[]'; }
    if (f.k === 'par') gap('call of an expression');
    const t0 = typeExpr(f, env); if (t0) { if (typeof t0 !== 'string' && !hasInit(t0, ls) ) throw new BuildError(`no initialiser of '${t0.name}' takes (${ls.join(':')})`); return construct(t0, e.a, env, f.k === 'Self' ? X(f, env) : null); }
    if (f.k === 'id') {
      const v = local(env, f.n); if (v) return `${v.js}(${A(e.a, env).join(', ')})`;
      const key = mangle(f.n, ls), l = lookup(env, key);
      if (l) { const [o, m] = l; if (o.root) return `$root[${J(key)}](${A(e.a, env).join(', ')})`; if (m.st) { const b = bareStatic(env, m, key, o); if (b === null) throw new BuildError(`static member '${f.n}' cannot be used on an instance`); return `R.call(${[b, J(key), ...A(e.a, env)].join(', ')})`; } if (env.fn.type !== o && !isSub(env.fn.type, o) || env.fn.st) throw new BuildError(`instance member '${f.n}' cannot be used here`); return `R.call(${[selfOf(env), J(key), ...A(e.a, env)].join(', ')})`; }
      if (BUILTIN[key]) return `R.BUILTIN[${J(key)}](${A(e.a, env).join(', ')})`;
      gap('function ' + key);
    }
    if (f.k === 'mem') {
      const key = mangle(f.n, ls);
      if (f.e.k === 'super') { if (f.n === 'init') return `super.$super()`; gap('super'); }
      if (f.e.k === 'id' && f.e.n === 'Swift' && !local(env, 'Swift') && !findType('Swift', env.fn.type)) return BUILTIN[key] ? `R.BUILTIN[${J(key)}](${A(e.a, env).join(', ')})` : gap('Swift.' + key);
      const t = typeExpr(f.e, env);
      if (f.n === 'init') { if (t) return construct(t, e.a, env, f.e.k === 'Self' ? X(f.e, env) : null); if (f.e.k === 'self') gap('self.init'); }
      if (typeof t === 'string') gap(`${t}.${key}`);
      if (t) { const m = member(t, key); if (!m || !m.st) throw new BuildError(`type '${t.name}' has no member '${key}'`); }
      const o = t && f.e.k !== 'Self' ? t.js : X(f.e, env);
      return `R.call(${[o, J(key), ...A(e.a, env)].join(', ')})`;
    }
    gap('call of ' + f.k);
  }
  function hasInit(t, ls) { if (t.kind === 'enum') return true; const key = mangle('init', ls); for (let x = t; x && !x.root; x = sup(x)) { if (x.mem.has('s:' + key)) return true; } let any = false; for (const k of t.mem.keys()) if (k.startsWith('s:init$')) any = true; return !any; }
  function assign(l, x, env) {
    if (l.k === 'id') { if (l.n === '_') return `${x};`; const v = local(env, l.n); if (v) return v.t ? `${v.js} = ${coerce(v.t, x)};` : `${v.js} = R.asg(${v.js}, ${x});`; const k = lookup(env, l.n); if (k && k[1].k === 'prop' && !k[1].st) return `R.setf(${selfOf(env)}, ${J(l.n)}, ${x});`; gap('assignment to ' + l.n); }
    if (l.k === 'mem') { if (typeExpr(l.e, env)) gap('static assignment'); return `R.setf(${X(l.e, env)}, ${J(l.n)}, ${x});`; }
    if (l.k === 'sub') return `R.setsub(${X(l.e, env)}, ${X(l.i, env)}, ${x});`;
    gap('assignment');
  }
  const K = (c, env) => c.map(x => `R.truth(${X(x, env)})`);
  function condsJs(cs, env, onFail) { // emits checks into a sequence of statements
    let s = ''; for (const c of cs) {
      if (c.k === 'cond') s += `if (!R.truth(${X(c.e, env)})) { ${onFail} } `;
      else { const e = c.e ? X(c.e, env) : X({ k: 'id', n: c.name }, env); const n = declare(env, c.name); s += `let ${n} = R.cp(${e}); if (${n} === null) { ${onFail} } `; }
    } return s;
  }
  function leaves(b) { if (!b.length) return false; const s = b[b.length - 1]; return ['return', 'throw', 'break', 'continue'].includes(s.k) || s.k === 'expr' && s.e.k === 'call' && s.e.f.k === 'id' && /^(fatalError|preconditionFailure)$/.test(s.e.f.n) || s.k === 'if' && s.e && leaves(s.b) && leaves(s.e) || s.k === 'switch' || s.k === 'do' || s.k === 'while'; }
  function S(list, env) { // statements; a defer covers what follows it
    let s = ''; for (let i = 0; i < list.length; i++) { const st = list[i]; if (st.k === 'defer') { return s + `try { ${S(list.slice(i + 1), env)} } finally { ${S(st.b, scope(env))} }`; } s += one(st, env) + '\n'; } return s;
  }
  function one(st, env) {
    switch (st.k) {
      case 'decls': return st.l.map(d => { if (d.k !== 'var') gap('declaration'); if (d.g) gap('computed local'); const t = d.t ? rtype(d.t, env.fn.type) : null; const x = d.e ? X(d.e, env) : null; const n = declare(env, d.name, t && (typeof t === 'string' || t.js) ? t : null); return `let ${n}${x ? ` = ${t ? coerce(t, `R.cp(${x})`) : `R.deft(R.cp(${x}))`}` : ''};`; }).join(' ');
      case 'expr': return X(st.e, env) + ';';
      case 'assign': { const r = st.op === '=' ? `R.cp(${X(st.r, env)})` : st.op === '+=' ? `R.plus(${X(st.l, env)}, ${X(st.r, env)})` : `R.op[${J(st.op.slice(0, -1))}](${X(st.l, env)}, ${X(st.r, env)})`; return assign(st.l, r, env); }
      case 'return': if (env.fn.ret === undefined || !st.e) return st.e ? `return R.cp(${X(st.e, env)});` : 'return;'; return `return ${coerce(env.fn.ret, `R.cp(${X(st.e, env)})`)};`;
      case 'throw': return `R.raise(${X(st.e, env)});`;
      case 'break': return env.brk ? `break ${env.brk};` : 'break;'; case 'continue': return 'continue;';
      case 'if': { const inner = scope(env); const lab = js('if'); const body = condsJs(st.c, inner, `break ${lab}t;`) + S(st.b, scope(inner)); return `${lab}: { ${lab}t: { ${body} break ${lab}; } ${st.e ? S(st.e, scope(env)) : ''} }`; }
      case 'guard': { if (!leaves(st.b)) throw new BuildError("'guard' body must not fall through"); const b = S(st.b, scope(env)); return condsJs(st.c, env, b); }
      case 'while': { const inner = scope(env, null, null); return `while (true) { ${condsJs(st.c, inner, 'break;')} ${S(st.b, scope(inner))} }`; }
      case 'repeat': return `do { ${S(st.b, scope(env, null, null))} } while (R.truth(${X(st.e, env)}));`;
      case 'for': { const inner = scope(env, null, null); const e = X(st.e, env); const n = declare(inner, st.name); return `for (let ${n} of R.each(${e})) { ${st.w ? `if (!R.truth(${X(st.w, inner)})) continue; ` : ''}${S(st.b, scope(inner))} }`; }
      case 'do': { if (!st.c.length) return `{ ${S(st.b, scope(env))} }`; const v = js('e'); return `try { ${S(st.b, scope(env))} } catch (${v}) { if (!(${v} instanceof R.Thrown)) throw ${v}; ${st.c.map(c => `if (${c.pat ? `R.matches(${v}.v, ${X(c.pat, env)})` : 'true'}) { ${S(c.b, scope(env))} } else `).join('')} throw ${v}; }`; }
      case 'switch': {
        const v = js('s'), lab = js('sw'); let hasDef = false; const seen = new Set(); let en = null, all = true;
        const parts = st.l.map(c => { if (!c.pats) { hasDef = true; return `{ ${S(c.b, scope(env, null, lab))} break ${lab}; }`; } for (const q of c.pats) { const t = q.k === 'mem' ? typeExpr(q.e, env) : null; if (t && t.kind === 'enum') { en = t; if (!t.mem.has('s:' + q.n)) throw new BuildError(`no case ${q.n}`); seen.add(q.n); } else all = false; } return `if (${c.pats.map(q => `R.matches(${v}, ${X(q, env)})`).join(' || ')}) { ${S(c.b, scope(env, null, lab))} break ${lab}; }`; });
        if (st.l.some(c => c.b.some(x => x.k === 'fallthrough'))) gap('fallthrough');
        if (!hasDef && all && en) { for (const d of en.d.body) if (d.k === 'case' && !seen.has(d.name)) throw new BuildError('switch must be exhaustive: ' + d.name); }
        if (!hasDef && !en && all) throw new BuildError('switch must be exhaustive');
        return `${lab}: { const ${v} = ${X(st.e, env)}; ${parts.join(' ')} }`;
      }
      case 'decl': case 'func': gap('local function');
    }
    gap('statement ' + st.k);
  }
  function func(d, t, st, key) { // a method in object-literal style
    const fnn = { type: t, st, self: st ? 'this' : '$self', ret: d.ret === undefined ? undefined : rtype(d.ret, t) };
    if (st) fnn.self = null;
    const env = { vars: new Map(), up: null, fn: fnn }; const inner = scope(env);
    const ps = d.ps.map(q => ({ n: declare(env, q.name), t: rtype(q.t, t), q }));
    const pre = ps.map(q => (q.q.d ? `if (${q.n} === undefined) ${q.n} = ${X(q.q.d, env)}; ` : '') + (q.t && (typeof q.t === 'string' || q.t.js) ? `${q.n} = ${coerce(q.t, q.n)}; ` : '')).join('');
    const single = d.body.length === 1 && d.body[0].k === 'expr' && d.ret && fnn.ret !== null;
    const body = single ? one({ k: 'return', e: d.body[0].e }, inner) : S(d.body, inner);
    return `function(${ps.map(q => q.n).join(', ')}) { ${st ? '' : 'const $self = this; '}${pre}${body} }`;
  }
  function emitType(t) {
    sup(t); const C = t.js;
    const base = t.supr ? t.supr.js : t.kind === 'class' ? 'R.Klass' : t.kind === 'struct' ? 'R.Struct' : 'R.Enumeration';
    const fields = t.d.body.filter(d => d.k === 'var' && !d.m.has('static') && !d.g);
    const env0 = { vars: new Map(), up: null, fn: { type: t, st: true, self: null, ret: undefined } };
    out.push(`${C} = class extends ${base} {};`);
    if (t.kind === 'enum') { const cs = t.d.body.filter(d => d.k === 'case'); for (const d of t.d.body) if (d.k === 'var' && !d.m.has('static') && !d.g) throw new BuildError('enums must not contain stored properties'); out.push(`R.cases(${C}, ${t.raw ? J(t.raw) : 'null'}, [${cs.map(d => `[${J(d.name)}, ${d.raw ? X(d.raw, env0) : 'undefined'}]`).join(', ')}]);`); }
    for (const d of fields) if (!d.t && !d.e) throw new BuildError('type annotation missing in pattern');
    const ft = fields.map(d => [d, d.t ? rtype(d.t, t) : null]);
    out.push(`${C}.prototype.$types = Object.assign(Object.create(${t.supr ? `${t.supr.js}.prototype.$types` : 'null'}), {${ft.filter(([d, r]) => r && (typeof r === 'string' || r.js)).map(([d, r]) => `get ${J(d.name)}() { return ${tjs(r)}; }`).join(', ')}});`);
    // Object.assign evaluates getters: types are all known by now only through deferral, so define them after every class exists
    out.pop();
    late.push(() => `${C}.prototype.$types = Object.assign(Object.create(${t.supr ? `${t.supr.js}.prototype.$types` : 'null'}), {${ft.filter(([d, r]) => r && (typeof r === 'string' || r.js)).map(([d, r]) => `${J(d.name)}: ${tjs(r)}`).join(', ')}});`);
    out.push(`${C}.$fields = function(o) { ${t.supr ? `${t.supr.js}.$fields(o); ` : ''}${ft.map(([d, r]) => d.e || r && r.opt !== undefined ? `o[${J(d.name)}] = ${coerce(r, d.e ? (r ? X(d.e, env0) : `R.deft(${X(d.e, env0)})`) : 'null')};` : '').join(' ')} };`);
    const inits = t.d.body.filter(d => d.k === 'init');
    if (t.kind !== 'enum') {
      for (const d of inits) { const key = mangle('init', d.ps.map(q => q.label)); const f = func({ ...d, ret: null, body: d.body }, { ...t, self: t }.d ? t : t, false); out.push(`{ const $f = ${f}; ${C}[${J(key)}] = function(...a) { const o = Object.create(this.prototype); this.$fields(o); $f.apply(o, a); return o; }; }`); }
      const need = ft.filter(([d]) => !d.e && d.kind !== 'never');
      if (!inits.length && !t.supr) { out.push(`${C}.init$ = function() { const o = Object.create(this.prototype); this.$fields(o); return o; };`); }
      if (!inits.length && t.kind === 'struct' && ft.length) { const k = mangle('init', ft.map(([d]) => d.name)); out.push(`${C}[${J(k)}] = function(...a) { const o = Object.create(this.prototype); this.$fields(o); ${J(ft.map(([d]) => d.name))}.forEach((n, i) => R.setf(o, n, a[i])); return o; };`); }
    }
    methods(t, t.d.body, C);
  }
  function methods(t, body, C) {
    for (const d of body) {
      if (d.k === 'func') { const st = d.m.has('static'); const key = mangle(d.name, d.ps.map(q => q.label)); const f = func({ ...d, ret: d.ret || null }, t, st); out.push(`${C}${st ? '' : '.prototype'}[${J(key)}] = ${f};`); shorts(d, `${C}${st ? '' : '.prototype'}`, key); }
      else if (d.k === 'var' && d.g) { const st = d.m.has('static'); const f = func({ ps: [], ret: d.t, body: d.g }, t, st); out.push(`Object.defineProperty(${C}${st ? '' : '.prototype'}, ${J(d.name)}, { get: ${f}, configurable: true });`); }
      else if (d.k === 'var' && d.m.has('static')) { const env0 = { vars: new Map(), up: null, fn: { type: t, st: true, self: null, ret: undefined } }; const r = d.t ? rtype(d.t, t) : null; out.push(`{ let c, done = false; Object.defineProperty(${C}, ${J(d.name)}, { get() { if (!done) { done = true; c = ${coerce(r, r ? X(d.e, env0) : `R.deft(${X(d.e, env0)})`)}; } return R.cp(c); }, configurable: true }); }`); }
    }
  }
  function shorts(d, where, key) { const opts = d.ps.filter(q => q.d).length; for (let b = 0; b < (1 << opts) - 1; b++) { let i = 0; const given = d.ps.map(q => !q.d || (b >> i++ & 1)); const ls = d.ps.filter((q, j) => given[j]).map(q => q.label); out.push(`${where}[${J(mangle(d.name, ls))}] = function(...a) { let i = 0; return this[${J(key)}](...${J(given.map(g => g ? 1 : 0))}.map(g => g ? a[i++] : undefined)); };`); } }
  const late = [];
  // extensions
  const exts = tree.filter(d => d.k === 'extension');
  const nested = types.flatMap(t => t.d.body.filter(d => d.k === 'extension')); if (nested.length) throw new BuildError('an extension must be at the top level');
  const arrays = [];
  for (const x of exts) {
    const n = x.name.k === 'n' ? x.name.n : gap('extension');
    if (n.length === 1 && n[0] === 'Array') {
      if (!x.where || x.where[1] !== '==' && x.where[1] !== ':' || !x.where[0].n || x.where[0].n[0] !== 'Element') gap('extension'); const el = rtype(x.where[2], root);
      const t = { kind: 'array', name: 'Array', outer: root, types: new Map(), mem: new Map(), d: { inh: [], body: x.body }, js: js('Array'), ext: [], el }; for (const d of x.body) { if (d.k !== 'func' || d.m.has('static')) gap('extension'); const k = 'i:' + mangle(d.name, d.ps.map(q => q.label)); if (t.mem.has(k)) throw new BuildError('invalid redeclaration'); t.mem.set(k, { k: 'func', st: false, d }); }
      t.mem.set('i:count', { k: 'prop', st: false }); t.mem.set('i:isEmpty', { k: 'prop', st: false }); arrays.push(t);
    } else { const t = rtype(x.name, root); if (typeof t === 'string') gap('extension of ' + t); for (const d of x.body) if (d.k !== 'func' && !(d.k === 'var' && d.g)) gap('extension member'); const mm = new Map(); for (const d of x.body) { const st = d.m.has('static'); const k = (st ? 's:' : 'i:') + (d.k === 'func' ? mangle(d.name, d.ps.map(q => q.label)) : d.name); if (t.mem.has(k)) throw new BuildError('invalid redeclaration of ' + k); mm.set(k, { k: d.k === 'func' ? 'func' : 'prop', st, d }); } t.ext.push(mm); t.extBodies = [...(t.extBodies || []), x.body]; }
  }
  // classes before what inherits from them
  const done = new Set(), order = []; const visit = t => { if (done.has(t)) return; done.add(t); const s = sup(t); if (s) visit(s); order.push(t); }; types.forEach(visit);
  for (const t of order) { emitType(t); for (const b of t.extBodies || []) methods(t, b, t.js); }
  for (const l of late) out.push(l());
  for (const d of tree) if (d.k === 'func') { const key = mangle(d.name, d.ps.map(q => q.label)); out.push(`$root[${J(key)}] = ${func({ ...d, ret: d.ret || null }, root, true)};`); shorts(d, '$root', key); } else if (d.k === 'var') gap('global variable');
  for (const t of arrays) { out.push(`const ${t.js} = class {};`); methods(t, t.d.body, t.js); out.push(`R.arrayExt.push({ ns: $key, f: ${t.js}.prototype });`); }
  const src2 = `"use strict"; const $root = {}; let ${order.map(t => t.js).join(', ') || '$none'};\n${out.join('\n')}\nreturn { root: $root, types: {${order.map(t => `${J(path(t))}: ${t.js}`).join(', ')}} };`;
  function path(t) { const l = []; for (let x = t; x && !x.root; x = x.outer) l.unshift(x.name); return l.join('.'); }
  const key = {}; const R = RT; enter(key);
  let m; try { m = new Function('R', '$key', src2)(R, key); } catch (e) { if (e instanceof SyntaxError) gap('translation: ' + e.message); throw e; }
  m.key = key; m.text = src2; return m;
}
export const deft = def;
const RT = { typed, cp, co, deft, asg, op, neg, inv, truth, force, lit, flit, implicit, ref, each, fatal, call, BUILTIN, make, get, tget, layout, setf, encoding, sub, setsub, cast, castq, plus, raise, matches, cases, arrayExt, Thrown, Klass, Struct, Enumeration };
