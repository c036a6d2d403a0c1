// What the translated AssemblyScript code calls.
export function __as(t, x) {
  if (t === 'bool') return !!x && x !== 0n;
  if (t === 'f64') return Number(x);
  if (t === 'f32') return Math.fround(Number(x));
  const b = typeof x === 'bigint' ? x : BigInt(typeof x === 'boolean' ? (x ? 1 : 0) : Number.isFinite(x) ? Math.trunc(x) : 0);
  switch (t) {
    case 'u8': return Number(BigInt.asUintN(8, b)); case 'i8': return Number(BigInt.asIntN(8, b));
    case 'u16': return Number(BigInt.asUintN(16, b)); case 'i16': return Number(BigInt.asIntN(16, b));
    case 'u32': case 'usize': return Number(BigInt.asUintN(32, b)); case 'i32': case 'isize': return Number(BigInt.asIntN(32, b));
    case 'u64': return BigInt.asUintN(64, b); case 'i64': return BigInt.asIntN(64, b);
  }
  return x;
}
export function __bin(op, a, b) {
  if (typeof a !== typeof b && (typeof a === 'bigint' || typeof b === 'bigint') && typeof a !== 'string' && typeof b !== 'string') { a = BigInt(a); b = BigInt(b); }
  switch (op) { case '+': return a + b; case '-': return a - b; case '*': return a * b; case '%': return a % b; case '&': return a & b; case '|': return a | b; case '^': return a ^ b; case '<<': return a << b; case '>>': return a >> b;
    case '/': return typeof a === 'bigint' ? a / b : Number.isInteger(a) && Number.isInteger(b) ? Math.trunc(a / b) : a / b; }
}
export function __arr(t, n) {
  n = Number(n === undefined ? 0 : n);
  if (!(n >= 0 && n <= 268435455)) throw new RangeError('Invalid length');   // the limit of AssemblyScript's Array
  if (n > 4000000) throw new RangeError('out of memory');
  const d = t === 'u64' || t === 'i64' ? 0n : t === 'bool' ? false : t === 'string' || t === 'ref' ? null : 0;
  const a = []; for (let i = 0; i < n; i++) a.push(d); return a;
}
export function __neg(x) { return -x; }
const te = new TextEncoder(), td = new TextDecoder('utf-8', { ignoreBOM: true });
if (!String.UTF8) {
  String.UTF8 = {
    byteLength: (s, z) => te.encode(s).length + (z ? 1 : 0),
    encode: (s, z) => { const b = te.encode(s + (z ? '\0' : '')); return b.buffer.slice(b.byteOffset, b.byteOffset + b.length); },
    decode: (b, z) => { let u = new Uint8Array(b); if (z) { const i = u.indexOf(0); if (i >= 0) u = u.subarray(0, i); } return td.decode(u); } };
  Uint8Array.wrap = (b, o, l) => new Uint8Array(b, o, l);
  const P = DataView.prototype;
  P.getUint64 = P.getBigUint64; P.getInt64 = P.getBigInt64;
  P.setUint64 = function (o, v, l) { this.setBigUint64(o, BigInt(v), l); }; P.setInt64 = function (o, v, l) { this.setBigInt64(o, BigInt(v), l); };
}
