"""Rust driver glue: builders, printers and operations for one generated module."""
import re
from ..schema import View

RT = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "uint64": "u64", "int64": "i64", "float": "f32", "double": "f64"}


def snake(s):
    s = re.sub('(.)([A-Z][a-z]+)', r'\1_\2', s)
    return re.sub('([a-z0-9])([A-Z])', r'\1_\2', s).lower()


def glue(s, idx, path, rename=True):
    v = View(s)
    fn = snake if rename else (lambda x: x)
    o = [f"mod g{idx} {{ include!({path!r}); }}".replace("'", '"')] if False else [f'#[path = "{path}"] #[allow(warnings)] mod g{idx};']
    a = o.append
    a(f"mod d{idx} {{ use crate::ctx::Ctx; use crate::g{idx} as g; use g::MessageCodec; use std::panic::{{catch_unwind, AssertUnwindSafe}};")
    P = v.ns or "Beschi"

    def rd(t):
        k = v.kind(t)
        if k == "struct": return f"b_{t}(c)"
        if k == "enum": return "match c.i() { " + " ".join(f"{n} => g::{t}::{e}," for e, n in v.enums[t]["entries"]) + ' _ => panic!("driver enum") }'
        return {"string": "c.s()", "bool": "c.b()", "float": "c.f()", "double": "c.d()"}.get(k) or (f"c.i() as {RT[k]}" if k.startswith("int") else f"c.u() as {RT[k]}")

    def pr(t, e):
        k = v.kind(t)
        if k == "struct": return f"p_{t}(&{e}, c);"
        if k == "enum": return f"c.w({e} as i64);"
        return {"string": f"c.ws(&{e});", "bool": f"c.w(if {e} {{ 1 }} else {{ 0 }});", "float": f"c.w({e}.to_bits());", "double": f"c.w({e}.to_bits());"}.get(k) or f"c.w({e});"

    for sd in [v.structs[n] for n in v.used_structs()] + v.messages:
        n = sd["name"]
        a(f"fn b_{n}(c: &mut Ctx) -> g::{n} {{ let mut m = g::{n}::default();")
        for x, t, l in sd["members"]:
            if l: a(f"m.{fn(x)} = Vec::new(); for _ in 0..c.us() {{ let e = {rd(t)}; m.{fn(x)}.push(e); }}")
            else: a(f"m.{fn(x)} = {rd(t)};")
        a("m }")
        a(f"fn p_{n}(m: &g::{n}, c: &mut Ctx) {{")
        for x, t, l in sd["members"]:
            if l: a(f"c.w(m.{fn(x)}.len()); for e in &m.{fn(x)} {{ {pr(t, '(*e)')} }}")
            else: a(pr(t, f"m.{fn(x)}"))
        a("}")
    ms = v.messages
    a("fn mk(mi: i64, c: &mut Ctx) -> g::Message { match mi {")
    for i, m in enumerate(ms): a(f"{i+1} => g::Message::{m['name']}(b_{m['name']}(c)),")
    a('_ => panic!("driver mi") } }')
    a("fn ty(m: &g::Message) -> i64 { mt(m.get_message_type()) }")
    a("fn mt(t: g::MessageType) -> i64 { match t { " + " ".join(f"g::MessageType::{m['name']} => {i+1}," for i, m in enumerate(ms)) + " } }")
    a("fn pm(m: &g::Message, c: &mut Ctx) { let k = ty(m); c.w(k); match m {")
    for i, m in enumerate(ms): a(f"g::Message::{m['name']}(x) => {{ if k != {i+1} || mt(x.get_message_type()) != {i+1} {{ c.w(\"?wrongtype\"); }} p_{m['name']}(x, c) }}")
    a("} }")
    a(f"fn en(e: &g::{P}Error) -> &'static str {{ match e {{ g::{P}Error::EndOfFile => \"EndOfFile\", g::{P}Error::InvalidData => \"InvalidData\", g::{P}Error::EndOfMessageList => \"EndOfMessageList\" }} }}")
    a(f"fn from(mi: i64, r: &mut g::BufferReader) -> Result<g::Message, g::{P}Error> {{ match mi {{")
    for i, m in enumerate(ms): a(f"{i+1} => g::{m['name']}::from_bytes(r).map(g::Message::{m['name']}),")
    a('_ => panic!("driver mi") } }')
    a("fn sized(m: &g::Message) -> usize { match m {")
    for m in ms: a(f"g::Message::{m['name']}(x) => x.get_size_in_bytes(),")
    a("} }")
    a("fn wr(m: &g::Message, w: &mut Vec<u8>, tag: bool) { match m {")
    for m in ms: a(f"g::Message::{m['name']}(x) => x.write_bytes(w, tag),")
    a("} }")
    a("fn def(mi: i64) -> g::Message { match mi {")
    for i, m in enumerate(ms): a(f"{i+1} => g::Message::{m['name']}(g::{m['name']}::default()),")
    a('_ => panic!("driver mi") } }')
    a(r"""
pub fn op(o: &str, c: &mut Ctx) { match o {
 "W" | "G" => { let mi = c.i(); let tag = c.i() != 0; c.i(); c.i(); c.i(); let off = c.us(); let m = mk(mi, c); let mut w: Vec<u8> = vec![0xAA; off];
   if o == "W" { wr(&m, &mut w, tag) } else { m.write_bytes(&mut w, tag) }
   c.w("ok"); c.w(sized(&m)); c.w(m.get_size_in_bytes()); c.w(w.len()); c.w(if w[..off].iter().all(|x| *x == 0xAA) { 1 } else { 0 }); c.wx(&w[off..]); }
 "R" => { let mi = c.i(); let style = c.i(); let (v, off) = c.view();
   let mut r = if style == 1 { g::BufferReader::from_vec(v.clone()) } else { g::BufferReader::new(&v) }; if off != 0 { r.current_position = off; }
   match from(mi, &mut r) { Err(e) => { c.w("err"); c.w(en(&e)); } Ok(m) => { c.w("ok"); c.w(r.current_position); pm(&m, c); } } }
 "P" | "U" => { let max = if o == "P" { c.i() as i32 } else { 0 }; let (v, off) = c.view(); let mut r = g::BufferReader::new(&v); if off != 0 { r.current_position = off; }
   match if o == "P" { g::process_raw_bytes(&mut r, max) } else { g::unpack_messages(&mut r) } { Err(e) => { c.w("err"); c.w(en(&e)); } Ok(l) => { c.w("ok"); c.w(r.current_position); c.w(l.len()); for m in &l { pm(m, c); } } } }
 "K" => { c.i(); c.i(); c.i(); let off = c.us(); let n = c.us(); let mut l = Vec::new(); for _ in 0..n { let mi = c.i(); l.push(mk(mi, c)); } let mut w: Vec<u8> = vec![0xAA; off]; g::pack_messages(&l, &mut w);
   c.w("ok"); c.w(g::get_packed_size(&l)); c.w(w.len()); c.w(if w[..off].iter().all(|x| *x == 0xAA) { 1 } else { 0 }); c.wx(&w[off..]); }
 "Q" => { c.i(); let off = c.us(); c.i(); c.i(); let n = c.us(); let mut w: Vec<u8> = vec![0xAA; off]; let mut it = Vec::new(); c.w("ok");
   for _ in 0..n { let mi = c.i(); let tag = c.i() != 0; let m = mk(mi, c); wr(&m, &mut w, tag); it.push((mi, tag)); c.w("w"); c.w(w.len()); }
   c.w("b"); c.w(1); c.wx(&w[off..]); let mut r = g::BufferReader::new(&w); if off != 0 { r.current_position = off; }
   for (mi, tag) in it { if tag { match g::process_raw_bytes(&mut r, 1) { Err(_) => { c.w("rerr"); break; } Ok(l) => { c.w("t"); c.w(r.current_position); c.w(l.len()); for m in &l { pm(m, c); } } } }
     else { match from(mi, &mut r) { Err(_) => { c.w("rerr"); break; } Ok(m) => { c.w("r"); c.w(r.current_position); pm(&m, c); } } } } }
 "D" => { let mi = c.i(); let style = c.i(); let m = def(mi); let mut w = Vec::new(); wr(&m, &mut w, true); c.w("ok"); c.w(sized(&m)); c.w(m.get_size_in_bytes()); c.w(ty(&m)); c.wx(&w);
   let save = c.out.clone(); c.out.clear(); pm(&m, c); let t = c.out.clone(); c.out = save; c.out.push_str(&t[1..].find(' ').map(|k| t[1 + k..].to_string()).unwrap_or_default()); }
 "T" => { c.w("ok"); let names: [&str; NM] = [NAMES]; for (i, n) in names.iter().enumerate() { let m = def(i as i64 + 1); let mut w = Vec::new(); m.write_bytes(&mut w, true); c.w(n); c.w(w[0]); c.w(ty(&m)); } }
 _ => c.w("badop") } }
}""".replace("NM]", f"{len(ms)}]").replace("[NAMES]", "[" + ", ".join('"%s"' % m["name"] for m in ms) + "]"))
    return "\n".join(o) + "\n"
