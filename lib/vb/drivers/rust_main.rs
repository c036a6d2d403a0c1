// Driver for generated Rust code: command loop and token helpers; one generated glue module per schema.
#![allow(dead_code, unused_variables, unused_mut, non_snake_case, unused_imports, non_camel_case_types)]
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
pub mod ctx {
    pub struct Ctx<'a> { pub toks: Vec<&'a str>, pub pos: usize, pub out: String }
    impl<'a> Ctx<'a> {
        pub fn tok(&mut self) -> &'a str { let t = self.toks[self.pos]; self.pos += 1; t }
        pub fn i(&mut self) -> i64 { self.tok().parse().expect("driver int") }
        pub fn u(&mut self) -> u64 { self.tok().parse().expect("driver uint") }
        pub fn us(&mut self) -> usize { self.tok().parse().expect("driver usize") }
        pub fn b(&mut self) -> bool { self.tok() != "0" }
        pub fn f(&mut self) -> f32 { f32::from_bits(self.tok().parse().expect("driver f32")) }
        pub fn d(&mut self) -> f64 { f64::from_bits(self.tok().parse().expect("driver f64")) }
        pub fn hex(&mut self) -> Vec<u8> { let t = &self.tok()[1..]; (0..t.len() / 2).map(|k| u8::from_str_radix(&t[2 * k..2 * k + 2], 16).unwrap()).collect() }
        pub fn s(&mut self) -> String { String::from_utf8(self.hex()).expect("driver utf8") }
        pub fn w<T: std::fmt::Display>(&mut self, x: T) { self.out.push(' '); self.out.push_str(&x.to_string()); }
        pub fn ws(&mut self, x: &str) { self.out.push_str(" s"); for b in x.as_bytes() { self.out.push_str(&format!("{:02x}", b)); } }
        pub fn wx(&mut self, x: &[u8]) { self.out.push_str(" x"); for b in x { self.out.push_str(&format!("{:02x}", b)); } }
        pub fn view(&mut self) -> (Vec<u8>, usize) { let vo = self.us(); let off = self.us(); let trail = self.us(); let d = self.hex(); let mut v = vec![0xAAu8; off]; v.extend(d); (v, off) }
    }
}
use ctx::Ctx;
type Op = fn(&str, &mut Ctx) -> ();
//GLUE
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin(); let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap(); if line.is_empty() { continue; }
        let mut c = Ctx { toks: line.split(' ').collect(), pos: 0, out: String::new() };
        let id = c.tok(); let si = c.us(); let op = c.tok(); c.i(); c.i();
        match TABLE[si] { None => c.w("noschema"), Some(f) => { let r = catch_unwind(AssertUnwindSafe(|| f(op, &mut c))); if let Err(e) = r { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); c.out.clear(); c.w("panic"); c.w(m.replace(' ', "_").replace('\n', "_")); } } }
        writeln!(out, "{}{}", id, c.out).unwrap(); out.flush().unwrap();
    }
}
