"""Rust replay driver."""
from .base import *
from ..model import Protocol

RTY = {"byte": "u8", "bool": "bool", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32",
       "uint64": "u64", "int64": "i64", "float": "f32", "double": "f64", "string": "String"}
ENC = {"byte": "u8", "int16": "i16", "int32": "i32"}

RT = r'''
use std::io::{BufRead, Write};
pub struct Cur { pub t: Vec<String>, pub i: usize, pub o: String }
impl Cur {
    pub fn next(&mut self) -> &str { self.i += 1; &self.t[self.i - 1] }
    pub fn int(&mut self) -> i64 { self.next().parse().expect("harness: int") }
    pub fn uint(&mut self) -> u64 { self.next().parse().expect("harness: uint") }
    pub fn hex(&mut self) -> Vec<u8> { let s = self.next(); let s = &s[1..]; (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect() }
    pub fn str(&mut self) -> String { String::from_utf8(self.hex()).expect("harness: utf8") }
    pub fn p(&mut self, s: &str) { if s == "ok" { pt(); } self.o.push_str(s); self.o.push(' '); }
    pub fn pi<T: std::fmt::Display>(&mut self, v: T) { self.o.push_str(&v.to_string()); self.o.push(' '); }
    pub fn phex(&mut self, pre: &str, b: &[u8]) { self.o.push_str(pre); for x in b { self.o.push_str(&format!("{:02x}", x)); } self.o.push(' '); }
}
// a point at which the controlled scheduler may switch threads (conc.c)
#[cfg(conc)]
extern "C" { fn rt_pt(); }
#[cfg(conc)]
pub fn pt() { unsafe { rt_pt() } }
#[cfg(not(conc))]
pub fn pt() {}
#[cfg(conc)]
thread_local! { static ANSWER: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new()); }
#[cfg(conc)]
pub unsafe fn exec_c(line: *const std::ffi::c_char, dispatch: fn(&mut Cur, &str, usize)) -> *const u8 {
    let line = std::ffi::CStr::from_ptr(line).to_str().unwrap();
    let s = exec(line, dispatch);
    let s = s.split(" #").next().unwrap().trim_end();
    ANSWER.with(|a| { let mut a = a.borrow_mut(); a.clear(); a.extend_from_slice(s.as_bytes()); a.push(0); a.as_ptr() })
}
fn exec(line: &str, dispatch: fn(&mut Cur, &str, usize)) -> String {
    let r = std::panic::catch_unwind(|| {
        let mut c = Cur { t: line.split_whitespace().map(|s| s.to_string()).collect(), i: 0, o: String::new() };
        let cmd = c.next().to_string();
        let pid = c.uint() as usize;
        dispatch(&mut c, &cmd, pid);
        c.o
    });
    match r {
        Ok(s) => s,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".to_string() };
            if m.starts_with("harness") { eprintln!("{}", m); std::process::exit(9); }
            format!("panic {}", m.replace('\n', " "))
        }
    }
}
pub fn main_loop(dispatch: fn(&mut Cur, &str, usize)) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let s = exec(&line, dispatch);
        out.write_all(s.trim_end().as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
'''


def snake(s):
    s = re.sub('(.)([A-Z][a-z]+)', r'\1_\2', s)
    return re.sub('([a-z0-9])([A-Z])', r'\1_\2', s).lower()


def _bld(p, t):
    k = p.kind(t)
    if k == "string": return "c.str()"
    if k == "enum": return f"g::{t}::try_from(c.int() as {ENC[p.e[t].encoding]}).expect(\"harness: enum\")"
    if k == "struct": return f"bld_{t}(c)"
    if t == "float": return "f32::from_bits(c.uint() as u32)"
    if t == "double": return "f64::from_bits(c.uint())"
    if t == "bool": return "(c.int() != 0)"
    if t == "uint64": return "c.uint()"
    return f"(c.int() as {RTY[t]})"


def _dmp(p, t, lv, ref=False):
    k = p.kind(t)
    d = "*" if ref else ""
    amp = "" if ref else "&"
    if k == "string": return f"c.phex(\"s\", {lv}.as_bytes());"
    if k == "enum": return f"c.pi({d}{lv} as i64);"
    if k == "struct": return f"dmp_{t}(c, {amp}{lv});"
    if t in ("float", "double"): return f"c.pi({lv}.to_bits());"
    if t == "bool": return f"c.pi(if {d}{lv} {{1}} else {{0}});"
    return f"c.pi({d}{lv});"


def driver_source(p: Protocol, member=snake) -> str:
    o = [f"#![allow(warnings)]\nuse crate::rt::Cur;\nuse crate::p{p.pid} as g;\nuse g::MessageCodec;\n"]
    for s in p.structs + p.messages:
        o.append(f"fn bld_{s.name}(c: &mut Cur) -> g::{s.name} {{\n    let mut v = g::{s.name}::default();\n")
        for m in s.members:
            a = member(m.name)
            if m.is_list:
                o.append(f"    let n = c.uint(); v.{a} = (0..n).map(|_| {_bld(p, m.type)}).collect();\n")
            else:
                o.append(f"    v.{a} = {_bld(p, m.type)};\n")
        o.append(f"    v\n}}\nfn dmp_{s.name}(c: &mut Cur, v: &g::{s.name}) {{\n")
        for m in s.members:
            a = member(m.name)
            if m.is_list:
                o.append(f"    c.pi(v.{a}.len()); for x in &v.{a} {{ {_dmp(p, m.type, 'x', True)} }}\n")
            else:
                o.append(f"    {_dmp(p, m.type, 'v.' + a)}\n")
        o.append("}\n")
    o.append("fn mk(c: &mut Cur, mid: usize) -> g::Message { match mid {\n")
    o += [f"    {i} => g::Message::{m.name}(bld_{m.name}(c)),\n" for i, m in enumerate(p.messages)]
    o.append("    _ => panic!(\"harness: mid\") } }\n")
    o.append("fn dmp(c: &mut Cur, m: &g::Message) { match m.get_message_type() {\n")
    o += [f"    g::MessageType::{m.name} => c.pi({i}),\n" for i, m in enumerate(p.messages)]
    o.append("    }\n    match m {\n")
    o += [f"    g::Message::{m.name}(v) => dmp_{m.name}(c, v),\n" for i, m in enumerate(p.messages)]
    o.append("    }\n    c.p(\";\"); }\n")
    o.append("fn rd(mid: usize, r: &mut g::BufferReader) -> Result<g::Message, String> { match mid {\n")
    o += [f"    {i} => g::{m.name}::from_bytes(r).map(g::Message::{m.name}).map_err(|e| format!(\"{{:?}}\", e)),\n" for i, m in enumerate(p.messages)]
    o.append("    _ => panic!(\"harness: mid\") } }\nfn typed(m: &g::Message, w: &mut Vec<u8>, tag: bool) -> usize { match m {\n")
    o += [f"    g::Message::{m.name}(v) => {{ v.write_bytes(w, tag); v.get_size_in_bytes() }}\n" for m in p.messages]
    o.append("    } }\nfn dfl(mid: usize) -> g::Message { match mid {\n")
    o += [f"    {i} => g::Message::{m.name}(g::{m.name}::default()),\n" for i, m in enumerate(p.messages)]
    o.append("    _ => panic!(\"harness: mid\") } }\n")
    o.append(r'''
fn dmplist(c: &mut Cur, l: &[g::Message]) { crate::rt::pt(); c.pi(l.len()); for m in l { dmp(c, m); } }
pub fn cmd(c: &mut Cur, cmd: &str) {
    match cmd {
        "E" => {
            let (mid, tag, pre, post) = (c.uint() as usize, c.int() != 0, c.uint() as usize, c.uint() as usize);
            let m = mk(c, mid);
            let sz = m.get_size_in_bytes();
            let mut w = vec![0xEEu8; pre]; let mut w2 = vec![0xEEu8; pre];
            m.write_bytes(&mut w, tag);
            let sz2 = typed(&m, &mut w2, tag);
            if w != w2 || sz != sz2 { c.p("mismatch"); }
            c.p("ok"); c.pi(sz); c.pi(w.len());
            w.extend(vec![0xEEu8; post]);
            c.phex("x", &w);
        }
        "D" => {
            let (mid, off) = (c.uint() as usize, c.uint() as usize);
            let b = c.hex();
            let mut r = g::BufferReader::new(&b);
            r.current_position = off;
            match rd(mid, &mut r) {
                Err(e) => { c.p("err"); c.p(&format!("#{}", e)); }
                Ok(m) => { let pos = r.current_position; c.p("ok"); c.pi(pos); dmp(c, &m); }
            }
        }
        "Z" => { let m = dfl(c.uint() as usize); c.p("ok"); dmp(c, &m); c.p("|"); c.pi(m.get_size_in_bytes()); }
        "R" => {
            let off = c.uint() as usize; let b = c.hex();
            let mut r = g::BufferReader::new(&b); r.current_position = off;
            let k = c.uint(); c.p("ok");
            for _ in 0..k {
                let mx = c.int() as i32;
                match g::process_raw_bytes(&mut r, mx) {
                    Err(e) => { c.p("err"); c.p(&format!("#{:?}", e)); return; }
                    Ok(l) => { let pos = r.current_position; c.pi(pos); dmplist(c, &l); c.p("|"); }
                }
            }
        }
        "U" => {
            let off = c.uint() as usize; let b = c.hex();
            let mut r = g::BufferReader::new(&b); r.current_position = off;
            match g::unpack_messages(&mut r) {
                Err(e) => { c.p("err"); c.p(&format!("#{:?}", e)); }
                Ok(l) => { c.p("ok"); dmplist(c, &l); }
            }
        }
        "P" | "T" => {
            let (pre, post, n) = (c.uint() as usize, c.uint() as usize, c.uint());
            let mut l = Vec::new();
            for _ in 0..n { let mid = c.uint() as usize; l.push(mk(c, mid)); }
            let mut w = vec![0xEEu8; pre];
            let sz = if cmd == "P" { let s = g::get_packed_size(&l); g::pack_messages(&l, &mut w); s }
                     else { let mut s = 0; for m in &l { s += m.get_size_in_bytes() + 1; m.write_bytes(&mut w, true); } s };
            c.p("ok"); c.pi(sz); c.pi(w.len());
            w.extend(vec![0xEEu8; post]);
            c.phex("x", &w);
        }
        "I" => {
            let n = c.uint() as usize;
            let data: Vec<(usize, Vec<u8>)> = (0..n).map(|_| { let o = c.uint() as usize; (o, c.hex()) }).collect();
            let mut rs: Vec<g::BufferReader> = data.iter().map(|(o, b)| { let mut r = g::BufferReader::new(b); r.current_position = *o; r }).collect();
            let mut ws: Vec<Vec<u8>> = vec![Vec::new(); n];
            let k = c.uint(); let mut res = Vec::new();
            for _ in 0..k {
                let i = c.uint() as usize;
                let l = g::process_raw_bytes(&mut rs[i], 1);
                if let Ok(l) = &l { for m in l { m.write_bytes(&mut ws[i], true); } }
                res.push(l);
            }
            c.p("ok");
            for l in &res { match l { Ok(l) => { dmplist(c, l); c.p("|"); } Err(_) => c.p("err |") } }
            for w in &ws { c.phex("x", w); }
        }
        _ => c.p("?"),
    }
}
''')
    return "".join(o)


class Rust(Lang):
    name, beschi, ext = "rust", "rust", ".rs"

    def build_conc(self, protos, wd):
        """with a scheduling point at each load and store of the generated code, and the scheduler of conc.c"""
        flags = ["--edition", "2021", "-A", "warnings", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on", "-C", "overflow-checks=on"]
        m = (wd / "main.rs").read_text()
        for p in protos:
            rc, out = sh(["rustc", *flags, "--crate-type=rlib", "--crate-name", f"p{p.pid}", "-C", "codegen-units=1", "-C", "passes=sancov-module", "-C", "llvm-args=-sanitizer-coverage-level=1",
                          "-C", "llvm-args=-sanitizer-coverage-trace-loads", "-C", "llvm-args=-sanitizer-coverage-trace-stores", "-o", f"libp{p.pid}.rlib", f"p{p.pid}.rs"], cwd=str(wd))
            if rc != 0:
                raise BuildFailure(self.name, "compile", out, p.pid)
            m = m.replace(f"mod p{p.pid};", f"pub extern crate p{p.pid};")
        (wd / "main.rs").write_text(m[:m.index("fn main()")] + '#[no_mangle]\npub unsafe extern "C" fn rt_exec(line: *const std::ffi::c_char) -> *const u8 { std::panic::set_hook(Box::new(|_| {})); rt::exec_c(line, dispatch) }\n')
        rc, out = sh(["rustc", *flags, "--cfg", "conc", "--crate-type=staticlib", "-L", ".", "-o", "libdrv.a", "main.rs"], cwd=str(wd))
        if rc != 0:
            raise BuildFailure(self.name, "compile", out)
        rc, out = sh(["clang", "-std=gnu11", "-w", "-O1", "-DRT_CONC", f"-I{HERE / 'rt'}", "-c", str(HERE / "rt/conc.c"), "-o", "conc.o"], cwd=str(wd))
        if rc == 0:
            rc, out = sh(["clang", "-o", "drv", "conc.o", "libdrv.a", "-lpthread", "-ldl", "-lm"], cwd=str(wd))
        if rc != 0:
            raise InfraError(out[-2500:])
        return Runner(self.name, [str(wd / "drv")], cwd=str(wd))

    def build(self, protos, wd, opts=None, member=snake, opt=0, points=False, **kw):
        wd = Path(wd)
        self.generate_all(protos, wd, opts)
        (wd / "rt.rs").write_text(RT)
        main = ["#![allow(warnings)]\nmod rt;\n"]
        for p in protos:
            (wd / f"d{p.pid}.rs").write_text(driver_source(p, getattr(p, "member", {}).get("rust", member)))
            main.append(f"mod p{p.pid};\nmod d{p.pid};\n")
        main.append("fn dispatch(c: &mut rt::Cur, cmd: &str, pid: usize) { match pid {\n")
        main += [f"    {p.pid} => d{p.pid}::cmd(c, cmd),\n" for p in protos] + ["    _ => c.p(\"?pid\") } }\nfn main() { rt::main_loop(dispatch); }\n"]
        (wd / "main.rs").write_text("".join(main))
        if points:
            return self.build_conc(protos, wd)
        rc, out = sh(["rustc", "--edition", "2021", "-A", "warnings", "-C", "debuginfo=0", "-C", f"opt-level={opt}",
                      "-C", "debug-assertions=on", "-C", "overflow-checks=on", "-C", "codegen-units=16", "-o", str(wd / "drv"), "main.rs"], cwd=str(wd))
        if rc != 0:
            if "SIGKILL" in out or "No space" in out:
                raise InfraError(out[-500:])
            raise BuildFailure(self.name, "compile", out)
        return Runner(self.name, [str(wd / "drv")], cwd=str(wd), parallel=4)
