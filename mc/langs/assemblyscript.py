"""AssemblyScript replay driver.

No asc is installed.  AssemblyScript is written in TypeScript's syntax, so the generated code is type-checked by tsc against declarations of
what it uses of AssemblyScript's library, and executed under node with the AssemblyScript semantics that differ put in by a syntactic
transformation (`x as u8` truncates) and a small runtime (DataView.getInt64, String.UTF8, Uint8Array.wrap)."""
from .base import *
from .ts import NODE_MODULES, RT, TSC_OPTIONS, _bld as ts_bld
from ..model import Protocol

DTS = r'''
declare type i8 = number; declare type i16 = number; declare type i32 = number; declare type i64 = number; declare type isize = number;
declare type u8 = number; declare type u16 = number; declare type u32 = number; declare type u64 = number; declare type usize = number;
declare type f32 = number; declare type f64 = number; declare type bool = boolean | number;
interface DataView {
  getInt64(o: number, le?: boolean): i64; getUint64(o: number, le?: boolean): u64; setInt64(o: number, v: i64, le?: boolean): void; setUint64(o: number, v: u64, le?: boolean): void;
}
interface StringConstructor { UTF8: { encode(s: string, nullTerminated?: boolean): ArrayBuffer; decode(b: ArrayBuffer, nullTerminated?: boolean): string; byteLength(s: string, nullTerminated?: boolean): i32; }; }
interface Uint8ArrayConstructor { wrap(b: ArrayBuffer, byteOffset?: i32, length?: i32): Uint8Array; }
'''

AS_RT = r'''
const g: any = globalThis as any;
function small(v: bigint): any { const n = Number(v); return Number.isSafeInteger(n) ? n : v; }
const P: any = DataView.prototype;
P.getInt64 = function (o: number, le: boolean) { return small(this.getBigInt64(o, le)); };
P.getUint64 = function (o: number, le: boolean) { return small(this.getBigUint64(o, le)); };
P.setInt64 = function (o: number, v: any, le: boolean) { this.setBigInt64(o, BigInt(v), le); };
P.setUint64 = function (o: number, v: any, le: boolean) { this.setBigUint64(o, BigInt(v), le); };
const dec = new TextDecoder("utf-8", { ignoreBOM: true }), enc = new TextEncoder();
(String as any).UTF8 = {
  encode(s: string, z: boolean = false) { const b = enc.encode(z ? s + "\0" : s); return b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength); },
  decode(b: ArrayBuffer, z: boolean = false) { let u = new Uint8Array(b); if (z && u.indexOf(0) >= 0) u = u.subarray(0, u.indexOf(0)); return dec.decode(u); },
  byteLength(s: string, z: boolean = false) { return enc.encode(s).length + (z ? 1 : 0); },
};
(Uint8Array as any).wrap = (b: ArrayBuffer, o?: number, n?: number) => new Uint8Array(b, o, n);
const conv = (bits: number, signed: boolean) => (v: any): any => {
  if (typeof v === "boolean") return v ? 1 : 0;
  const x: bigint = typeof v === "bigint" ? v : BigInt(Math.trunc(Number(v)));
  return small(signed ? BigInt.asIntN(bits, x) : BigInt.asUintN(bits, x));
};
g.__as = { i8: conv(8, true), i16: conv(16, true), i32: conv(32, true), isize: conv(32, true), i64: conv(64, true), u8: conv(8, false), u16: conv(16, false), u32: conv(32, false),
  usize: conv(32, false), u64: conv(64, false), f32: (v: any) => Math.fround(Number(v)), f64: (v: any) => Number(v), bool: (v: any) => !!v };
export {};
'''

TRANSFORM = r'''
const ts = require("%s/typescript"), fs = require("fs"), path = require("path");
const PRIM = new Set(["i8","i16","i32","i64","isize","u8","u16","u32","u64","usize","f32","f64","bool"]);
const dir = process.argv[2];
let bad = 0;
for (const f of fs.readdirSync(dir + "/src").filter((x) => /^p\d+\.ts$/.test(x))) {
  const tr = (ctx) => { const visit = (n) => {
    n = ts.visitEachChild(n, visit, ctx);
    if (ts.isAsExpression(n) && ts.isTypeReferenceNode(n.type) && ts.isIdentifier(n.type.typeName) && PRIM.has(n.type.typeName.text))
      return ts.factory.createCallExpression(ts.factory.createPropertyAccessExpression(ts.factory.createIdentifier("__as"), n.type.typeName.text), undefined, [n.expression]);
    return n; }; return (s) => ts.visitNode(s, visit); };
  const r = ts.transpileModule(fs.readFileSync(dir + "/src/" + f, "utf8"), { fileName: f, reportDiagnostics: true, transformers: { before: [tr] },
    compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ES2022 } });
  for (const d of r.diagnostics || []) { console.log(f + ": " + ts.flattenDiagnosticMessageText(d.messageText, "\n")); bad = 1; }
  fs.writeFileSync(dir + "/" + f.replace(".ts", ".js"), r.outputText);
}
process.exit(bad);
''' % NODE_MODULES


def _bld(p, t):
    if t in ("uint64", "int64"): return "i64(c)"
    return ts_bld(p, t)


def _dmp(p, t, lv):
    k = p.kind(t)
    if k == "string": return f"c.pstr({lv});"
    if k == "enum": return f"if ({lv} === g.{t}._Unknown) c.p('?'); else c.p(rt.int({lv}));"
    if k == "struct": return f"dmp_{t}(c, {lv});"
    if t == "float": return f"c.p(rt.b32({lv}));"
    if t == "double": return f"c.p(rt.b64({lv}));"
    if t == "bool": return f"c.p({lv} ? 1 : 0);"
    if t in ("uint64", "int64"): return f"c.p(typeof {lv} === 'bigint' || Number.isSafeInteger({lv}) ? {lv} : '!i64');"
    return f"c.p(rt.int({lv}));"


def driver_source(p: Protocol) -> str:
    o = [f"// @ts-nocheck\nimport * as g from './p{p.pid}.js';\n", "import * as rt from './rt';\nimport { Cur, Harness } from './rt';\n",
         "function i64(c: Cur): any { const v = c.big(), n = Number(v); return Number.isSafeInteger(n) ? n : v; }\n"]
    for s in p.structs + p.messages:
        o.append(f"function bld_{s.name}(c: Cur): any {{ const v: any = new g.{s.name}();\n")
        for m in s.members:
            if m.is_list:
                o.append(f"  {{ const n = c.int(); v.{m.name} = []; for (let i = 0; i < n; i++) v.{m.name}.push({_bld(p, m.type)}); }}\n")
            else:
                o.append(f"  v.{m.name} = {_bld(p, m.type)};\n")
        o.append(f"  return v; }}\nfunction dmp_{s.name}(c: Cur, v: any) {{ if (!(v instanceof g.{s.name})) c.p('!inst');\n")
        for m in s.members:
            if m.is_list:
                o.append(f"  c.p(v.{m.name}.length); for (const x of v.{m.name}) {{ {_dmp(p, m.type, 'x')} }}\n")
            else:
                o.append(f"  {_dmp(p, m.type, 'v.' + m.name)}\n")
        o.append("}\n")
    for fn, res, arg in (("mk", "bld_{n}(c)", "c: Cur, mid: number"), ("rd", "g.{n}.fromBytesDA(r)", "mid: number, r: any"), ("rdv", "g.{n}.fromBytes(r)", "mid: number, r: any"), ("dfl", "new g.{n}()", "mid: number")):
        o.append(f"function {fn}({arg}): any {{ switch (mid) {{\n" + "".join(f"  case {i}: return {res.format(n=m.name)};\n" for i, m in enumerate(p.messages)) + "  } throw new Harness('harness: mid'); }\n")
    o.append("function dmp(c: Cur, m: any) { const t: number = m.getMessageType(); c.p(t - 1); switch (t - 1) {\n")
    o += [f"  case {i}: dmp_{m.name}(c, m); break;\n" for i, m in enumerate(p.messages)]
    o.append(r'''  default: c.p('!type'); } c.p(';'); }
function dmplist(c: Cur, l: any[]) { c.p(l.length); for (const m of l) dmp(c, m); }
function fill(n: number): Uint8Array { const b = new Uint8Array(n); b.fill(0xEE); return b; }
function bytes(v: DataView): Uint8Array { return new Uint8Array(v.buffer, v.byteOffset, v.byteLength); }
function err(c: Cur, e: any) { if (e instanceof Harness) throw e; c.p("abort"); c.p("#" + String(e && e.message).replace(/\n/g, " ")); }
/* an accessor that starts at an offset, as a program that has read something before has one */
function at(v: DataView, off: number): any { const da = new g.DataAccess(v); da.currentOffset = off; return da; }
export function cmd(c: Cur, cm: string): void {
  switch (cm) {
  case "E": case "W": {
    const mid = c.int(), tag = c.int() !== 0, pre = c.int(), post = c.int(); const m = mk(c, mid);
    const sz = m.getSizeInBytes(), cap = cm === "W" ? post : sz + (tag ? 1 : 0) + post;
    const v = rt.view(fill(pre + cap)); const da = at(v, pre);
    const ok = m.writeBytesDA(da, tag);
    if (pre === 0) {      // the same through the other entry point
      const v2 = rt.view(fill(cap)); if (m.writeBytes(v2, tag) !== ok || String(bytes(v2)) !== String(bytes(v)) || rt.outside(v2)) c.p("!dv");
    }
    if (rt.outside(v)) c.p("!outside");
    for (let i = 0; i < pre; i++) if (bytes(v)[i] !== 0xEE) { c.p("!before"); break; }
    if (ok !== true) { c.p("err"); break; }
    c.p("ok"); if (cm === "E") c.p(sz); c.p(da.currentOffset); c.phex("x", bytes(v));
    break; }
  case "D": {
    const mid = c.int(), off = c.int(); const b = c.hex(); const v = rt.view(b); const da = at(v, off);
    const m = rd(mid, da);
    if (off === 0) { const k = new Cur(""), k2 = new Cur(""); const m2 = rdv(mid, v); if (m2) dmp(k, m2); if (m) dmp(k2, m); if (k.o.join(" ") !== k2.o.join(" ")) c.p("!dv"); }
    if (m === null) { c.p("err"); break; }
    bytes(v).fill(0xAA);
    c.p("ok"); c.p(da.currentOffset); dmp(c, m); break; }
  case "M": {           // Message.fromBytes: a tagged message
    const off = c.int(); const v = rt.view(c.hex()); const da = at(v, off);
    const m = g.Message.fromBytesDA(da);
    if (off === 0) { const m2 = g.Message.fromBytes(v); const k = new Cur(""), k2 = new Cur(""); if (m2) dmp(k, m2); if (m) dmp(k2, m); if (k.o.join(" ") !== k2.o.join(" ")) c.p("!dv"); }
    if (m === null) { c.p("err"); break; }
    c.p("ok"); c.p(da.currentOffset); dmp(c, m); break; }
  case "Z": { const m = dfl(c.int()); c.p("ok"); dmp(c, m); c.p("|"); c.p(m.getSizeInBytes()); break; }
  case "R": {
    const off = c.int(); const v = rt.view(c.hex()); const da = at(v, off);
    const k = c.int(); c.p("ok");
    for (let i = 0; i < k; i++) {
      const mx = c.int(), l = g.ProcessRawBytesDA(da, mx);
      if (off === 0 && i === 0) { const l2 = g.ProcessRawBytes(v, mx); const k = new Cur(""), k2 = new Cur(""); dmplist(k, l); dmplist(k2, l2); if (k.o.join(" ") !== k2.o.join(" ")) c.p("!dv"); }
      c.p("@" + da.currentOffset); dmplist(c, l); c.p("|");
    } break; }
  case "U": { c.int();
    const v = rt.view(c.hex());
    let l: any[]; try { l = g.UnpackMessages(v); } catch (e) { err(c, e); break; }
    bytes(v).fill(0xAA);
    c.p("ok"); dmplist(c, l); break; }
  case "P": case "V": {
    const a = c.int(), n = c.int(); const l: any[] = [];
    for (let i = 0; i < n; i++) l.push(mk(c, c.int()));
    const sz = g.GetPackedSize(l); const v = rt.view(fill(cm === "P" ? sz + a : a));
    g.PackMessages(l, v);
    if (rt.outside(v)) c.p("!outside");
    c.p("ok"); c.p(sz); if (cm === "P") c.phex("x", bytes(v));
    break; }
  default: c.p("?");
  }
}
''')
    return "".join(o)


class AssemblyScript(Lang):
    name, beschi, ext = "assemblyscript", "assemblyscript", ".ts"

    def out_path(self, wd, p):
        return wd / "src" / f"p{p.pid}.ts"

    def build(self, protos, wd, opts=None, typecheck=True, **kw):
        wd = Path(wd)
        (wd / "src").mkdir(exist_ok=True)
        self.generate_all(protos, wd, opts)
        (wd / "rt.ts").write_text(RT)
        (wd / "asrt.ts").write_text(AS_RT)
        (wd / "src" / "as.d.ts").write_text(DTS)
        (wd / "transform.cjs").write_text(TRANSFORM)
        for p in protos:
            (wd / f"d{p.pid}.ts").write_text(driver_source(p))
        (wd / "main.ts").write_text("import './asrt';\nimport * as rt from './rt';\n" + "".join(f"import * as d{p.pid} from './d{p.pid}';\n" for p in protos) +
                                    "rt.main((c, cmd, pid) => { switch (pid) {\n" + "".join(f"case {p.pid}: d{p.pid}.cmd(c, cmd); break;\n" for p in protos) +
                                    "default: c.p('?pid'); } });\n")
        if typecheck:
            (wd / "src" / "tsconfig.json").write_text(json.dumps({"compilerOptions": TSC_OPTIONS | {"strictNullChecks": True}, "include": ["*.ts"]}))
            rc, out = sh([f"{NODE_MODULES}/.bin/tsc", "-p", str(wd / "src" / "tsconfig.json")], cwd=str(wd))
            if rc != 0:
                raise BuildFailure(self.name, "typecheck", out)
        rc, out = sh(["node", str(wd / "transform.cjs"), str(wd)], cwd=str(wd))
        if rc != 0:
            raise BuildFailure(self.name, "syntax", out)
        rc, out = sh([f"{NODE_MODULES}/.bin/esbuild", "main.ts", "--bundle", "--platform=node", "--target=node20", "--outfile=drv.js", "--log-level=error"], cwd=str(wd))
        if rc != 0:
            raise BuildFailure(self.name, "bundle", out)
        return Runner(self.name, ["node", str(wd / "drv.js")], cwd=str(wd), parallel=6)
