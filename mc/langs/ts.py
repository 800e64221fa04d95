"""TypeScript replay driver: tsc --strict type check + esbuild bundle under node."""
from .base import *
from ..model import Protocol

NODE_MODULES = "/opt/veriftools/node/node_modules"

RT = r'''
declare const require: any; declare const process: any; declare const Buffer: any;
export class Harness extends Error {}
export class Cur {
  t: string[]; i = 0; o: string[] = [];
  constructor(l: string) { this.t = l.split(" ").filter((s: string) => s.length > 0); }
  next(): string { if (this.i >= this.t.length) throw new Harness("harness: missing token"); return this.t[this.i++]; }
  int(): number { return Number(this.next()); }
  big(): bigint { return BigInt(this.next()); }
  hex(): Uint8Array { const b = Buffer.from(this.next().substring(1), "hex"); return new Uint8Array(b); }
  str(): string { return Buffer.from(this.hex()).toString("utf8"); }
  p(s: any) { this.o.push(String(s)); }
  phex(pre: string, b: Uint8Array) { this.o.push(pre + Buffer.from(b).toString("hex")); }
  pstr(s: string) { this.o.push("s" + Buffer.from(s, "utf8").toString("hex")); }
}
const sc = new DataView(new ArrayBuffer(8));
export function f32(b: number): number { sc.setUint32(0, b); return sc.getFloat32(0); }
export function f64(b: bigint): number { sc.setBigUint64(0, b); return sc.getFloat64(0); }
export function b32(v: number): number { sc.setFloat32(0, v); return sc.getUint32(0); }
export function b64(v: number): bigint { sc.setFloat64(0, v); return sc.getBigUint64(0); }
export function int(v: any): any { if (typeof v !== "number" || !Number.isInteger(v)) return "!num:" + typeof v; return v; }
export function bigv(v: any): any { if (typeof v !== "bigint") return "!big:" + typeof v; return v; }
export function boolv(v: any): any { if (typeof v !== "boolean") return "!bool:" + typeof v; return v ? 1 : 0; }
/* a view that starts inside its buffer and ends before its end: what a sub-view owner may rely on */
export const LEAD = 5, TAIL = 6;
export function view(b: Uint8Array): DataView {
  const u = new Uint8Array(LEAD + b.length + TAIL); u.fill(0x5A); u.set(b, LEAD);
  return new DataView(u.buffer, LEAD, b.length);
}
export function outside(v: DataView): boolean {
  const u = new Uint8Array(v.buffer);
  for (let i = 0; i < u.length; i++) if ((i < LEAD || i >= LEAD + v.byteLength) && u[i] !== 0x5A) return true;
  return false;
}
export function main(dispatch: (c: Cur, cmd: string, pid: number) => void) {
  const fs = require("fs");
  const lines: string[] = fs.readFileSync(0, "latin1").split("\n");
  if (lines[lines.length - 1] === "") lines.pop();
  let out: string[] = [];
  for (const l of lines) {
    const c = new Cur(l);
    try { const cmd = c.next(); const pid = c.int(); dispatch(c, cmd, pid); }
    catch (e: any) {
      if (e instanceof Harness) { console.error(e.message); process.exit(9); }
      c.o = ["panic", String(e && e.message).replace(/\n/g, " ")];
    }
    out.push(c.o.join(" "));
    if (out.length >= 64) { fs.writeSync(1, out.join("\n") + "\n"); out = []; }
  }
  if (out.length) fs.writeSync(1, out.join("\n") + "\n");
}
'''


def _bld(p, t):
    k = p.kind(t)
    if k == "string": return "c.str()"
    if k == "enum": return "c.int()"
    if k == "struct": return f"bld_{t}(c)"
    if t == "float": return "rt.f32(c.int())"
    if t == "double": return "rt.f64(c.big())"
    if t == "bool": return "(c.int() !== 0)"
    if t in ("uint64", "int64"): return "c.big()"
    return "c.int()"


def _dmp(p, t, lv):
    k = p.kind(t)
    if k == "string": return f"c.pstr({lv});"
    if k == "enum": return f"c.p(rt.int({lv}));"
    if k == "struct": return f"dmp_{t}(c, {lv});"
    if t == "float": return f"c.p(rt.b32({lv}));"
    if t == "double": return f"c.p(rt.b64({lv}));"
    if t == "bool": return f"c.p(rt.boolv({lv}));"
    if t in ("uint64", "int64"): return f"c.p(rt.bigv({lv}));"
    return f"c.p(rt.int({lv}));"


def driver_source(p: Protocol, imp=None) -> str:
    o = [imp or f"import * as g from './p{p.pid}';\n", "import * as rt from './rt';\nimport { Cur, Harness } from './rt';\n"]
    for s in p.structs + p.messages:
        o.append(f"function bld_{s.name}(c: Cur): g.{s.name} {{ const v = new g.{s.name}();\n")
        for m in s.members:
            if m.is_list:
                o.append(f"  {{ const n = c.int(); v.{m.name} = []; for (let i = 0; i < n; i++) v.{m.name}.push({_bld(p, m.type)}); }}\n")
            else:
                o.append(f"  v.{m.name} = {_bld(p, m.type)};\n")
        o.append(f"  return v; }}\nfunction dmp_{s.name}(c: Cur, v: g.{s.name}) {{\n")
        for m in s.members:
            if m.is_list:
                o.append(f"  c.p(v.{m.name}.length); for (const x of v.{m.name}) {{ {_dmp(p, m.type, 'x')} }}\n")
            else:
                o.append(f"  {_dmp(p, m.type, 'v.' + m.name)}\n")
        o.append("}\n")
    o.append("function mk(c: Cur, mid: number): g.Message { switch (mid) {\n")
    o += [f"  case {i}: return bld_{m.name}(c);\n" for i, m in enumerate(p.messages)]
    o.append("  } throw new Harness('harness: mid'); }\nfunction dmp(c: Cur, m: g.Message) { const t: number = m.getMessageType(); c.p(t - 1); switch (t - 1) {\n")
    o += [f"  case {i}: if (!(m instanceof g.{m.name})) c.p('!inst'); if (g.MessageTypeMap.get(t) !== g.{m.name}) c.p('!map'); dmp_{m.name}(c, m as g.{m.name}); break;\n" for i, m in enumerate(p.messages)]
    o.append("  default: c.p('!type'); } c.p(';'); }\n")
    o.append("function rd(mid: number, r: g.DataAccess): g.Message { switch (mid) {\n")
    o += [f"  case {i}: return g.{m.name}.fromBytes(r);\n" for i, m in enumerate(p.messages)]
    o.append("  } throw new Harness('harness: mid'); }\nfunction rdv(mid: number, r: DataView): g.Message { switch (mid) {\n")
    o += [f"  case {i}: return g.{m.name}.fromBytes(r);\n" for i, m in enumerate(p.messages)]
    o.append("  } throw new Harness('harness: mid'); }\nfunction dfl(mid: number): g.Message { switch (mid) {\n")
    o += [f"  case {i}: return new g.{m.name}();\n" for i, m in enumerate(p.messages)]
    o.append(r'''  } throw new Harness('harness: mid'); }
function dmplist(c: Cur, l: g.Message[]) { c.p(l.length); for (const m of l) dmp(c, m); }
function fill(n: number): Uint8Array { const b = new Uint8Array(n); b.fill(0xEE); return b; }
function bytes(v: DataView): Uint8Array { return new Uint8Array(v.buffer, v.byteOffset, v.byteLength); }
function err(c: Cur, e: any) { if (e instanceof Harness) throw e; c.p("err"); c.p("#" + String(e && e.message).replace(/\n/g, " ")); }
export function cmd(c: Cur, cm: string): void {
  switch (cm) {
  case "E": {
    const mid = c.int(), tag = c.int() !== 0, pre = c.int(), post = c.int(); const m = mk(c, mid);
    const sz = m.getSizeInBytes();
    const v = rt.view(fill(pre + sz + (tag ? 1 : 0) + post)); const da = new g.DataAccess(v); da.currentOffset = pre;
    m.writeBytes(da, tag);
    c.p("ok"); c.p(sz); c.p(da.currentOffset); c.phex("x", bytes(v)); if (rt.outside(v)) c.p("!outside");
    break; }
  case "W": {
    const mid = c.int(), tag = c.int() !== 0, pre = c.int(), cap = c.int(); const m = mk(c, mid);
    const v = rt.view(fill(pre + cap)); const da = new g.DataAccess(v); da.currentOffset = pre;
    try { m.writeBytes(da, tag); } catch (e) { err(c, e); if (rt.outside(v)) c.p("!outside"); else for (let i = 0; i < pre; i++) if (bytes(v)[i] !== 0xEE) { c.p("!before"); break; } break; }
    c.p("ok"); c.p(da.currentOffset); c.phex("x", bytes(v)); if (rt.outside(v)) c.p("!outside");
    break; }
  case "D": {
    const mid = c.int(), off = c.int(); const b = c.hex(); const v = rt.view(b); const da = new g.DataAccess(v); da.currentOffset = off;
    let m: g.Message; try { m = rd(mid, da); } catch (e) { err(c, e); break; }
    if (off === 0) { const l0 = c.o; const k = new Cur(""); dmp(k, rdv(mid, v)); const k2 = new Cur(""); dmp(k2, m); if (k.o.join(" ") !== k2.o.join(" ")) c.p("!dv"); c.o = l0; }
    bytes(v).fill(0xAA);
    c.p("ok"); c.p(da.currentOffset); dmp(c, m); break; }
  case "Z": { const m = dfl(c.int()); c.p("ok"); dmp(c, m); c.p("|"); c.p(m.getSizeInBytes()); break; }
  case "R": {
    const off = c.int(); const v = rt.view(c.hex()); const da = new g.DataAccess(v); da.currentOffset = off;
    const k = c.int(); c.p("ok");
    for (let i = 0; i < k; i++) {
      let l: g.Message[]; try { l = g.ProcessRawBytes(da, c.int()); } catch (e) { err(c, e); return; }
      c.p(da.currentOffset); dmplist(c, l); c.p("|");
    } break; }
  case "U": {
    const off = c.int(); const v = rt.view(c.hex()); const da = new g.DataAccess(v); da.currentOffset = off;
    let l: g.Message[]; try { l = g.UnpackMessages(da); } catch (e) { err(c, e); break; }
    bytes(v).fill(0xAA);
    c.p("ok"); dmplist(c, l); break; }
  case "P": case "T": {
    const pre = c.int(), post = c.int(), n = c.int(); const l: g.Message[] = [];
    for (let i = 0; i < n; i++) l.push(mk(c, c.int()));
    let sz = 0; if (cm === "P") sz = g.GetPackedSize(l); else for (const m of l) sz += m.getSizeInBytes() + 1;
    const v = rt.view(fill(pre + sz + post)); const da = new g.DataAccess(v); da.currentOffset = pre;
    if (cm === "P") g.PackMessages(l, da); else for (const m of l) m.writeBytes(da, true);
    c.p("ok"); c.p(sz); c.p(da.currentOffset); c.phex("x", bytes(v)); if (rt.outside(v)) c.p("!outside");
    break; }
  case "V": {
    const pre = c.int(), cap = c.int(), n = c.int(); const l: g.Message[] = [];
    for (let i = 0; i < n; i++) l.push(mk(c, c.int()));
    const v = rt.view(fill(pre + cap)); const da = new g.DataAccess(v); da.currentOffset = pre;
    try { g.PackMessages(l, da); } catch (e) { err(c, e); if (rt.outside(v)) c.p("!outside"); else for (let i = 0; i < pre; i++) if (bytes(v)[i] !== 0xEE) { c.p("!before"); break; } break; }
    c.p("ok"); c.p(da.currentOffset); c.phex("x", bytes(v)); if (rt.outside(v)) c.p("!outside");
    break; }
  case "I": {
    const n = c.int(); const rs: g.DataAccess[] = []; const ws: g.DataAccess[] = [];
    for (let i = 0; i < n; i++) { const off = c.int(); const b = c.hex(); const da = new g.DataAccess(rt.view(b)); da.currentOffset = off; rs.push(da); ws.push(new g.DataAccess(rt.view(fill(4 * b.length + 64)))); }
    const k = c.int(); const res: (g.Message[] | null)[] = [];
    for (let j = 0; j < k; j++) {
      const i = c.int(); let l: g.Message[] | null = null;
      try { l = g.ProcessRawBytes(rs[i], 1); } catch (e) { if (e instanceof Harness) throw e; }
      if (l) for (const m of l) m.writeBytes(ws[i], true);
      res.push(l);
    }
    c.p("ok");
    for (const l of res) { if (l === null) c.p("err |"); else { dmplist(c, l); c.p("|"); } }
    for (const w of ws) c.phex("x", bytes(w.data).subarray(0, w.currentOffset));
    break; }
  default: c.p("?");
  }
}
''')
    return "".join(o)


# what the project itself type-checks with
TSC_OPTIONS = {"target": "ES2022", "lib": ["ES2022", "DOM"], "module": "commonjs", "moduleResolution": "node", "noImplicitAny": True, "noFallthroughCasesInSwitch": True,
               "noPropertyAccessFromIndexSignature": True, "noImplicitOverride": True, "noImplicitReturns": True, "noImplicitThis": True, "noEmit": True, "types": [], "skipLibCheck": True}


class TypeScript(Lang):
    name, beschi, ext = "typescript", "typescript", ".ts"
    fixed_buffer = True
    bounded = True

    def build(self, protos, wd, opts=None, typecheck=True, **kw):
        wd = Path(wd)
        self.generate_all(protos, wd, opts)
        (wd / "rt.ts").write_text(RT)
        for p in protos:
            if getattr(p, "ts_import", None) and "./m" in p.ts_import:      # a script with a global namespace, made a module
                (wd / f"m{p.pid}.ts").write_text((wd / f"p{p.pid}.ts").read_text() + f"\nexport {{ {p.ns} }};\n")
            (wd / f"d{p.pid}.ts").write_text(driver_source(p, getattr(p, "ts_import", None)))
        (wd / "main.ts").write_text("import * as rt from './rt';\n" + "".join(f"import * as d{p.pid} from './d{p.pid}';\n" for p in protos) +
                                    "rt.main((c, cmd, pid) => { switch (pid) {\n" + "".join(f"case {p.pid}: d{p.pid}.cmd(c, cmd); break;\n" for p in protos) +
                                    "default: c.p('?pid'); } });\n")
        if typecheck:
            (wd / "tsconfig.json").write_text(json.dumps({"compilerOptions": TSC_OPTIONS, "files": ["main.ts"]}))
            rc, out = sh([f"{NODE_MODULES}/.bin/tsc", "-p", str(wd / "tsconfig.json")], cwd=str(wd))
            if rc != 0:
                raise BuildFailure(self.name, "typecheck", out)
        rc, out = sh([f"{NODE_MODULES}/.bin/esbuild", "main.ts", "--bundle", "--platform=node", "--target=node20", "--outfile=drv.js", "--log-level=error"], cwd=str(wd))
        if rc != 0:
            raise BuildFailure(self.name, "bundle", out)
        return Runner(self.name, ["node", str(wd / "drv.js")], cwd=str(wd), parallel=4)
