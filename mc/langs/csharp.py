"""C# replay driver (Roslyn + dotnet, no MSBuild)."""
import glob
from .base import *
from ..model import Protocol

CST = {"byte": "byte", "bool": "bool", "uint16": "ushort", "int16": "short", "uint32": "uint", "int32": "int",
       "uint64": "ulong", "int64": "long", "float": "float", "double": "double", "string": "string"}

RT = r'''
using System; using System.Text; using System.Globalization;
public class HarnessException : Exception { public HarnessException(string s) : base(s) {} }
public class Cur {
    public string[] T; public int I; public StringBuilder O = new StringBuilder();
    public string Next() { if (I >= T.Length) throw new HarnessException("harness: missing token"); return T[I++]; }
    public long Int() { return long.Parse(Next(), CultureInfo.InvariantCulture); }
    public ulong Uint() { return ulong.Parse(Next(), CultureInfo.InvariantCulture); }
    public byte[] Hex() { return Convert.FromHexString(Next().Substring(1)); }
    public string Str() { return new UTF8Encoding(false, true).GetString(Hex()); }
    public void P(object s) { if ("ok".Equals(s)) Sched.P(); O.Append(Convert.ToString(s, CultureInfo.InvariantCulture)); O.Append(' '); }
    public void PHex(string pre, byte[] b) { O.Append(pre); O.Append(Convert.ToHexString(b).ToLowerInvariant()); O.Append(' '); }
    public void PStr(string s) { if (s == null) { O.Append("!null "); return; } PHex("s", new UTF8Encoding(false, true).GetBytes(s)); }
}
public class Chunked : System.IO.Stream {
    public byte[] B; public int[] Cuts; public int Mode, Fail; public int Pos, Calls;
    public override bool CanRead { get { return true; } } public override bool CanSeek { get { return true; } } public override bool CanWrite { get { return false; } }
    public override long Length { get { return B.Length; } }
    public override long Position { get { return Pos; } set { Pos = (int)value; } }
    public override void Flush() {}
    public override long Seek(long o, System.IO.SeekOrigin w) { Pos = (int)(w == System.IO.SeekOrigin.Begin ? o : w == System.IO.SeekOrigin.Current ? Pos + o : B.Length + o); return Pos; }
    public override void SetLength(long v) { throw new NotSupportedException(); }
    public override void Write(byte[] b, int o, int n) { throw new NotSupportedException(); }
    public override int Read(byte[] b, int o, int n) {
        if (n == 0) return 0;
        if (++Calls > 1000000) throw new HarnessException("harness: endless reading");
        int lim = Fail >= 0 ? Fail : B.Length;
        if (Pos >= lim) { if (Fail >= 0) throw new System.IO.IOException("stream failed"); return 0; }
        int to = lim;
        foreach (int c in Cuts) if (c > Pos && c < to) to = c;
        if ((Mode & 4) != 0) to = Pos + 1;
        n = Math.Min(n, to - Pos);
        Array.Copy(B, Pos, b, o, n); Pos += n; return n;
    }
}
// ---- controlled scheduler: two threads, one of which runs at a time; P() is where they may be switched
public class Worker {
    public int Id, N, Stop; public volatile bool Done; public string[] Toks; public string Res;
}
public static class Sched {
    public static Worker[] Ws = { new Worker { Id = 0 }, new Worker { Id = 1 } };
    static volatile int turn = 2; static volatile bool free; static long progress;
    static int[] sw; static int ksw;
    [ThreadStatic] static Worker me;
    public static Func<string[], string> Exec;
    static void Wait(int id) {
        for (int i = 0; i < 300; i++) { if (turn == id || (id != 2 && free)) return; System.Threading.Thread.SpinWait(20); }
        long last = System.Threading.Volatile.Read(ref progress); var t = System.Diagnostics.Stopwatch.StartNew();
        for (long i = 1; !(turn == id || (id != 2 && free)); i++) {
            System.Threading.Thread.Yield();
            if (id == 2 && (i & 255) == 0) {
                long p = System.Threading.Volatile.Read(ref progress);
                if (p != last) { last = p; t.Restart(); } else if (t.ElapsedMilliseconds > 700) free = true;      // one waits for something the other one holds
                if (free && Ws[0].Done && Ws[1].Done) return;
            }
            if (i > 20000) System.Threading.Thread.Sleep(0);
            if (i > 40000) System.Threading.Thread.Sleep(1);
        }
    }
    static void Hand(int to) { System.Threading.Interlocked.Increment(ref progress); turn = to; }
    public static void P() {
        var w = me;
        if (w == null || free) return;
        if (w.N == w.Stop) {
            var o = Ws[1 - w.Id]; w.Stop = -1;
            if (!o.Done) { ksw++; o.Stop = ksw < sw.Length ? sw[ksw] : -1; Hand(o.Id); Wait(w.Id); }
        }
        w.N++;
    }
    static void Work(Worker w) {
        for (;;) {
            for (;;) { Wait(w.Id); if (!w.Done) break; if (free) System.Threading.Thread.Sleep(1); else System.Threading.Thread.Yield(); }
            me = w; w.Res = Exec((string[])w.Toks.Clone()); me = null;
            w.Done = true;
            var o = Ws[1 - w.Id];
            if (!o.Done) o.Stop = -1;
            if (!free) Hand(o.Done ? 2 : o.Id); else { System.Threading.Interlocked.Increment(ref progress); while (free) System.Threading.Thread.Sleep(1); }
        }
    }
    static bool started;
    static bool Run(string[][] cmds, int[] s) {
        if (!started) { started = true; foreach (var w in Ws) { w.Done = true; var x = w; var t = new System.Threading.Thread(() => Work(x)); t.IsBackground = true; t.Start(); } }
        for (int i = 0; i < 2; i++) { Ws[i].Toks = cmds[i]; Ws[i].N = 0; Ws[i].Stop = -1; Ws[i].Done = false; }
        sw = s; ksw = 0; if (s.Length > 0) Ws[0].Stop = s[0];
        Hand(0); Wait(2);
        bool fine = !free; turn = 2; free = false; return fine;
    }
    static string[] solo = new string[2]; static int[] cnt = new int[2]; static long scheds, dissolved; static string bad; static int bound; static DateTime deadline;
    static void Rec(string[][] cmds, int[] s) {
        int who = s.Length % 2;
        for (int i = s.Length >= 2 ? s[s.Length - 2] + 1 : 0; i < cnt[who] && bad == null && dissolved < 6 && DateTime.UtcNow < deadline; i++) {
            var n = new int[s.Length + 1]; s.CopyTo(n, 0); n[s.Length] = i;
            if (!Run(cmds, n)) dissolved++;
            scheds++;
            if (Ws[0].Res != solo[0] || Ws[1].Res != solo[1]) { bad = "differs " + string.Join(" ", n) + " || " + Ws[0].Res + " || " + Ws[1].Res; return; }
            if (n.Length < bound) Rec(cmds, n);
        }
    }
    public static string Explore(string[] t) {
        int k = 1; bound = int.Parse(t[k++]); int only = int.Parse(t[k++]); int sep = Array.IndexOf(t, "||");
        var cmds = new[] { t[k..sep], t[(sep + 1)..] };
        if (bound < 0) { bool ok = Run(cmds, new[] { only }); return $"ok {Ws[0].N} {ok} || {Ws[0].Res} || {Ws[1].Res}"; }
        deadline = DateTime.UtcNow.AddMilliseconds(only);
        Run(cmds, new int[0]); scheds = 1; dissolved = 0; bad = null;
        for (int i = 0; i < 2; i++) { solo[i] = Ws[i].Res; cnt[i] = Ws[i].N; }
        Rec(cmds, new int[0]);
        return bad ?? $"ok {cnt[0]} {cnt[1]} {scheds} {dissolved} {(dissolved < 6 && DateTime.UtcNow < deadline ? 1 : 0)} || {solo[0]} || {solo[1]}";
    }
}
public static class RtMain {
    static string Exec(string[] toks) {
        var c = new Cur { T = toks };
        try { string cmd = c.Next(); int pid = (int)c.Int(); Disp.Dispatch(c, cmd, pid); }
        catch (HarnessException e) { Console.Error.WriteLine(e.Message); Environment.Exit(9); }
        catch (Exception e) { c.O.Clear(); c.P("panic " + (e.GetType().Name + " " + e.Message).Replace('\n', ' ').Replace('\r', ' ')); }
        string s = c.O.ToString(); int h = s.IndexOf(" #"); return (h < 0 ? s : s.Substring(0, h)).TrimEnd();
    }
    public static int Main() {
        CultureInfo.DefaultThreadCurrentCulture = CultureInfo.InvariantCulture;
        var sin = new System.IO.StreamReader(Console.OpenStandardInput(), new UTF8Encoding(false), false, 1 << 16);
        var sout = new System.IO.StreamWriter(Console.OpenStandardOutput(), new UTF8Encoding(false), 1 << 16);
        string line;
        while ((line = sin.ReadLine()) != null) {
            var c = new Cur { T = line.Split(' ', StringSplitOptions.RemoveEmptyEntries) };
            if (c.T[0] == "X") { Sched.Exec = Exec; sout.Write(Sched.Explore(c.T)); sout.Write('\n'); sout.Flush(); continue; }
            try {
                string cmd = c.Next(); int pid = (int)c.Int();
                Disp.Dispatch(c, cmd, pid);
            } catch (HarnessException e) { Console.Error.WriteLine(e.Message); return 9; }
            catch (Exception e) { c.O.Clear(); c.P("panic " + (e.GetType().Name + " " + e.Message).Replace('\n', ' ').Replace('\r', ' ')); }
            sout.Write(c.O.ToString().TrimEnd()); sout.Write('\n'); sout.Flush();
        }
        return 0;
    }
}
'''


def _bld(p, ns, t):
    k = p.kind(t)
    if k == "string": return "c.Str()"
    if k == "enum": return f"({ns}{t})c.Int()"
    if k == "struct": return f"bld_{t}(c)"
    if t == "float": return "BitConverter.Int32BitsToSingle(unchecked((int)c.Uint()))"
    if t == "double": return "BitConverter.Int64BitsToDouble(unchecked((long)c.Uint()))"
    if t == "bool": return "(c.Int() != 0)"
    if t == "uint64": return "c.Uint()"
    return f"({CST[t]})c.Int()"


def _dmp(p, t, lv):
    k = p.kind(t)
    if k == "string": return f"c.PStr({lv});"
    if k == "enum": return f"c.P((long){lv});"
    if k == "struct": return f"dmp_{t}(c, {lv});"
    if t == "float": return f"c.P(unchecked((uint)BitConverter.SingleToInt32Bits({lv})));"
    if t == "double": return f"c.P(unchecked((ulong)BitConverter.DoubleToInt64Bits({lv})));"
    if t == "bool": return f"c.P({lv} ? 1 : 0);"
    return f"c.P({lv});"


def driver_source(p: Protocol) -> str:
    ns = f"global::{p.ns}." if p.ns else "global::"
    o = [f"using System; using System.IO; using System.Collections.Generic;\npublic static class D{p.pid} {{\n"]
    for s in p.structs + p.messages:
        o.append(f"static {ns}{s.name} bld_{s.name}(Cur c) {{ var v = new {ns}{s.name}();\n")
        for m in s.members:
            if m.is_list:
                o.append(f"  {{ long n = c.Int(); v.{m.name}.Clear(); for (long i = 0; i < n; i++) v.{m.name}.Add({_bld(p, ns, m.type)}); }}\n")
            else:
                o.append(f"  v.{m.name} = {_bld(p, ns, m.type)};\n")
        o.append(f"  return v; }}\nstatic void dmp_{s.name}(Cur c, {ns}{s.name} v) {{\n  if (v == null) {{ c.P(\"!null\"); return; }}\n")
        for m in s.members:
            if m.is_list:
                o.append(f"  c.P(v.{m.name}.Count); foreach (var x in v.{m.name}) {{ {_dmp(p, m.type, 'x')} }}\n")
            else:
                o.append(f"  {_dmp(p, m.type, 'v.' + m.name)}\n")
        o.append("}\n")
    M = f"{ns}Message"
    o.append(f"static {M} mk(Cur c, int mid) {{ switch (mid) {{\n")
    o += [f"  case {i}: return bld_{m.name}(c);\n" for i, m in enumerate(p.messages)]
    o.append(f"  }} throw new HarnessException(\"harness: mid\"); }}\nstatic void dmp(Cur c, {M} m) {{ int t = (int)m.GetMessageType(); c.P(t - 1); switch (t - 1) {{\n")
    o += [f"  case {i}: dmp_{m.name}(c, ({ns}{m.name})m); break;\n" for i, m in enumerate(p.messages)]
    o.append("  default: c.P(\"!type\"); break; } c.P(\";\"); }\n")
    o.append(f"static {M} rd(int mid, BinaryReader r) {{ switch (mid) {{\n")
    o += [f"  case {i}: return {ns}{m.name}.FromBytes(r);\n" for i, m in enumerate(p.messages)]
    o.append(f"  }} throw new HarnessException(\"harness: mid\"); }}\nstatic {M} dfl(int mid) {{ switch (mid) {{\n")
    o += [f"  case {i}: return new {ns}{m.name}();\n" for i, m in enumerate(p.messages)]
    o.append("  } throw new HarnessException(\"harness: mid\"); }\n")
    o.append(r'''
static void dmplist(Cur c, MSG[] l) { Sched.P(); c.P(l.Length); foreach (var m in l) dmp(c, m); }
static void fill(System.IO.Stream s, long n) { for (long i = 0; i < n; i++) s.WriteByte(0xEE); }
static void err(Cur c, Exception e) { c.P("err"); c.P("#" + e.GetType().Name); }
static void clobber(byte[] b) { for (int i = 0; i < b.Length; i++) b[i] = 0xAA; }
public static void Cmd(Cur c, string cmd) {
    switch (cmd) {
    case "E": {
        int mid = (int)c.Int(); bool tag = c.Int() != 0; long pre = c.Int(), post = c.Int();
        var m = mk(c, mid); int sz = m.GetSizeInBytes();
        var s = new MemoryStream(); fill(s, pre);
        var w = new BinaryWriter(s); m.WriteBytes(w, tag); w.Flush();
        c.P("ok"); c.P(sz); c.P(s.Position); fill(s, post); c.PHex("x", s.ToArray()); break; }
    case "D": {
        int mid = (int)c.Int(); long off = c.Int(); var b = c.Hex();
        var s = new MemoryStream(b); s.Position = off; var r = new BinaryReader(s);
        MSG m; try { m = rd(mid, r); } catch (Exception e) when (!(e is HarnessException)) { err(c, e); break; }
        clobber(b);
        c.P("ok"); c.P(s.Position); dmp(c, m); break; }
    case "Z": { var m = dfl((int)c.Int()); c.P("ok"); dmp(c, m); c.P("|"); c.P(m.GetSizeInBytes()); break; }
    case "R": {
        long off = c.Int(); var b = c.Hex(); var s = new MemoryStream(b); s.Position = off; var r = new BinaryReader(s);
        int k = (int)c.Int(); c.P("ok");
        for (int i = 0; i < k; i++) {
            MSG[] l; try { l = MSG.ProcessRawBytes(r, (int)c.Int()); } catch (Exception e) when (!(e is HarnessException)) { err(c, e); return; }
            c.P(s.Position); dmplist(c, l); c.P("|");
        } break; }
    case "U": {
        long off = c.Int(); var b = c.Hex(); var s = new MemoryStream(b); s.Position = off; var r = new BinaryReader(s);
        MSG[] l; try { l = MSG.UnpackMessages(r); } catch (Exception e) when (!(e is HarnessException)) { err(c, e); break; }
        clobber(b);
        c.P("ok"); dmplist(c, l); break; }
    case "P": case "T": {
        long pre = c.Int(), post = c.Int(), n = c.Int(); var l = new List<MSG>();
        for (long i = 0; i < n; i++) l.Add(mk(c, (int)c.Int()));
        var s = new MemoryStream(); fill(s, pre); var w = new BinaryWriter(s); int sz = 0;
        if (cmd == "P") { sz = MSG.GetPackedSize(l); MSG.PackMessages(l, w); }
        else foreach (var m in l) { sz += m.GetSizeInBytes() + 1; m.WriteBytes(w, true); }
        w.Flush();
        c.P("ok"); c.P(sz); c.P(s.Position); fill(s, post); c.PHex("x", s.ToArray()); break; }
    case "S": {
        string op = c.Next(); int arg = (int)c.Int(); var s = new Chunked { Mode = (int)c.Int() };
        s.Cuts = new int[c.Int()]; for (int i = 0; i < s.Cuts.Length; i++) s.Cuts[i] = (int)c.Int();
        s.Fail = (int)c.Int(); s.B = c.Hex(); var r = new BinaryReader(s);
        try {
            if (op == "D") { var m = rd(arg, r); c.P("ok"); c.P(s.Position); dmp(c, m); }
            else if (op == "R") { var l = MSG.ProcessRawBytes(r, arg); c.P("ok"); c.P(s.Position); dmplist(c, l); }
            else { var l = MSG.UnpackMessages(r); c.P("ok"); dmplist(c, l); }
        } catch (Exception e) when (!(e is HarnessException)) { c.O.Clear(); err(c, e); }
        break; }
    case "I": {
        int n = (int)c.Int(); var rs = new BinaryReader[n]; var ws = new MemoryStream[n]; var bw = new BinaryWriter[n];
        for (int i = 0; i < n; i++) { long off = c.Int(); var s = new MemoryStream(c.Hex()); s.Position = off; rs[i] = new BinaryReader(s); ws[i] = new MemoryStream(); bw[i] = new BinaryWriter(ws[i]); }
        int k = (int)c.Int(); var res = new MSG[k][];
        for (int j = 0; j < k; j++) {
            int i = (int)c.Int();
            try { res[j] = MSG.ProcessRawBytes(rs[i], 1); } catch (Exception e) when (!(e is HarnessException)) { continue; }
            foreach (var m in res[j]) m.WriteBytes(bw[i], true);
        }
        c.P("ok"); foreach (var l in res) { if (l == null) c.P("err |"); else { dmplist(c, l); c.P("|"); } }
        for (int i = 0; i < n; i++) { bw[i].Flush(); c.PHex("x", ws[i].ToArray()); } break; }
    default: c.P("?"); break;
    }
}
}
'''.replace("MSG", M))
    return "".join(o)


_REFS = None


def csc_cmd():
    global _REFS
    if _REFS is None:
        csc = sorted(glob.glob("/usr/lib/dotnet/sdk/8.*/Roslyn/bincore/csc.dll"))
        refs = sorted(glob.glob("/usr/lib/dotnet/packs/Microsoft.NETCore.App.Ref/8.*/ref/net8.0/*.dll"))
        if not csc or not refs:
            raise InfraError("no Roslyn compiler found")
        _REFS = ["dotnet", csc[-1], "-nologo", "-noconfig", "-nostdlib", "-optimize+", "-nowarn:CS0162,CS0219,CS0168,CS8981,CS0649"] + [f"-r:{r}" for r in refs]
    return _REFS


POINTS = r'''
using System; using System.IO; using System.Linq; using System.Collections.Generic;
using Microsoft.CodeAnalysis; using Microsoft.CodeAnalysis.CSharp; using Microsoft.CodeAnalysis.CSharp.Syntax;
public static class Points {
    // a call of the scheduler before every statement
    public static void Main(string[] files) {
        foreach (var f in files) {
            var src = File.ReadAllText(f);
            var root = CSharpSyntaxTree.ParseText(src).GetRoot();
            var at = new List<(int, int, string)>();
            foreach (var s in root.DescendantNodes().OfType<StatementSyntax>()) {
                if (s is LocalFunctionStatementSyntax || s is LabeledStatementSyntax) continue;
                if (s.Parent is BlockSyntax || s.Parent is SwitchSectionSyntax) { at.Add((s.SpanStart, 1, "global::Sched.P(); ")); continue; }
                if (s is BlockSyntax) continue;
                if (s.Parent is StatementSyntax || s.Parent is ElseClauseSyntax) { at.Add((s.SpanStart, 1, "{ global::Sched.P(); ")); at.Add((s.Span.End, 0, " }")); }
            }
            var o = new System.Text.StringBuilder(); int last = 0;
            foreach (var (p, _, t) in at.OrderBy(x => x.Item1).ThenBy(x => x.Item2)) { o.Append(src, last, p - last); o.Append(t); last = p; }
            o.Append(src, last, src.Length - last);
            File.WriteAllText(f, o.ToString());
        }
    }
}
'''


def instrument(files, wd):
    wd.mkdir(parents=True, exist_ok=True)
    (wd / "points.cs").write_text(POINTS)
    cmd = csc_cmd()
    lib = Path(cmd[1]).parent
    dlls = ["Microsoft.CodeAnalysis.dll", "Microsoft.CodeAnalysis.CSharp.dll"]
    rc, out = sh(cmd + [f"-out:{wd}/points.dll", str(wd / "points.cs")] + [f"-r:{lib / d}" for d in dlls])
    if rc != 0:
        raise InfraError(out[-2000:])
    for d in dlls:
        os.symlink(lib / d, wd / d)
    (wd / "points.runtimeconfig.json").write_text(RUNTIME)
    rc, out = sh(["dotnet", str(wd / "points.dll")] + [str(f) for f in files])
    if rc != 0:
        raise InfraError(out[-2000:])
    shutil.rmtree(wd)


RUNTIME = '{"runtimeOptions":{"tfm":"net8.0","framework":{"name":"Microsoft.NETCore.App","version":"8.0.0"},"configProperties":{"System.Globalization.Invariant":true}}}'


class CSharp(Lang):
    name, beschi, ext = "csharp", "csharp", ".cs"

    def build(self, protos, wd, opts=None, points=False, **kw):
        wd = Path(wd)
        self.generate_all(protos, wd, opts)
        if points:
            instrument([wd / f"p{p.pid}.cs" for p in protos], wd / "points")
        (wd / "rt.cs").write_text(RT)
        for p in protos:
            (wd / f"d{p.pid}.cs").write_text(driver_source(p))
        (wd / "disp.cs").write_text("public static class Disp { public static void Dispatch(Cur c, string cmd, int pid) { switch (pid) {\n" +
                                    "".join(f"case {p.pid}: D{p.pid}.Cmd(c, cmd); break;\n" for p in protos) + "} } }\n")
        nons = [p for p in protos if not p.ns]
        assert len(nons) <= 1
        # DataReadErrorException & co live in the global namespace of every generated file:
        # one assembly per protocol, as a user would have
        from concurrent.futures import ThreadPoolExecutor

        def one(p):
            dup = csc_cmd() + ["-target:library", f"-out:{wd}/p{p.pid}.dll", f"-r:{wd}/rtlib.dll", str(wd / f"p{p.pid}.cs"), str(wd / f"d{p.pid}.cs")]
            return sh(dup, cwd=str(wd))
        lib = RT[:RT.index("public static class RtMain")]
        (wd / "rtlib.cs").write_text(lib)
        (wd / "rt.cs").write_text("using System; using System.Text; using System.Globalization;\n" + RT[RT.index("public static class RtMain"):])
        rc, out = sh(csc_cmd() + ["-target:library", f"-out:{wd}/rtlib.dll", str(wd / "rtlib.cs")])
        if rc != 0:
            raise InfraError(out[-2000:])
        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, protos))
        for p, (rc, out) in zip(protos, res):
            if rc != 0:
                raise BuildFailure(self.name, "compile", out, p.pid)
        rc, out = sh(csc_cmd() + [f"-out:{wd}/drv.dll", f"-r:{wd}/rtlib.dll"] + [f"-r:{wd}/p{p.pid}.dll" for p in protos] + [str(wd / "rt.cs"), str(wd / "disp.cs")])
        if rc != 0:
            raise InfraError(out[-2000:])
        (wd / "drv.runtimeconfig.json").write_text(RUNTIME)
        return Runner(self.name, ["dotnet", str(wd / "drv.dll")], cwd=str(wd), parallel=4)
