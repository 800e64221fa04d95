"""C and C++20 replay driver (AddressSanitizer + UBSan, allocator under our control)."""
from .base import *
from ..model import Protocol
from concurrent.futures import ThreadPoolExecutor

CT = {"byte": "uint8_t", "bool": "bool", "uint16": "uint16_t", "int16": "int16_t", "uint32": "uint32_t",
      "int32": "int32_t", "uint64": "uint64_t", "int64": "int64_t", "float": "float", "double": "double", "string": "char*"}


def _bld(p, pre, t, lv, lenlv, ind):
    k = p.kind(t)
    s = "    " * ind
    if k == "string":
        return f"{s}{{ size_t n_; {lv} = rt_str(&n_); {lenlv} = (__typeof__({lenlv}))n_; }}\n"
    if k == "enum":
        return f"{s}{lv} = ({pre}{t})rt_i();\n"
    if k == "struct":
        return f"{s}bld_{t}(&{lv});\n"
    if t in ("float", "double"):
        u = "uint32_t" if t == "float" else "uint64_t"
        return f"{s}{{ {u} b_ = ({u})rt_u(); memcpy(&{lv}, &b_, sizeof b_); }}\n"
    if t == "bool":
        return f"{s}{lv} = rt_i() != 0;\n"
    f = "rt_u" if t == "uint64" else "rt_i"
    return f"{s}{lv} = ({CT[t]}){f}();\n"


def _dmp(p, pre, t, lv, lenlv, ind):
    k = p.kind(t)
    s = "    " * ind
    if k == "string":
        return (f'{s}rt_out("s"); rt_outhex((const uint8_t*){lv}, (size_t){lenlv});\n'
                f'{s}if ({lv}[{lenlv}] != 0) rt_out("!unterminated");\n{s}rt_out(" ");\n')
    if k == "enum":
        return f'{s}rt_out("%lld ", (long long){lv});\n'
    if k == "struct":
        return f"{s}dmp_{t}(&{lv});\n"
    if t in ("float", "double"):
        u = "uint32_t" if t == "float" else "uint64_t"
        return f'{s}{{ {u} b_; memcpy(&b_, &{lv}, sizeof b_); rt_out("%llu ", (unsigned long long)b_); }}\n'
    if t == "bool":
        return f'{s}{{ uint8_t b_; memcpy(&b_, &{lv}, 1); rt_out("%d ", (int)b_); }}\n'
    if t == "uint64":
        return f'{s}rt_out("%llu ", (unsigned long long){lv});\n'
    return f'{s}rt_out("%lld ", (long long){lv});\n'


def struct_fns(p, pre, st):
    o = [f"static void bld_{st.name}({pre}{st.name}* v) {{\n    (void)v;\n"]
    for m in st.members:
        a = f"v->{m.name}"
        if m.is_list:
            o.append(f"    {{ size_t n = (size_t)rt_u(); {a}_len = (__typeof__({a}_len))n;\n")
            o.append(f"      long f_ = rt_fail_at; rt_fail_at = 0; {a} = (__typeof__({a}))rt_malloc((n ? n : 1) * sizeof(*{a}));\n")
            if m.type == "string":
                o.append(f"      {a}_els_len = (__typeof__({a}_els_len))rt_malloc((n ? n : 1) * sizeof(*{a}_els_len));\n")
            o.append(f"      rt_fail_at = f_;\n      for (size_t i = 0; i < n; i++) {{\n")
            o.append(_bld(p, pre, m.type, f"{a}[i]", f"{a}_els_len[i]", 2))
            o.append("      }\n    }\n")
        else:
            o.append(_bld(p, pre, m.type, a, f"{a}_len", 1))
    o.append("}\n")
    o.append(f"static void dmp_{st.name}(const {pre}{st.name}* v) {{\n    (void)v;\n")
    for m in st.members:
        a = f"v->{m.name}"
        if m.is_list:
            o.append(f'    rt_out("%llu ", (unsigned long long){a}_len);\n    for (size_t i = 0; i < (size_t){a}_len; i++) {{\n')
            o.append(_dmp(p, pre, m.type, f"{a}[i]", f"{a}_els_len[i]", 2))
            o.append("    }\n")
        else:
            o.append(_dmp(p, pre, m.type, a, f"{a}_len", 1))
    o.append("}\n")
    return "".join(o)


def order_structs(p):
    done, out = set(), []

    def go(s):
        if s.name in done: return
        done.add(s.name)
        for m in s.members:
            if m.type in p.s: go(p.s[m.type])
        out.append(s)
    for s in p.structs: go(s)
    return out


def driver_source(p: Protocol, header: str) -> str:
    pre = f"{p.ns}_" if p.ns else "beschi_"
    U = pre.upper()
    OK = f"{U}ERR_OK"
    o = [f'#include "rt.h"\n#define {U}MALLOC rt_malloc\n#define {U}REALLOC rt_realloc\n#define {U}FREE rt_free\n'
         f'#define {U}IMPLEMENTATION\n#include "{header}"\n']
    for s in order_structs(p) + p.messages:
        o.append(struct_fns(p, pre, s))
    n = len(p.messages)
    o.append(f"typedef {pre}DataAccess DA;\ntypedef {pre}err_t err_t;\n")
    o.append("static void* mk(int mid, int build) {\n    void* r_ = NULL; long f_ = rt_fail_at; rt_fail_at = 0;\n    switch (mid) {\n")
    for i, m in enumerate(p.messages):
        o.append(f"    case {i}: {{ {pre}{m.name}* m = {pre}{m.name}_Create(); if (build) bld_{m.name}(m); r_ = m; break; }}\n")
    o.append('    default: fprintf(stderr, "harness: bad mid\\n"); exit(9);\n    }\n    rt_fail_at = f_; return r_;\n}\n')
    o.append(f"static void dmp(const void* m) {{\n    int t = (int){pre}GetMessageType(m);\n    rt_out(\"%d \", t - 1);\n    switch (t) {{\n")
    for i, m in enumerate(p.messages):
        o.append(f"    case {i + 1}: dmp_{m.name}((const {pre}{m.name}*)m); break;\n")
    o.append('    default: rt_out("!type ");\n    }\n    rt_out("; ");\n}\n')
    # typed functions
    o.append("static err_t t_size(int mid, const void* m, size_t* s) {\n    switch (mid) {\n")
    for i, m in enumerate(p.messages):
        o.append(f"    case {i}: return {pre}{m.name}_GetSizeInBytes((const {pre}{m.name}*)m, s);\n")
    o.append("    default: return 99; }\n}\n")
    o.append("static err_t t_write(int mid, DA* w, const void* m, bool tag) {\n    switch (mid) {\n")
    for i, m in enumerate(p.messages):
        o.append(f"    case {i}: return {pre}{m.name}_WriteBytes(w, (const {pre}{m.name}*)m, tag);\n")
    o.append("    default: return 99; }\n}\n")
    o.append("static err_t t_read(int mid, DA* r, void** out) {\n    switch (mid) {\n")
    for i, m in enumerate(p.messages):
        o.append(f"    case {i}: {{ long f_ = rt_fail_at; rt_fail_at = 0; void* d = rt_malloc(sizeof({pre}{m.name})); rt_allocs = 0; rt_fail_at = f_; *out = d;\n"
                 f"        return {pre}{m.name}_FromBytes(r, ({pre}{m.name}*)d); }}\n")
    o.append("    default: return 99; }\n}\n")
    o.append("static void t_destroy(int mid, void* m) {\n    switch (mid) {\n")
    for i, m in enumerate(p.messages):
        o.append(f"    case {i}: {pre}{m.name}_Destroy(({pre}{m.name}*)m); break;\n")
    o.append("    default: break; }\n}\n")
    o.append("static void t_cleanup(int mid, void* m) {\n    switch (mid) {\n")
    for i, m in enumerate(p.messages):
        o.append(f"    case {i}: {pre}{m.name}_Cleanup(({pre}{m.name}*)m); rt_free(m); break;\n")
    o.append("    default: break; }\n}\n")
    o.append("static void* t_create(int mid) {\n    switch (mid) {\n")
    for i, m in enumerate(p.messages):
        o.append(f"    case {i}: return {pre}{m.name}_Create();\n")
    o.append("    default: return NULL; }\n}\n")
    o.append("static void dfl(int mid) {\n    switch (mid) {\n")
    for i, m in enumerate(p.messages):
        o.append(f"    case {i}: {{ {pre}{m.name} d = {pre}{m.name}_default; dmp(&d); rt_out(\"| \"); {pre}{m.name}* c = {pre}{m.name}_Create(); dmp(c); "
                 f"size_t s1 = 777, s2 = 778; {pre}{m.name}_GetSizeInBytes(&d, &s1); {pre}{m.name}_GetSizeInBytes(c, &s2); rt_out(\"| %zu %zu\", s1, s2); {pre}{m.name}_Destroy(c); "
                 f"{pre}{m.name} e = {pre}{m.name}_default; {pre}{m.name}_Cleanup(&e); break; }}\n")
    o.append("    default: break; }\n}\n")
    o.append(f"""
static void dumplist(void** l, size_t n) {{ rt_pt(); rt_out("%zu ", n); for (size_t i = 0; i < n; i++) dmp(l[i]); }}
static uint8_t* fresh(size_t n) {{ uint8_t* b = (uint8_t*)malloc(n); memset(b, 0xEE, n); return b; }}
static void** mklist(size_t* n) {{
    *n = (size_t)rt_u(); void** l = (void**)rt_malloc(sizeof(void*) * (*n ? *n : 1));
    for (size_t i = 0; i < *n; i++) {{ int mid = (int)rt_i(); l[i] = mk(mid, 1); }}
    return l;
}}
#ifdef __cplusplus
extern "C" {{
#endif
void p{p.pid}_cmd(int cmd);
#ifdef __cplusplus
}}
#endif
void p{p.pid}_cmd(int cmd) {{
    switch (cmd) {{
    case 'E': {{
        int mid = (int)rt_i(); bool tag = rt_i() != 0; size_t prefix = (size_t)rt_u(), post = (size_t)rt_u();
        void* m = mk(mid, 1); size_t sz = 777, sz2 = 778;
        err_t e = t_size(mid, m, &sz), e2 = {pre}GetSizeInBytes(m, &sz2);
        if (e != {OK} || e2 != {OK} || sz != sz2) {{ rt_out("err size #%d %d %zu %zu", e, e2, sz, sz2); t_destroy(mid, m); break; }}
        size_t cap = prefix + (tag ? 1 : 0) + sz + post;
        uint8_t* b = fresh(cap); DA w = {{ b, cap, prefix }};
        e = t_write(mid, &w, m, tag);
        uint8_t* b2 = fresh(cap); DA w2 = {{ b2, cap, prefix }};
        e2 = {pre}WriteBytes(&w2, m, tag);
        if (e != e2 || memcmp(b, b2, cap) != 0 || w.position != w2.position) rt_out("mismatch generic WriteBytes ");
        if (e != {OK}) rt_out("err #%d", e);
        else {{ rt_out("ok %zu %zu x", sz, w.position); rt_outhex(b, cap); }}
        free(b); free(b2);
        if ({pre}Destroy(m) != {OK}) rt_out(" destroy-failed");
        break; }}
    case 'D': {{
        int mid = (int)rt_i(); size_t off = (size_t)rt_u(), n; uint8_t* b = rt_hex(&n); DA r = {{ b, n, off }}; void* m = NULL;
        err_t e = t_read(mid, &r, &m);
        memset(b, 0xAA, n); free(b);
        if (e != {OK}) {{ rt_out("err #%d", e); t_destroy(mid, m); break; }}
        rt_out("ok %zu ", r.position); dmp(m); t_cleanup(mid, m);
        break; }}
    case 'Z': rt_out("ok "); dfl((int)rt_i()); break;
    case 'K': {{ /* create, show, write, destroy */
        int mid = (int)rt_i(); void* m = t_create(mid); if (!m) {{ rt_out("err"); break; }}
        rt_out("ok "); dmp(m);
        size_t sz = 777; if (t_size(mid, m, &sz) != {OK}) rt_out("size failed ");
        uint8_t* b = fresh(sz); DA w = {{ b, sz, 0 }}; if (t_write(mid, &w, m, false) != {OK} || w.position != sz) rt_out("write failed ");
        free(b); if ({pre}Destroy(m) != {OK}) rt_out("destroy failed ");
        break; }}
    case 'R': {{
        size_t off = (size_t)rt_u(), n; uint8_t* b = rt_hex(&n); DA r = {{ b, n, off }}; int k = (int)rt_i(); rt_out("ok ");
        for (int j = 0; j < k; j++) {{
            int32_t mx = (int32_t)rt_i(); void** l = NULL; size_t len = 0;
            err_t e = {pre}ProcessRawBytes(&r, mx, &l, &len);
            if (e != {OK}) {{ rt_out("err #%d %zu", e, len); {pre}DestroyMessageList(l, len); break; }}
            rt_out("%zu ", r.position); dumplist(l, len); rt_out("| ");
            if ({pre}DestroyMessageList(l, len) != {OK}) rt_out("destroy-failed ");
        }}
        free(b); break; }}
    case 'U': {{
        size_t off = (size_t)rt_u(), n; uint8_t* b = rt_hex(&n); DA r = {{ b, n, off }}; void** l = NULL; size_t len = 0;
        err_t e = {pre}UnpackMessages(&r, &l, &len);
        memset(b, 0xAA, n); free(b);
        if (e != {OK}) {{ rt_out("err #%d %zu", e, len); if (l) {pre}DestroyMessageList(l, len); break; }}
        rt_out("ok "); dumplist(l, len); if (l) {pre}DestroyMessageList(l, len);
        break; }}
    case 'P': case 'T': case 'V': {{
        size_t prefix = (size_t)rt_u(); long long postcap = (long long)rt_i(); size_t n; void** l = mklist(&n);
        size_t sz = 777; err_t e = {OK}; size_t cap;
        if (cmd == 'T') {{ sz = n; for (size_t i = 0; i < n; i++) {{ size_t s = 0; e = {pre}GetSizeInBytes(l[i], &s); sz += s; }} }}
        else e = {pre}GetPackedSize(l, n, &sz);
        if (e != {OK}) {{ rt_out("err size"); {pre}DestroyMessageList(l, n); break; }}
        cap = cmd == 'V' ? (size_t)postcap : prefix + sz + (size_t)postcap;
        uint8_t* b = fresh(cap); DA w = {{ b, cap, prefix }};
        if (cmd == 'T') for (size_t i = 0; i < n && e == {OK}; i++) e = {pre}WriteBytes(&w, l[i], true);
        else e = {pre}PackMessages(l, n, &w);
        bool same = true; for (size_t i = 0; i < prefix && i < cap; i++) same = same && b[i] == 0xEE;
        if (e != {OK}) rt_out("err %s#%d", same ? "" : "prefix-clobbered ", e);
        else {{ rt_out("ok %zu %zu x", sz, w.position); rt_outhex(b, cap); }}
        free(b); if ({pre}DestroyMessageList(l, n) != {OK}) rt_out(" destroy-failed");
        break; }}
    case 'W': {{
        int mid = (int)rt_i(); bool tag = rt_i() != 0; size_t prefix = (size_t)rt_u(), cap = (size_t)rt_u();
        void* m = mk(mid, 1); uint8_t* b = fresh(cap); DA w = {{ b, cap, prefix }};
        err_t e = t_write(mid, &w, m, tag);
        bool same = true; for (size_t i = 0; i < prefix && i < cap; i++) same = same && b[i] == 0xEE;
        if (e != {OK}) rt_out("err %s#%d", same ? "" : "prefix-clobbered ", e);
        else {{ rt_out("ok %zu x", w.position); rt_outhex(b, cap); }}
        free(b); t_destroy(mid, m);
        break; }}
    case 'I': {{
        enum {{ MAXS = 8, MAXK = 64 }};
        size_t n = (size_t)rt_u(); uint8_t* bs[MAXS]; DA rs[MAXS]; DA ws[MAXS]; void** res[MAXK]; size_t len[MAXK]; err_t errs[MAXK];
        if (n > MAXS) {{ fprintf(stderr, "harness: sessions\\n"); exit(9); }}
        for (size_t i = 0; i < n; i++) {{
            size_t off = (size_t)rt_u(), bl; bs[i] = rt_hex(&bl); rs[i].buffer = bs[i]; rs[i].bufferSize = bl; rs[i].position = off;
            ws[i].bufferSize = 4 * bl + 64; ws[i].buffer = fresh(ws[i].bufferSize); ws[i].position = 0;
        }}
        size_t k = (size_t)rt_u(); if (k > MAXK) {{ fprintf(stderr, "harness: steps\\n"); exit(9); }}
        for (size_t j = 0; j < k; j++) {{
            size_t i = (size_t)rt_u(); res[j] = NULL; len[j] = 0;
            errs[j] = {pre}ProcessRawBytes(&rs[i], 1, &res[j], &len[j]);
            if (errs[j] == {OK}) for (size_t x = 0; x < len[j]; x++) if ({pre}WriteBytes(&ws[i], res[j][x], true) != {OK}) rt_out("write-failed ");
        }}
        rt_out("ok ");
        for (size_t j = 0; j < k; j++) {{ if (errs[j] != {OK}) rt_out("err | "); else {{ dumplist(res[j], len[j]); rt_out("| "); }} }}
        for (size_t i = 0; i < n; i++) {{ rt_out("x"); rt_outhex(ws[i].buffer, ws[i].position); rt_out(" "); }}
        for (size_t h = 0; h < 2; h++) for (size_t j = h; j < k; j += 2) {pre}DestroyMessageList(res[j], len[j]);
        for (size_t i = 0; i < n; i++) {{ free(bs[i]); free(ws[i].buffer); }}
        break; }}
    default: rt_out("?");
    }}
}}
""")
    return "".join(o)


class C(Lang):
    name, beschi, ext = "c", "c", ".h"
    fixed_buffer = True
    bounded = True
    has_alloc = True
    cc = ["gcc-13", "-std=gnu99"]
    lang_flags: list = []
    suffix = ".c"

    conc_cc = ["clang", "-std=gnu99"]

    def build(self, protos, wd, opts=None, san=True, header_dir=None, extra=(), points=False):
        wd = Path(wd)
        self.generate_all(protos, wd, opts)
        if points:
            return self.build_conc(protos, wd)
        flags = list(self.cc) + ["-g", "-O0", "-w", f"-I{HERE / 'rt'}", f"-I{wd}", *extra]
        if san:
            flags += ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"]
        for p in protos:
            (wd / f"p{p.pid}{self.suffix}").write_text(driver_source(p, f"p{p.pid}.h"))
        disp = ['#include "rt.h"\n'] + [f"void p{p.pid}_cmd(int);\n" for p in protos]
        disp.append("void rt_dispatch(int cmd, int pid);\nvoid rt_dispatch(int cmd, int pid) { switch (pid) {\n")
        disp += [f"case {p.pid}: p{p.pid}_cmd(cmd); break;\n" for p in protos]
        disp.append("default: rt_out(\"?pid\"); } }\n")
        (wd / "disp.c").write_text("".join(disp))
        cbase = ["gcc-13", "-std=gnu99", "-g", "-O0", "-w", f"-I{HERE / 'rt'}"] + flags[flags.index(f"-I{wd}") + 1:]

        def comp(src, obj, fl):
            return sh([*fl, "-c", str(src), "-o", str(obj)])
        jobs = [(wd / f"p{p.pid}{self.suffix}", wd / f"p{p.pid}.o", flags + self.lang_flags, p.pid) for p in protos]
        jobs += [(wd / "disp.c", wd / "disp.o", cbase, None), (HERE / "rt/rt_main.c", wd / "rt_main.o", cbase, None)]
        cdecl = self.lang_flags
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: comp(j[0], j[1], j[2]), jobs))
        for j, (rc, out) in zip(jobs, res):
            if rc != 0:
                if j[3] is None:
                    raise InfraError(out[-2000:])
                raise BuildFailure(self.name, "compile", out, j[3])
        rc, out = sh([self.cc[0], *( ["-fsanitize=address,undefined"] if san else []), "-o", str(wd / "drv")] + [str(j[1]) for j in jobs])
        if rc != 0:
            raise BuildFailure(self.name, "link", out)
        return Runner(self.name, [str(wd / "drv")], cwd=str(wd), parallel=4,
                      env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=0"})


    def build_conc(self, protos, wd):
        """with a scheduling point at each memory access of the generated code, and the scheduler of conc.c"""
        inc = ["-g", "-O0", "-w", "-DRT_CONC", f"-I{HERE / 'rt'}", f"-I{wd}"]
        jobs = [(["clang", "-std=gnu11", *inc], HERE / f"rt/{x}.c", wd / f"{x}.o", None) for x in ("rt_main", "conc")]
        disp = ['#include "rt.h"\n'] + [f"void p{p.pid}_cmd(int);\n" for p in protos] + ["void rt_dispatch(int cmd, int pid);\nvoid rt_dispatch(int cmd, int pid) { switch (pid) {\n"]
        disp += [f"case {p.pid}: p{p.pid}_cmd(cmd); break;\n" for p in protos] + ["} }\n"]
        (wd / "disp.c").write_text("".join(disp))
        jobs.append((["clang", "-std=gnu11", *inc], wd / "disp.c", wd / "disp.o", None))
        for p in protos:
            src = driver_source(p, f"p{p.pid}.h")
            inc_ = f'#include "p{p.pid}.h"\n'
            assert inc_ in src
            src = src.replace(inc_, inc_ + "#pragma clang attribute push(__attribute__((disable_sanitizer_instrumentation)), apply_to=function)\n") + "#pragma clang attribute pop\n"
            (wd / f"p{p.pid}{self.suffix}").write_text(src)
            jobs.append(([*self.conc_cc, *inc, "-fsanitize=thread"], wd / f"p{p.pid}{self.suffix}", wd / f"p{p.pid}.o", p.pid))
        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(lambda j: sh([*j[0], "-c", str(j[1]), "-o", str(j[2])]), jobs))
        for j, (rc, out) in zip(jobs, res):
            if rc != 0:
                if j[3] is None:
                    raise InfraError(out[-2000:])
                raise BuildFailure(self.name, "compile", out, j[3])
        rc, out = sh([self.conc_cc[0], "-o", str(wd / "drv"), *[str(j[2]) for j in jobs], "-lpthread"])
        if rc != 0:
            raise InfraError(out[-2000:])
        return Runner(self.name, [str(wd / "drv")], cwd=str(wd))


class Cpp(C):
    conc_cc = ["clang++", "-std=c++20", "-x", "c++"]
    name = "cpp"
    cc = ["g++-13", "-std=c++20", "-x", "c++"]
    suffix = ".cpp"

    def build(self, protos, wd, opts=None, **kw):
        return super().build(protos, wd, opts, **kw)
