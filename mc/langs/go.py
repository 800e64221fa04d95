"""Go replay driver."""
from .base import *
from ..model import Protocol

GT = {"byte": "byte", "bool": "bool", "uint16": "uint16", "int16": "int16", "uint32": "uint32", "int32": "int32",
      "uint64": "uint64", "int64": "int64", "float": "float32", "double": "float64", "string": "string"}

RT = r'''package rt

import (
	"bufio"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"time"
)

type Cur struct {
	T []string
	I int
	O strings.Builder
}

func (c *Cur) Next() string { s := c.T[c.I]; c.I++; return s }
func (c *Cur) Int() int64 {
	v, err := strconv.ParseInt(c.Next(), 10, 64)
	if err != nil { panic("harness: " + err.Error()) }
	return v
}
func (c *Cur) Uint() uint64 {
	v, err := strconv.ParseUint(c.Next(), 10, 64)
	if err != nil { panic("harness: " + err.Error()) }
	return v
}
func (c *Cur) Str() string {
	b, err := hex.DecodeString(c.Next()[1:])
	if err != nil { panic("harness: " + err.Error()) }
	return string(b)
}
func (c *Cur) Hex() []byte { return []byte(c.Str()) }
func (c *Cur) P(f string, a ...any) {
	if strings.HasPrefix(f, "ok") { Pt() }
	fmt.Fprintf(&c.O, f, a...)
}
func (c *Cur) PHex(b []byte) { c.O.WriteString("x" + hex.EncodeToString(b)) }
func (c *Cur) PStr(s string) { c.O.WriteString("s" + hex.EncodeToString([]byte(s)) + " ") }

// a stream that delivers its bytes in given portions, may hesitate, and may fail
type Chunked struct {
	B []byte
	Cuts []int
	Mode int
	Fail int
	Pos int
	Calls int
}

var ErrStream = errors.New("stream failed")

func (r *Chunked) Read(b []byte) (int, error) {
	if len(b) == 0 { return 0, nil }
	r.Calls++
	if r.Calls > 1000000 { panic("endless reading") }
	if r.Mode&1 != 0 && r.Calls%2 == 1 { return 0, nil }
	lim := len(r.B)
	var end error = io.EOF
	if r.Fail >= 0 {
		lim = r.Fail
		end = ErrStream
		if r.Mode&8 != 0 { end = io.ErrUnexpectedEOF }
		if r.Mode&16 != 0 { end = io.ErrClosedPipe }
	}
	if r.Pos >= lim { return 0, end }
	to := lim
	for _, c := range r.Cuts { if c > r.Pos && c < to { to = c } }
	if r.Mode&4 != 0 { to = r.Pos + 1 }
	n := copy(b, r.B[r.Pos:to])
	r.Pos += n
	if r.Mode&2 != 0 && r.Pos == lim { return n, end }
	return n, nil
}

// ---- controlled scheduler: two goroutines, one of which runs at a time; Pt() is where they may be switched
type worker struct {
	id, n, stop int
	go_ chan int
	done bool
}

var active bool
var current *worker
var events = make(chan *worker, 8)

func Pt() {
	if !active { return }
	w := current
	if w == nil { return }
	if w.n == w.stop {
		events <- w
		w.stop = <-w.go_
		if active { current = w }
	}
	w.n++
}

func exec(dispatch func(c *Cur, cmd string, pid int), toks []string) string {
	c := &Cur{T: toks}
	func() {
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprint(r)
				if strings.HasPrefix(s, "harness:") { fmt.Fprintln(os.Stderr, s); os.Exit(9) }
				c.O.Reset()
				c.O.WriteString("panic " + strings.ReplaceAll(s, "\n", " "))
			}
		}()
		cmd := c.Next()
		pid := int(c.Int())
		dispatch(c, cmd, pid)
	}()
	return strings.TrimRight(strings.SplitN(c.O.String(), " #", 2)[0], " ")
}

// run both, switching from one to the other after the given numbers of points; reports the answers and the points met
func schedule(dispatch func(c *Cur, cmd string, pid int), cmds [2][]string, switches []int) (res [2]string, pts [2]int, ok bool) {
	var ws [2]*worker
	for i := range ws {
		w := &worker{id: i, go_: make(chan int)}
		ws[i] = w
		go func() {
			w.stop = <-w.go_
			if active { current = w }
			res[w.id] = exec(dispatch, append([]string(nil), cmds[w.id]...))
			w.done = true
			events <- w
		}()
	}
	active = true
	ok = true
	who := 0
	for k := 0; ; k++ {
		w := ws[who]
		stop := -1
		if k < len(switches) && !ws[1-who].done { stop = switches[k] }
		w.go_ <- stop
		t := time.NewTimer(300 * time.Millisecond)
		select {
		case <-events:
		case <-t.C:
			// it waits for something the other one holds: let go of both
			ok = false
			active = false
			if !ws[1-who].done { ws[1-who].go_ <- -1 }
			for !(ws[0].done && ws[1].done) { <-events }
		}
		t.Stop()
		if ws[0].done && ws[1].done { break }
		if !ws[1-who].done { who = 1 - who }
	}
	active = false
	current = nil
	return res, [2]int{ws[0].n, ws[1].n}, ok
}

// X bound cmd || cmd: all schedules with at most that many switches away from a running command
func explore(dispatch func(c *Cur, cmd string, pid int), t []string) string {
	bound, _ := strconv.Atoi(t[0])
	only, _ := strconv.Atoi(t[1])
	deadline := time.Now().Add(time.Duration(only) * time.Millisecond)
	t = t[2:]
	sep := 0
	for t[sep] != "||" { sep++ }
	cmds := [2][]string{t[:sep], t[sep+1:]}
	if bound < 0 {	// one schedule, in a process that has done nothing yet
		r, p, ok := schedule(dispatch, cmds, []int{only})
		return fmt.Sprintf("ok %d %v || %s || %s", p[0], ok, r[0], r[1])
	}
	solo, n, _ := schedule(dispatch, cmds, nil)
	count, dissolved := 1, 0
	bad := ""
	var rec func(sw []int)
	rec = func(sw []int) {
		// sw: how many points each stretch lets pass
		who := len(sw) % 2
		at := 0
		if len(sw) >= 2 { at = sw[len(sw)-2] + 1 }
		for i := at; i < n[who] && bad == "" && dissolved < 8 && time.Now().Before(deadline); i++ {
			s := append(append([]int(nil), sw...), i)
			r, _, ok := schedule(dispatch, cmds, s)
			count++
			if !ok { dissolved++ }
			if r != solo { bad = fmt.Sprintf("differs %v || %s || %s", s, r[0], r[1]); return }
			if len(s) < bound { rec(s) }
		}
	}
	rec(nil)
	if bad != "" { return bad }
	return fmt.Sprintf("ok %d %d %d %d %v || %s || %s", n[0], n[1], count, dissolved, dissolved < 8 && time.Now().Before(deadline), solo[0], solo[1])
}

func Main(dispatch func(c *Cur, cmd string, pid int)) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	for {
		line, err := in.ReadString('\n')
		if len(line) > 0 {
			c := &Cur{T: strings.Fields(line)}
			if c.T[0] == "X" {
				out.WriteString(explore(dispatch, c.T[1:]))
				out.WriteByte('\n')
				out.Flush()
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						s := fmt.Sprint(r)
						if strings.HasPrefix(s, "harness:") { fmt.Fprintln(os.Stderr, s); os.Exit(9) }
						c.O.Reset()
						c.P("panic %s", strings.ReplaceAll(s, "\n", " "))
					}
				}()
				cmd := c.Next()
				pid := int(c.Int())
				dispatch(c, cmd, pid)
			}()
			out.WriteString(c.O.String())
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil { return }
	}
}
'''


def cap(s):
    return s[:1].upper() + s[1:]


def _bld(p, t, lv, ind):
    k = p.kind(t)
    s = "\t" * ind
    if k == "string": return f"{s}{lv} = c.Str()\n"
    if k == "enum": return f"{s}{lv} = g.{t}(c.Int())\n"
    if k == "struct": return f"{s}bld{t}(c, &{lv})\n"
    if t == "float": return f"{s}{lv} = math.Float32frombits(uint32(c.Uint()))\n"
    if t == "double": return f"{s}{lv} = math.Float64frombits(c.Uint())\n"
    if t == "bool": return f"{s}{lv} = c.Int() != 0\n"
    if t == "uint64": return f"{s}{lv} = c.Uint()\n"
    return f"{s}{lv} = {GT[t]}(c.Int())\n"


def _dmp(p, t, lv, ind):
    k = p.kind(t)
    s = "\t" * ind
    if k == "string": return f"{s}c.PStr({lv})\n"
    if k == "struct": return f"{s}dmp{t}(c, &{lv})\n"
    if t == "float": return f"{s}c.P(\"%d \", math.Float32bits({lv}))\n"
    if t == "double": return f"{s}c.P(\"%d \", math.Float64bits({lv}))\n"
    if t == "bool": return f"{s}if {lv} {{ c.P(\"1 \") }} else {{ c.P(\"0 \") }}\n"
    return f"{s}c.P(\"%d \", {lv})\n"


def driver_source(p: Protocol, member=cap) -> str:
    o = [f"package d{p.pid}\n\nimport (\n\t\"bytes\"\n\t\"io\"\n\t\"math\"\n\t\"m/rt\"\n\tg \"m/p{p.pid}\"\n)\n\nvar _ = math.Abs\nvar _ = bytes.NewReader\n\n"]
    for s in p.structs + p.messages:
        o.append(f"func bld{s.name}(c *rt.Cur, v *g.{s.name}) {{\n")
        for m in s.members:
            a = f"v.{member(m.name)}"
            if m.is_list:
                ty = GT.get(m.type) or f"g.{m.type}"
                o.append(f"\t{a} = make([]{ty}, c.Int())\n\tfor i := range {a} {{\n{_bld(p, m.type, a + '[i]', 2)}\t}}\n")
            else:
                o.append(_bld(p, m.type, a, 1))
        o.append(f"}}\n\nfunc dmp{s.name}(c *rt.Cur, v *g.{s.name}) {{\n")
        for m in s.members:
            a = f"v.{member(m.name)}"
            if m.is_list:
                o.append(f"\tc.P(\"%d \", len({a}))\n\tfor i := range {a} {{\n{_dmp(p, m.type, a + '[i]', 2)}\t}}\n")
            else:
                o.append(_dmp(p, m.type, a, 1))
        o.append("}\n\n")
    o.append("func mk(c *rt.Cur, mid int) g.Message {\n\tswitch mid {\n")
    for i, m in enumerate(p.messages):
        o.append(f"\tcase {i}:\n\t\tv := &g.{m.name}{{}}\n\t\tbld{m.name}(c, v)\n\t\treturn v\n")
    o.append("\t}\n\tpanic(\"harness: mid\")\n}\n\nfunc dmp(c *rt.Cur, m g.Message) {\n\tc.P(\"%d \", int(m.GetMessageType())-1)\n\tswitch v := m.(type) {\n")
    for i, m in enumerate(p.messages):
        o.append(f"\tcase *g.{m.name}:\n\t\tdmp{m.name}(c, v)\n\tcase g.{m.name}:\n\t\tdmp{m.name}(c, &v)\n")
    o.append("\tdefault:\n\t\t_ = v\n\t\tc.P(\"!nil \")\n\t}\n\tc.P(\"; \")\n}\n\n")
    o.append("func rd(mid int, r io.Reader) (g.Message, error) {\n\tswitch mid {\n")
    for i, m in enumerate(p.messages):
        o.append(f"\tcase {i}:\n\t\tm, err := g.{m.name}FromBytes(r)\n\t\tif err != nil {{ return nil, err }}\n\t\treturn m, nil\n")
    o.append("\t}\n\tpanic(\"harness: mid\")\n}\n\nfunc dfl(mid int) g.Message {\n\tswitch mid {\n")
    for i, m in enumerate(p.messages):
        o.append(f"\tcase {i}:\n\t\treturn g.New{cap(m.name)}Default()\n")
    o.append("\t}\n\tpanic(\"harness: mid\")\n}\n\n")
    o.append(r'''
func dmplist(c *rt.Cur, l []g.Message) {
	rt.Pt()
	c.P("%d ", len(l))
	for _, m := range l { dmp(c, m) }
}
func clobber(b []byte) { for i := range b { b[i] = 0xAA } }
func pre(n int) *bytes.Buffer { return bytes.NewBuffer(bytes.Repeat([]byte{0xEE}, n)) }

func Cmd(c *rt.Cur, cmd string) {
	switch cmd {
	case "E":
		mid, tag, pr, post := int(c.Int()), c.Int() != 0, int(c.Int()), int(c.Int())
		m := mk(c, mid)
		sz := m.GetSizeInBytes()
		b := pre(pr)
		m.WriteBytes(b, tag)
		c.P("ok %d %d ", sz, b.Len())
		b.Write(bytes.Repeat([]byte{0xEE}, post))
		c.PHex(b.Bytes())
	case "D":
		mid, off := int(c.Int()), c.Int()
		b := c.Hex()
		r := bytes.NewReader(b)
		r.Seek(off, 0)
		m, err := rd(mid, r)
		clobber(b)
		if err != nil { c.P("err #%v", err); return }
		c.P("ok %d ", len(b)-r.Len())
		dmp(c, m)
	case "Z":
		m := dfl(int(c.Int()))
		c.P("ok ")
		dmp(c, m)
		c.P("| %d", m.GetSizeInBytes())
	case "R":
		off := c.Int()
		b := c.Hex()
		r := bytes.NewReader(b)
		r.Seek(off, 0)
		k := int(c.Int())
		c.P("ok ")
		for i := 0; i < k; i++ {
			l, err := g.ProcessRawBytes(r, int(c.Int()))
			if err != nil { c.P("err #%v", err); return }
			c.P("%d ", len(b)-r.Len())
			dmplist(c, l)
			c.P("| ")
		}
	case "U":
		off := c.Int()
		b := c.Hex()
		r := bytes.NewReader(b)
		r.Seek(off, 0)
		l, err := g.UnpackMessages(r)
		clobber(b)
		if err != nil { c.P("err #%v", err); return }
		c.P("ok ")
		dmplist(c, l)
	case "P", "T":
		pr, post, n := int(c.Int()), int(c.Int()), int(c.Int())
		l := make([]g.Message, n)
		for i := range l { l[i] = mk(c, int(c.Int())) }
		b := pre(pr)
		sz := 0
		if cmd == "P" {
			sz = g.GetPackedSize(l)
			g.PackMessages(l, b)
		} else {
			for _, m := range l { sz += m.GetSizeInBytes() + 1; m.WriteBytes(b, true) }
		}
		c.P("ok %d %d ", sz, b.Len())
		b.Write(bytes.Repeat([]byte{0xEE}, post))
		c.PHex(b.Bytes())
	case "S":
		op, arg, mode := c.Next(), int(c.Int()), int(c.Int())
		r := &rt.Chunked{Mode: mode}
		for n := int(c.Int()); n > 0; n-- { r.Cuts = append(r.Cuts, int(c.Int())) }
		r.Fail = int(c.Int())
		r.B = c.Hex()
		switch op {
		case "D":
			m, err := rd(arg, r)
			if err != nil { c.P("err #%v", err); return }
			c.P("ok %d ", r.Pos)
			dmp(c, m)
		case "R":
			l, err := g.ProcessRawBytes(r, arg)
			if err != nil { c.P("err #%v", err); return }
			c.P("ok %d ", r.Pos)
			dmplist(c, l)
		case "U":
			l, err := g.UnpackMessages(r)
			if err != nil { c.P("err #%v", err); return }
			c.P("ok ")
			dmplist(c, l)
		}
	case "I":
		n := int(c.Int())
		rs := make([]*bytes.Reader, n)
		ws := make([]*bytes.Buffer, n)
		for i := range rs {
			off := c.Int()
			rs[i] = bytes.NewReader(c.Hex())
			rs[i].Seek(off, 0)
			ws[i] = &bytes.Buffer{}
		}
		k := int(c.Int())
		res := make([][]g.Message, k)
		errs := make([]error, k)
		for j := 0; j < k; j++ {
			i := int(c.Int())
			res[j], errs[j] = g.ProcessRawBytes(rs[i], 1)
			if errs[j] == nil { for _, m := range res[j] { m.WriteBytes(ws[i], true) } }
		}
		c.P("ok ")
		for j := range res { if errs[j] != nil { c.P("err | ") } else { dmplist(c, res[j]); c.P("| ") } }
		for _, w := range ws { c.PHex(w.Bytes()); c.P(" ") }
	default:
		c.P("?")
	}
}
''')
    return "".join(o)


POINTS = r'''package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
)

// a call of the scheduler before every statement
func main() {
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil { panic(err) }
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
		if err != nil { fmt.Println(err); continue }
		var at []int
		list := func(l []ast.Stmt) { for _, s := range l { at = append(at, fs.Position(s.Pos()).Offset) } }
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SwitchStmt: for _, c := range n.Body.List { list(c.(*ast.CaseClause).Body) }
			case *ast.TypeSwitchStmt: for _, c := range n.Body.List { list(c.(*ast.CaseClause).Body) }
			case *ast.SelectStmt: for _, c := range n.Body.List { list(c.(*ast.CommClause).Body) }
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch s.(type) { case *ast.CaseClause, *ast.CommClause: continue }
					at = append(at, fs.Position(s.Pos()).Offset)
				}
			}
			return true
		})
		sort.Ints(at)
		end := fs.Position(f.Name.End()).Offset
		out := append([]byte(nil), src[:end]...)
		out = append(out, "; import schedrt \"m/rt\"\n"...)
		last := end
		for _, a := range at {
			out = append(out, src[last:a]...)
			out = append(out, "schedrt.Pt(); "...)
			last = a
		}
		out = append(out, src[last:]...)
		if err := os.WriteFile(name, out, 0644); err != nil { panic(err) }
	}
}
'''


def instrument(files, wd):
    wd.mkdir(parents=True, exist_ok=True)
    (wd / "go.mod").write_text("module points\n\ngo 1.21\n")
    (wd / "main.go").write_text(POINTS)
    rc, out = sh(["go", "build", "-o", str(wd / "points"), "."], cwd=str(wd))
    if rc != 0:
        raise InfraError(out[-2000:])
    rc, out = sh([str(wd / "points")] + [str(f) for f in files])
    if rc != 0:
        raise InfraError(out[-2000:])
    shutil.rmtree(wd)


class Go(Lang):
    name, beschi, ext = "go", "go", ".go"

    def out_path(self, wd, p):
        return wd / f"p{p.pid}" / "gen.go"

    def build(self, protos, wd, opts=None, member=cap, points=False, **kw):
        wd = Path(wd)
        self.generate_all(protos, wd, opts)
        if points:
            instrument([self.out_path(wd, p) for p in protos], wd / "points")
        (wd / "go.mod").write_text("module m\n\ngo 1.21\n")
        (wd / "rt").mkdir(exist_ok=True)
        (wd / "rt/rt.go").write_text(RT)
        for p in protos:
            d = wd / f"d{p.pid}"
            d.mkdir(exist_ok=True)
            (d / "d.go").write_text(driver_source(p, member))
        main = ["package main\n\nimport (\n\t\"m/rt\"\n"] + [f"\t\"m/d{p.pid}\"\n" for p in protos] + [")\n\n"]
        main.append("func main() {\n\trt.Main(func(c *rt.Cur, cmd string, pid int) {\n\t\tswitch pid {\n")
        main += [f"\t\tcase {p.pid}:\n\t\t\td{p.pid}.Cmd(c, cmd)\n" for p in protos] + ["\t\tdefault:\n\t\t\tc.P(\"?pid\")\n\t\t}\n\t})\n}\n"]
        (wd / "main.go").write_text("".join(main))
        rc, out = sh(["go", "build", "-p", "8", "-gcflags=./...=-l", "-o", str(wd / "drv"), "."], cwd=str(wd))
        if rc != 0:
            if "signal: killed" in out:
                raise InfraError(out[-500:])
            raise BuildFailure(self.name, "compile", out)
        return Runner(self.name, [str(wd / "drv")], cwd=str(wd), parallel=4, env={"GOMAXPROCS": "2", "GOTRACEBACK": "none"})
