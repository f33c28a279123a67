"""C06: the parameter database: every bounded input file, command line and call sequence against a reference model."""
import itertools, re, struct, subprocess
from vlib import build, ics, sim, space

BOUNDS = ("all files of up to 3 lines over 24 line forms (and of 4 lines over 11) in three contexts, all command lines of up to 2 arguments over 16 forms, all sequences of up to 3 calls over 20 call forms, "
          "each followed by a full read-out, all three dump forms and a re-read of the dump; the program's own -n dump, serially and on 2-4 processes, for every file of up to 2 lines")
ASSUME = ["lines are shorter than 256 characters (documented limit)", "integer parameters are written as integers", "parameter names are not empty", "values given on the command line contain no # (it would start a comment in any file)"]
LINES = ["<a>", "<b>", "< a >  # block", "  <a b>", "<job>", "x = 1", "x=2# note", "  y =  -3.5e1  ", "y = 4\t# tab  ", "z = two words", "z = p=q", "w =", "w = # only a comment",
         "w=#c", "# x = 9", "   # note", "", "   \t ", "x = 7 # a # b = c", "Xx = 8", "long_name_of_a_parameter_123 = 0.125", "y x = 5", "<par_end>", "z = " + "v" * 200]
FEW = ["<a>", "<b>", "x = 1", "x=2# note", "y = 3", "z = p q # c", "w = # k", "# y = 8", "<par_end>", "x = 5 # other", ""]
CTX = {"bare": "", "a": "<a>\nx = 10 # ten\n", "ab": "<b>\ny = 20\nw = t\n<a>\nx = 10\n"}
FIXED = "<a>\nx = 10 # ten\ny = 2.5\nz = word\n<b>\nx = 11\nlongername = 3\n"
ARGS = ["a/x=3", "a/x=", "a/y=1e-3", "b/x=-7", "a/z=two words", "a/z=p=q", "a/z=d/e/f", "a/q=1", "c/x=1", "plain", "a/noequal", "-n", "a/x=x/y=z", "b/longername=0.000000000000000000001",
        "x=3", "/x=1"]
CALLS = [("s", "a", "z", "dflt"), ("s", "a", "new", "dflt"), ("s", "c", "new", "some text"), ("i", "a", "x", "77"), ("i", "b", "n", "-77"), ("i", "c", "n", "2147483647"),
         ("d", "a", "y", "0.1"), ("d", "b", "d", "0.1"), ("d", "b", "x", "9"), ("d", "c", "new", "-1.25e-300"), ("1", "a", "x", "set", ""), ("1", "c", "x", "set", "com ment"),
         ("2", "a", "x", "-4", "cc"), ("2", "d", "i", "5", ""), ("3", "a", "y", "6.5", ""), ("3", "d", "e", "1e10", "c"), ("C", "1", "a/x=42"), ("C", "1", "c/new=43"),
         ("E", "c", "new"), ("1", "b", "longername", "a much longer value than before", "")]


def specs(tier):
    return {"p": dict(args="--with-gas=hydro", main=build.CSRC + "/parprog.c", always=True), "s": dict(args="--with-gas=hydro"), "m": dict(args="--with-gas=hydro", mpi=True)}


class Err(Exception):
    pass


class Model:
    """reference model of the parameter database"""
    def __init__(s):
        s.b = {}

    def block(s, n):
        return s.b.setdefault(n, {})

    def put(s, b, n, v, c):
        d = s.block(b)
        if n in d:
            d[n] = (v, c if c is not None else d[n][1])
        else:
            d[n] = (v, c)

    def open(s, text):
        cur = None
        for l in text.split("\n"):
            l = l.strip(" \t\n\r")
            if l == "" or l[0] == "#":
                continue
            if l.startswith("<par_end>"):
                break
            if l[0] == "<":
                if ">" not in l:
                    raise Err()
                cur = l[1:l.index(">")].strip()
                s.block(cur)
                continue
            if cur is None:
                raise Err()
            body, _, com = l.partition("#")
            if "=" not in body:
                raise Err()
            n, _, v = body.partition("=")
            s.put(cur, n.strip(), v.strip(), com.strip() or None)

    def cmdline(s, args):
        for a in args:
            if "/" not in a:
                continue
            b, _, r = a.partition("/")
            if "=" not in r:
                continue
            n, _, v = r.partition("=")
            if b not in s.b or n not in s.b[b]:
                raise Err()
            s.b[b][n] = (v, s.b[b][n][1])

    def get(s, b, n):
        if b not in s.b or n not in s.b[b]:
            raise Err()
        return s.b[b][n][0]


def atoi(v):
    m = re.match(r"[+-]?\d+", v.strip())
    return int(m[0]) if m else 0


def atof(v):
    m = re.match(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", v.strip())
    return float(m[0]) if m else 0.0


BL = ["a", "b", "a b", "job", "c", "d"]
NM = ["x", "y", "z", "w", "new", "n", "i", "e", "d", "q"]


def readout():
    o = [("E", b, n) for b in BL for n in NM]
    o += [("U", "0"), ("U", "1"), ("U", "2"), ("R",), ("U", "2")]
    return o


def batches(kind, tier):
    if kind == "files":
        for c in CTX:
            for n in (1, 2, 3):
                for w in itertools.product(LINES, repeat=n):
                    yield [("O", CTX[c] + "\n".join(w) + ("\n" if len(w[-1]) % 2 else ""))]
        for w in itertools.product(FEW, repeat=4 if tier == "quick" else 5):
            yield [("O", "\n".join(w) + "\n")]
    elif kind == "args":
        for n in (1, 2):
            for w in itertools.product(ARGS, repeat=n):
                yield [("O", FIXED), ("C", str(n)) + w]
    else:
        for n in (1, 2, 3):
            for w in itertools.product(CALLS, repeat=n):
                yield [("O", FIXED)] + list(w)


NB = 1500


def cases(tier):
    for k in ("files", "args", "calls"):
        n = sum(1 for _ in batches(k, tier))
        for i in range(0, n, NB):
            yield dict(kind=k, lo=i, hi=min(n, i + NB), cfg="p")
    for w in itertools.product(LINES, repeat=2):
        if w[0].startswith("<") and not w[0].startswith("<par_end"):
            yield dict(kind="prog", cfg="s", lines=list(w), args=[])
    for w in ARGS:
        yield dict(kind="prog", cfg="s", lines=FIXED.split("\n"), args=[w])
    for np in (2, 4):
        for w in LINES + ARGS:
            if w.startswith("<par_end"):
                continue
            a = w in ARGS
            yield dict(kind="mpi", cfg="m", np=np, lines=FIXED.split("\n") + ([] if a else [w]), args=[w] if a else [])


def pack(script):
    b = b""
    for op in script:
        for x in op:
            x = x.encode()
            b += struct.pack("i", len(x)) + x
    return struct.pack("i", len(script)) + b


def dump_items(text, mode):
    """independent reader of dumps: {block: {name: (value, comment)}}"""
    if mode == "1":
        out = {}
        blk = None
        for l in text.split("\n"):
            m = re.match(r"^(.*)::$", l)
            if m:
                blk = m[1]
                out.setdefault(blk, {})
            elif blk is not None and l.startswith(" " + blk + "/"):
                n, _, v = l[len(blk) + 2:].partition(" = ")
                out[blk][n] = (v, None)
        return out
    M = Model()
    M.open(text)
    return M.b


def expect(M, op):
    """-> expected result of one call on the model (raises Err)"""
    k = op[0]
    if k == "O":
        M.open(op[1])
    elif k == "C":
        M.cmdline(op[2:])
    elif k == "E":
        return int(op[1] in M.b and op[2] in M.b[op[1]])
    elif k == "s":
        if op[1] in M.b and op[2] in M.b[op[1]]:
            return M.b[op[1]][op[2]][0]
        M.put(op[1], op[2], op[3], "Default Value")
        return op[3]
    elif k in "id":
        f = atoi if k == "i" else atof
        if op[1] in M.b and op[2] in M.b[op[1]]:
            return f(M.b[op[1]][op[2]][0])
        M.put(op[1], op[2], ("%d" % int(op[3])) if k == "i" else "%.15e" % float(op[3]), "Default Value")
        return f(op[3])
    elif k in "123":
        v = op[3] if k == "1" else ("%d" % int(op[3])) if k == "2" else "%.8e" % float(op[3])
        M.put(op[1], op[2], v, op[4] or None)
    elif k in "SID":
        return {"S": str, "I": atoi, "D": atof}[k](M.get(op[1], op[2]))
    elif k == "U":
        return {b: {n: (v if op[1] == "1" else v, None if op[1] == "1" else c) for n, (v, c) in d.items()} for b, d in M.b.items()}


def parse_out(raw):
    """split the output into per-script lists of results"""
    out, cur, i = [], [], 0
    while i < len(raw):
        j = raw.index(b"\n", i)
        l = raw[i:j]
        if l == b"":
            i = j + 1
            continue
        if l.startswith(b"=END "):
            out.append((cur, int(l[5:])))
            cur, i = [], j + 1
            continue
        m = re.match(rb"([SU]) (\d+) ", raw[i:i + 24])
        if m:
            n = int(m[2])
            s = i + m.end()
            cur.append((m[1].decode(), raw[s:s + n].decode("latin-1")))
            i = s + n + 1
        else:
            cur.append(tuple(l.decode("latin-1").split(" ")))
            i = j + 1
    return out


def same(d, b, num=False):
    """compare dumped items with the model; numbers written by the program are compared as numbers"""
    if set(d) - {"configure"} != set(b) - {"configure"}:
        return "blocks %s instead of %s" % (sorted(d), sorted(b))
    for k in b:
        if k == "configure":
            continue
        if set(d[k]) != set(b[k]):
            return "block %s has %s instead of %s" % (k, sorted(d[k]), sorted(b[k]))
        for n in b[k]:
            if d[k][n][0] != b[k][n][0]:
                try:
                    if abs(float(d[k][n][0]) - float(b[k][n][0])) <= 1e-14 * abs(float(b[k][n][0])):
                        continue
                except ValueError:
                    pass
                return "%s/%s is %r instead of %r" % (k, n, d[k][n][0], b[k][n][0])
            if (d[k][n][1] or None) != b[k][n][1] and d[k][n][1] != "Default Value":
                return "comment of %s/%s is %r instead of %r" % (k, n, d[k][n][1], b[k][n][1])
    return None


def run(case, ctx):
    if case["kind"] in ("prog", "mpi"):
        return prog(case, ctx)
    scripts = [s for s in itertools.islice(batches(case["kind"], ctx.tier), case["lo"], case["hi"])]
    plans = []
    for s in scripts:
        M, plan, ok = Model(), [], True
        try:
            for op in s:
                plan.append((op, expect(M, op)))
            full = list(s) + [(k, b, n) for b in M.b for n in M.b[b] for k in "SID"] + readout()
            for op in full[len(s):]:
                plan.append((op, expect(M, op)))
        except Err:
            ok, full = False, s
        plans.append((full, plan, ok, M))
        ctx.state(repr(sorted((k, sorted(v.items(), key=str)) for k, v in M.b.items())))
        ctx.step(len(full))
    with ctx.case() as c:
        with open(c.path("script"), "wb") as f:
            f.write(struct.pack("i", len(plans)))
            for full, *_ in plans:
                p = pack(full)
                f.write(struct.pack("i", len(p)) + p)
        p = subprocess.run([ctx.exes["p"], c.path("script"), c.path("t")], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=c.dir, timeout=120)
        if p.returncode:
            return ctx.fail("driver", "driver ended with %d" % p.returncode)
        res = parse_out(p.stdout)
    if len(res) != len(plans):
        return ctx.fail("driver", "%d answers for %d scripts" % (len(res), len(plans)))
    for (full, plan, ok, M), (got, st) in zip(plans, res):
        ctx.trace()
        w = [x for x in full if x[0] not in "EUSIDR" or x in full[:4]][:5]
        if ok != (st == 0):
            ctx.fail("status", "%r: ended with status %d, expected %s" % (w, st, "success" if ok else "an error stop"))
            return
        if st < 0:
            ctx.fail("crash", "%r: killed by signal %d" % (w, -st))
            return
        if not ok:
            continue
        # scripts read everything back after the judged calls
        if len(got) != len(plan):
            return ctx.fail("driver", "%r: %d results for %d calls" % (w, len(got), len(plan)))
        for (op, exp), g in zip(plan, got):
            bad = None
            if op[0] == "C" and len(g) > 1:
                bad = "command line arguments were left changed"
            elif op[0] == "E":
                bad = None if int(g[1]) == exp else "exists(%s/%s) gave %s" % (op[1], op[2], g[1])
            elif op[0] in "Ss":
                bad = None if g[1] == exp else "%s/%s is %r instead of %r" % (op[1], op[2], g[1], exp)
            elif op[0] in "Ii":
                bad = None if int(g[1]) == exp else "%s/%s as integer is %s instead of %d" % (op[1], op[2], g[1], exp)
            elif op[0] in "Dd":
                bad = None if abs(float(g[1]) - exp) <= 2e-15 * abs(exp) else "%s/%s as number is %s instead of %r" % (op[1], op[2], g[1], exp)
            elif op[0] == "U":
                try:
                    bad = same(dump_items(g[1], op[1]), exp)
                except Err:
                    bad = "dump %s cannot be read back" % op[1]
                if bad:
                    bad = "dump form %s: %s" % (op[1], bad)
            if bad:
                ctx.fail("value", "%r: %s" % (w, bad))
                return


def prog(case, ctx):
    text = "\n".join(case["lines"]) + "\n"
    if not any(l.strip().startswith("<job>") for l in case["lines"]) or case["kind"] == "mpi":
        text = "<job>\nproblem_id = vp\nu = # none\n" + text
    M, ok = Model(), True
    try:
        M.open(text)
        M.cmdline(case["args"])
    except Err:
        ok = False
    with ctx.case() as c:
        if case["kind"] == "prog":
            rc, out = sim.run_serial(ctx.exes["s"], c.dir, text, args=["-n"] + case["args"])
            outs = [out.decode("latin-1")]
        else:
            if not ok:
                return
            r = sim.run_mpi(ctx.sched, ctx.exes["m"], case["np"], c.dir, text, args=["-n"] + case["args"])
            rc = r.rc
            outs = [open(c.path("out.%d" % k), "rb").read().decode("latin-1") for k in range(case["np"])]
        ctx.trace()
        ctx.step()
        ctx.state(text)
        if ok != (rc == 0):
            return ctx.fail("status", "%r %r: ended with status %d, expected %s" % (text, case["args"], rc, "success" if ok else "an error stop"))
        if not ok:
            return
        for k, o in enumerate(outs):
            i = o.find("PAR_DUMP")
            if i < 0:
                return ctx.fail("dump", "no parameter dump on process %d" % k)
            try:
                d = dump_items(o, "0")
            except Err:
                return ctx.fail("dump", "dump on process %d cannot be read back" % k)
            B = {x: dict(y) for x, y in M.b.items()}
            if k and "problem_id" in B.get("job", {}):
                B["job"]["problem_id"] = ("vp-id%d" % k, B["job"]["problem_id"][1])
            for q in d.values():
                for n in q:
                    q[n] = (q[n][0].rstrip(), q[n][1])
            bad = same(d, {x: {n: (v.rstrip(), cm) for n, (v, cm) in y.items()} for x, y in B.items()})
            if bad:
                return ctx.fail("value", "-n dump of process %d for %r %r: %s" % (k, text, case["args"], bad))
