"""Builds Athena configurations from /repo's current working tree.

A Tree is a private snapshot of /repo's sources, made once per check run.  A configuration is produced by running
the repository's own configure.ac (autoconf + ./configure) in a scratch directory, taking the object list from the
generated src/Makefile, and compiling every object with the check's flags.  Objects are shared between
configurations whose preprocessed text is identical (and, through a git-ignored cache, between runs).
"""
import atexit, concurrent.futures as cf, hashlib, os, re, shlex, shutil, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CSRC = VERIF + "/csrc"
CACHE = os.environ.get("VP_CACHE", VERIF + "/.cache/obj")
NCPU = os.cpu_count() or 4
_pool = cf.ThreadPoolExecutor(NCPU + 2)
_locks, _lk = {}, threading.Lock()
CCVER = subprocess.run(["gcc", "--version"], capture_output=True, text=True).stdout.splitlines()[0]


class BuildError(Exception):
    pass


def _lock(key):
    with _lk:
        return _locks.setdefault(key, threading.Lock())


def run(cmd, cwd=None, check=True, **kw):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, stdin=subprocess.DEVNULL, **kw)
    if check and p.returncode:
        raise BuildError("%s (in %s): exit %d\n%s%s" % (" ".join(cmd), cwd, p.returncode, p.stdout[-3000:],
                                                         p.stderr[-3000:]))
    return p


def scratch():
    base = VERIF + "/.work"
    os.makedirs(base, exist_ok=True)
    d = tempfile.mkdtemp(prefix="run-", dir=base)
    pid = os.getpid()
    def rm():
        if os.getpid() == pid and not os.environ.get("VP_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
    atexit.register(rm)
    return d


def compile_c(src, out, flags, cwd=None):
    """src -> out (object), via the cache.  flags: list."""
    pp = run(["gcc", "-E", "-P", "-w"] + [f for f in flags if not f.startswith("-O")] + [src], cwd=cwd).stdout
    h = hashlib.sha256((CCVER + "\0" + " ".join(f for f in flags if not f.startswith(("-I", "-D"))) + "\0" + pp
                        ).encode("utf-8", "surrogateescape")).hexdigest()
    d = CACHE + "/" + h[:2]
    c = d + "/" + h + ".o"
    with _lock(h):
        if not os.path.exists(c):
            os.makedirs(d, exist_ok=True)
            tmp = "%s.%d.tmp" % (c, os.getpid())
            p = subprocess.run(["gcc", "-x", "cpp-output", "-w"] + [f for f in flags if not f.startswith(("-I", "-D"))]
                               + ["-c", "-", "-o", tmp], input=pp, capture_output=True, text=True,
                               encoding="utf-8", errors="surrogateescape")
            if p.returncode:
                raise BuildError("compile %s: %s" % (src, p.stderr[-3000:]))
            os.replace(tmp, c)
    if out:
        try:
            os.link(c, out)
        except FileExistsError:
            os.remove(out); os.link(c, out)
        except OSError:
            shutil.copy(c, out)
    return c


class Tree:
    def __init__(self, repo=None, opt=("-O1",)):
        self.repo = repo or REPO
        self.dir = scratch()
        self.opt = list(opt)
        self.src = self.dir + "/src0"
        ex = ["*.o", "*.a", "Makedepend", "Makefile", "/defs.h", "/config.h", "/problem.c"]
        os.makedirs(self.src)
        run(["rsync", "-rlpt"] + ["--exclude=" + e for e in ex] + [self.repo + "/src/", self.src + "/"])
        shutil.copy(CSRC + "/vp.c", self.src + "/prob/vp.c")
        ac = self.dir + "/ac"
        os.makedirs(ac)
        shutil.copy(self.repo + "/configure.ac", ac)
        run(["autoconf"], ac)
        self.configure = ac + "/configure"
        self.cfgs = {}

    def config(self, args, prob="vp", mpi=False, extra=(), defs=(), opt=None, main=None, exclude=()):
        """Build configuration; returns path of executable.
        prob: name of problem in src/prob, or 'vp'.  mpi: link against the model-checking MPI.
        extra: extra C files (absolute) linked in.  defs: extra -D flags for every file.
        main: C file that supplies main() (athena's own main is renamed athena_main).  """
        key = (args, prob, mpi, tuple(extra), tuple(defs), tuple(opt or self.opt), main)
        with _lock(("cfg",) + key):
            if key in self.cfgs:
                return self.cfgs[key]
            exe = self._config(args, prob, mpi, extra, defs, list(opt or self.opt), main)
            self.cfgs[key] = exe
            return exe

    def _config(self, args, prob, mpi, extra, defs, opt, main):
        cargs = args + (" --enable-mpi" if mpi else "")
        ckey = hashlib.sha256((cargs + "|" + prob).encode()).hexdigest()[:12]
        d = self.dir + "/cfg-" + ckey
        with _lock(d):
            if not os.path.exists(d + "/objs"):
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                run(["cp", "-rs", self.src, d + "/src"])
                for f in ("Makefile.in", "Makeoptions.in", "install-sh"):
                    shutil.copy(self.repo + "/" + f, d)
                shutil.copy(self.configure, d)
                run(["sh", "./configure", "--with-problem=" + prob] + shlex.split(cargs), d)
                open(d + "/src/Makedepend", "w").close()
                with open(d + "/src/vpprint.mk", "w") as f:
                    f.write("include Makefile\nvpprint:\n\t@echo VPOBJ $(ALL_OBJ)\n")
                o = run(["make", "-f", "vpprint.mk", "MACHINE=macosx", "vpprint"], d + "/src").stdout
                objs = re.search(r"^VPOBJ (.*)$", o, re.M)[1].split()
                with open(d + "/objs", "w") as f:
                    f.write("\n".join(objs))
        objs = open(d + "/objs").read().split()
        tag = hashlib.sha256(repr((extra, defs, opt, main)).encode()).hexdigest()[:8]
        od = d + "/o-" + tag
        os.makedirs(od, exist_ok=True)
        flags = opt + ["-fcommon", "-I" + d + "/src"] + list(defs)
        if mpi:
            flags += ["-I" + CSRC + "/mmpi"]
        fft = "--enable-fft" in args
        if fft:
            flags += ["-I" + d + "/src/fftsrc"]
        jobs = []
        for o in objs:
            s = d + "/src/" + o[:-2] + ".c"
            fl = list(flags)
            if main and o == "main.o":
                fl.append("-Dmain=athena_main")
            jobs.append((s, od + "/" + o.replace("/", "_"), fl))
        ex = list(extra)
        if mpi:
            ex.append(CSRC + "/mmpi/mmpi.c")
        if main:
            ex.append(main)
        for x in ex:
            jobs.append((x, od + "/x_" + os.path.basename(x)[:-2] + ".o", flags + ["-I" + CSRC]))
        list(_pool_map(lambda j: compile_c(*j), jobs))
        exe = od + "/athena"
        run(["gcc", "-fcommon"] + [f for f in opt if f.startswith("-fsanitize")] + ["-o", exe] + [j[1] for j in jobs]
            + (["-lfftw3"] if fft else []) + ["-ldl", "-lm"])
        return exe

    def build_all(self, specs):
        """specs: {name: dict(args=..., ...)} -> {name: exe}; all in parallel."""
        with cf.ThreadPoolExecutor(NCPU) as p:
            fs = {n: p.submit(self.config, **s) for n, s in specs.items()}
            return {n: f.result() for n, f in fs.items()}


def _pool_map(fn, jobs):
    fs = [_pool.submit(fn, j) for j in jobs]
    for f in fs:
        yield f.result()


def prune_cache(limit=1500 << 20):
    tot, fs = 0, []
    for r, _, ns in os.walk(CACHE):
        for n in ns:
            try:
                st = os.stat(r + "/" + n)
            except OSError:
                continue
            tot += st.st_size
            fs.append((st.st_mtime, st.st_size, r + "/" + n))
    fs.sort()
    for m, s, p in fs:
        if tot <= limit:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        tot -= s
