"""L01: lock discipline.  A flow- and context-sensitive lockset analysis from every thread root (functions given to
pthread_create), from the server's main function and from every function whose address is taken (RPC handlers and callbacks).
Every lock taken is released on every path, not taken twice, taken in one order; and data that two threads reach while both
exist is accessed by both under a common lock unless neither writes it."""
import ir
from ir import operands
from esp import ESP
from report import Check
from frontend import AnalysisBroken

PID = "L01"
LOCK = ("pthread_mutex_lock", "hg_thread_mutex_lock")
UNLOCK = ("pthread_mutex_unlock", "hg_thread_mutex_unlock")
TRY = ("pthread_mutex_trylock", "hg_thread_mutex_try_lock")
WAIT = ("pthread_cond_wait", "pthread_cond_timedwait", "hg_thread_cond_wait")
WAKE = ("pthread_cond_signal", "pthread_cond_broadcast", "hg_thread_cond_signal", "hg_thread_cond_broadcast")
SPAWN = {"pthread_create": 2, "hg_thread_create": 1}
JOIN = ("pthread_join", "hg_thread_join")
CLOSED = "close_server_g"           # the request loop is left only when this is set
SYNCHRONOUS = ("qsort", "bsearch")  # call their function argument before they return
NOWRITE = ("strlen", "strcmp", "strncmp", "printf", "fprintf", "write", "pwrite", "fwrite", "puts", "getenv", "memcmp", "access",
           "open", "strdup", "atoi", "atol", "close", "free", "usleep", "sleep", "pthread_join", "mkdir", "stat")
SHARED_DATA = (("server", "obj_cache_list"), ("server", "dataserver_region_g"))


def base(n):
    return n.split("#")[0]


def pointee(t):
    if t and t.endswith("*") and t.startswith("struct ") and not t.endswith("**"):
        return t[7:-1]
    return None


ALIVE = ("f", "thpool_", 8)         # a pool is taken down when this has become 0


class Unit:
    """types, lock names and shared accesses of one configuration"""

    def __init__(self, config, only=None):
        self.P = ir.program(config, only=only) if only else ir.program(config)
        self.config = config
        self._ty = {}
        self.spawned = {}
        self.taken = set()
        for f in self.P.fns.values():
            for x in f.instrs():
                for k, r in enumerate(operands(x)):
                    if isinstance(r, list) and r and r[0] == "g" and r[1] in self.P.fns:
                        if x.op == "call" and x.callee in SPAWN and k == SPAWN[x.callee]:
                            self.spawned.setdefault(r[1], []).append(x)
                        elif not (x.op == "call" and (x.callee in SYNCHRONOUS or x.callee == r[1])):
                            self.taken.add(r[1])
        for g in self.P.globals.values():
            self._scan(g.get("init"))
        self.taken -= set(self.spawned)

    def _scan(self, v):
        if isinstance(v, list):
            if len(v) == 2 and v[0] == "g" and v[1] in self.P.fns:
                self.taken.add(v[1])
            else:
                for w in v:
                    self._scan(w)

    # ---- types
    def field_type(self, s, off):
        st = self.P.structs.get(s)
        for n, o, sz, t in (st or {}).get("m", []):
            if o == off * 8:
                return t
        return None

    def typeof(self, f, r, seen=()):
        """pointee struct of a pointer"""
        if isinstance(r, list):
            if r[0] == "a":
                return pointee(f.args[r[1]][1])
            if r[0] == "g" and r[1] in self.P.globals:
                t = self.P.globals[r[1]].get("ty", "")
                return t[7:] if t.startswith("struct ") and not t.endswith("*") else None
            return None
        k = (f.name, r)
        if k in self._ty:
            return self._ty[k]
        if r in seen:
            return None
        x = f.ins.get(r)
        t = None
        for d in f.vartypes(r):
            t = t or pointee(d)
        if x is not None and t is None:
            if x.op == "load":
                p = x.args[0]
                if isinstance(p, list) and p[0] == "g" and p[1] in self.P.globals:
                    t = pointee(self.P.globals[p[1]].get("ty", ""))
                else:
                    fl = self.field(f, p, seen + (r,))
                    if fl:
                        t = pointee(self.field_type(*fl))
            elif x.op == "phi":
                for q, _ in x.d["in_"]:
                    t = t or self.typeof(f, q, seen + (r,))
            elif x.op == "select":
                t = self.typeof(f, x.args[1], seen + (r,)) or self.typeof(f, x.args[2], seen + (r,))
            elif x.op in ("bitcast", "freeze"):
                t = self.typeof(f, x.args[0], seen + (r,))
        if not seen:
            self._ty[k] = t
        return t

    def field(self, f, r, seen=()):
        """(struct, byte offset) a pointer points at"""
        if isinstance(r, int):
            x = f.ins.get(r)
            if x is not None and x.op == "getelementptr":
                s = [e for e in x.d.get("p", []) if e[0] == "S"]
                if s:
                    return (s[0][1], s[0][3])
                if x.d.get("p") and x.d["p"][0][0] == "A" and str(x.d["p"][0][3]).startswith("S:"):
                    return (x.d["p"][0][3][2:], 0)
                return self.field(f, x.d["b"], seen)
        t = self.typeof(f, r, seen)
        return (t, 0) if t else None

    def root(self, f, r, seen=()):
        """where a pointer comes from: ('g', global) | ('f', struct, off) fields it was loaded from | 'fresh' | None, as a set"""
        if isinstance(r, list):
            return {("g", r[1])} if r[0] in ("g", "ge") else set()
        if r in seen:
            return set()
        x = f.ins.get(r)
        if x is None:
            return set()
        s = seen + (r,)
        if x.op == "getelementptr":
            return self.root(f, x.d["b"], s)
        if x.op in ("bitcast", "freeze"):
            return self.root(f, x.args[0], s)
        if x.op == "phi":
            return set().union(*[self.root(f, q, s) for q, _ in x.d["in_"]])
        if x.op == "select":
            return self.root(f, x.args[1], s) | self.root(f, x.args[2], s)
        if x.op == "call" and x.callee in ("malloc", "calloc", "strdup"):
            return {"fresh"}
        if x.op == "alloca":
            return {"local"}
        if x.op == "load":
            fl = None if isinstance(x.args[0], list) else self.field(f, x.args[0])
            up = self.root(f, x.args[0], s)
            return up | ({("f",) + fl} if fl else set())
        return set()

    def lock(self, f, r):
        if isinstance(r, list) and r[0] != "a":
            return ("g", r[1]) if r[0] == "g" else ("ge", r[1]) if r[0] == "ge" else None
        fl = self.field(f, r)
        if fl:
            return ("f",) + fl
        x = f.ins.get(r) if isinstance(r, int) else None
        if x is not None and x.op == "load" and isinstance(x.args[0], list):
            return ("lg", x.args[0][1])
        return None


def name(U, l):
    if l[0] in ("g", "ge", "lg"):
        return base(l[1])
    for n, o, sz, t in U.P.structs.get(l[1], {}).get("m", []):
        if o == l[2] * 8:
            return "%s.%s" % (l[1], n)
    return "%s+%d" % (l[1], l[2])


class Locks:
    """one analysis of a unit: entry(fn, held, phase, thread)"""

    def __init__(self, U, chk, owned=(), shared_globals=None):
        self.U = U; self.P = U.P; self.chk = chk
        self.owned = set(owned)
        self.memo = {}
        self.active = set()
        self.states = 0
        self.order = {}              # (held, acquired) -> loc
        self.acc = {}                # item -> {(thread, held, write, loc, fn)}
        self.bad = {}
        self.sites = set()
        self.joins = {}              # thread root -> held at the join
        self.closed_ok = True
        self._rel = {}
        self._rel_fns()

    def _rel_fns(self):
        direct, calls = set(), {}
        for n, f in self.P.fns.items():
            cs = set()
            for x in f.instrs():
                if x.op == "call":
                    c = x.callee
                    if c in LOCK + UNLOCK + TRY + WAIT + WAKE + JOIN or c in SPAWN or c in ("hg_atomic_set32", "hg_atomic_cas32", "hg_atomic_get32"):
                        direct.add(n)
                    if c in self.P.fns:
                        cs.add(c)
                    if c in SYNCHRONOUS:
                        cs |= {r[1] for r in x.args if isinstance(r, list) and r[0] == "g" and r[1] in self.P.fns}
                    if self.item(f, x):
                        direct.add(n)
                elif self.item(f, x):
                    direct.add(n)
            calls[n] = cs
        self.calls = calls
        rel = set(direct)
        ch = True
        while ch:
            ch = False
            for n, cs in calls.items():
                if n not in rel and cs & rel:
                    rel.add(n); ch = True
        self.rel = rel

    # ---- shared data
    def item(self, f, x):
        """[(item, write)] an instruction accesses"""
        k = (f.name, x.i)
        if k in self._rel:
            return self._rel[k]
        out = []
        if x.op in ("load", "store"):
            p = x.args[0] if x.op == "load" else x.args[1]
            out = [(i, x.op == "store") for i in self.what(f, p)]
        elif x.op == "call" and x.callee and not x.callee.startswith("llvm.dbg") and x.callee not in self.P.fns \
                and x.callee not in LOCK + UNLOCK + TRY + WAIT + WAKE + JOIN and x.callee not in SPAWN:
            cp = x.callee.startswith(("llvm.mem", "mem"))
            for n, r in enumerate(x.args):
                if isinstance(r, int) or isinstance(r, list) and r and r[0] in ("g", "ge"):
                    w = (n == 0) if cp else x.callee not in NOWRITE
                    if isinstance(r, int):
                        y = f.ins.get(r)
                        if y is None or y.d.get("ty") != "p":
                            continue
                        if y.op in ("load", "phi", "call") and not cp and not self.derived(f, r):
                            continue
                    out += [(i, w) for i in self.what(f, r, True)]
        self._rel[k] = out
        return out

    def derived(self, f, r):
        return any(isinstance(q, tuple) and q[0] == "f" and q[1] in self.owned for q in self.U.root(f, r))

    def what(self, f, p, mem=False):
        if isinstance(p, list):
            if p[0] in ("g", "ge") and p[1] in self.P.globals and not self.P.globals[p[1]].get("const") and not p[1].startswith(".str"):
                t = self.P.globals[p[1]].get("ty", "")
                if "init" not in self.P.globals[p[1]]:
                    return []
                if "mutex" in t or "cond_t" in t:
                    return []
                return [("g", p[1])]
            return []
        x = f.ins.get(p)
        if x is None:
            return []
        root = self.U.root(f, p)
        fl = self.U.field(f, p)
        if fl and fl[0] in self.owned:
            if root and root <= {"fresh", "local"}:
                return []
            return [("f",) + fl]
        out = []
        for q in root:
            if isinstance(q, tuple) and q[0] == "f" and q[1] in self.owned:
                t = pointee(self.U.field_type(q[1], q[2]))
                if t not in self.owned:
                    out.append(("via",) + q[1:])
        if not out and x.op == "getelementptr":
            for q in root:
                if isinstance(q, tuple) and q[0] == "g" and q[1] in self.P.globals and isinstance(x.d["b"], list):
                    return self.what(f, ["g", q[1]])
        return out

    # ---- a pointer found under a lock is not used after the lock was given back
    def stale(self, f):
        un = [x for x in f.instrs() if x.op == "call" and x.callee in UNLOCK]
        if not un:
            return []
        unpos = {(x.b, x.pos) for x in un}

        def between(d, at):
            """a path from just after d to at that passes a release and not d"""
            st, seen = [(d.b, d.pos + 1, False)], set()
            while st:
                b, k, u = st.pop()
                bl = f.blocks[b]
                stop = False
                for j in range(k, len(bl)):
                    if (b, j) == (at.b, at.pos):
                        if u:
                            return True
                        stop = True; break
                    if (b, j) == (d.b, d.pos):
                        stop = True; break
                    if (b, j) in unpos:
                        u = True
                if stop:
                    continue
                for t in f.succs(b):
                    if (t, u) not in seen:
                        seen.add((t, u)); st.append((t, 0, u))
            return False

        def old(v, at, seen):
            y = f.ins.get(v) if isinstance(v, int) else None
            if y is None or (v, at.i) in seen:
                return None
            seen = seen | {(v, at.i)}
            if y.op in ("getelementptr", "bitcast", "freeze"):
                return old(y.d["b"] if y.op == "getelementptr" else y.args[0], at, seen)
            if y.op == "phi":
                shared = any(isinstance(q, tuple) and (q[0] == "f" and q[1] in self.owned or q[0] == "g") for q in self.U.root(f, v))
                if shared and between(y, at):
                    return y
                for q, p in y.d["in_"]:
                    r = old(q, f.blocks[p][-1], seen)
                    if r is not None:
                        return r
                return None
            if y.op == "load" and y.d.get("ty") == "p" and self.item(f, y):
                return y if between(y, at) else None
            return None
        out = []
        for x in f.instrs():
            if x.op in ("load", "store") and self.item(f, x):
                p = x.args[0] if x.op == "load" else x.args[1]
                r = old(p, x, frozenset())
                if r is not None:
                    out.append((x, r))
        return out

    def flag(self, f, x, kind, text):
        self.bad.setdefault((f.name, kind, text), x.loc())

    # ---- analysis
    def run(self, fn, held=(), phase=1, thread="main"):
        key = (fn, held, phase, thread)
        if key in self.memo:
            return self.memo[key]
        if fn not in self.rel:
            self.memo[key] = {(held, phase)}
            return self.memo[key]
        if key in self.active:
            return {(held, phase)}
        self.active.add(key)
        f = self.P.fns[fn]
        out = set()
        U = self.U

        def transfer(x, us, ev):
            held, ph = us
            for it, w in self.item(f, x):
                if ph == 1:
                    poll = x.op == "load" and x.d.get("ty", "").startswith("i") or \
                        x.op == "store" and it[0] == "g" and isinstance(x.args[0], list) and x.args[0][0] == "c"
                    self.acc.setdefault(it, set()).add((thread, held, w, x.loc(), fn, poll))
                if it == ALIVE and x.op == "load" and thread == "main" and ph == 1:
                    return [((held, 2), ("i", 0)), ((held, 1), ("ne", frozenset([0])))]
                self.sites.add((it, x.loc()))
            if x.op != "call":
                return None
            c = x.callee
            if c in LOCK or c in TRY:
                l = U.lock(f, x.args[0])
                if l is None:
                    self.flag(f, x, "unknown", "a lock that cannot be named is taken")
                    return None
                self.sites.add(("lock", x.loc()))
                if c in LOCK and l in held:
                    self.flag(f, x, "twice", "%s is taken while it is already held" % name(U, l))
                    return [((held, ph), ("i", 0))]
                for h in held:
                    self.order.setdefault((h, l), (x.loc(), fn))
                new = tuple(sorted(held + (l,)))
                return [((new, ph), ("i", 0))] + ([((held, ph), ("ne", frozenset([0])))] if c in TRY else [])
            if c in UNLOCK:
                l = U.lock(f, x.args[0])
                self.sites.add(("unlock", x.loc()))
                if l not in held:
                    self.flag(f, x, "free", "%s is released without being held" % (name(U, l) if l else "a lock"))
                    return [((held, ph), ("i", 0))]
                return [((tuple(h for h in held if h != l), ph), ("i", 0))]
            if c in WAIT:
                l = U.lock(f, x.args[1])
                if l not in held:
                    self.flag(f, x, "wait", "a condition is waited for without holding its lock")
                elif len(held) > 1:
                    self.flag(f, x, "waitmany", "a condition is waited for while %s stays held" % ", ".join(name(U, h) for h in held if h != l))
                return None
            if c in SPAWN:
                return [((held, 1), ("i", 0))]
            if c in JOIN:
                if thread == "main":
                    self.joins.setdefault(held, (x.loc(), fn))
                return [((held, 2), ("i", 0))]
            if c in ("hg_atomic_cas32", "hg_atomic_get32") and x.args and x.args[0] == ["g", CLOSED] and thread == "main" and ph == 1:
                return [((held, 1), ("i", 0)), ((held, 2), ("ne", frozenset([0])))]
            if c == "hg_atomic_set32" and x.args and x.args[0] == ["g", CLOSED] and x.args[1] != ["c", 0, 32]:
                self.sites.add(("close", x.loc()))
                if ph == 1:
                    self.flag(f, x, "close", "the request loop is told to end while the flush thread still runs")
                return None
            cs = [c] if c in self.P.fns else []
            if c in SYNCHRONOUS:
                cs = [r[1] for r in x.args if isinstance(r, list) and r[0] == "g" and r[1] in self.P.fns]
            st = {us}
            for g in cs:
                st = set().union(*[self.run(g, h, p, thread) for h, p in st])
            if not cs or st == {us}:
                return None
            return [(u, None) for u in sorted(st)]

        def at_ret(x, us, ev):
            out.add(us)
        own = any(x.op == "call" and (x.callee in LOCK + UNLOCK + TRY or x.callee and x.callee.startswith("hg_atomic")) for x in f.instrs())
        e = ESP(f, [(held, phase)], transfer, at_ret, limit=400000, only=None if own else set()).run()
        self.states += e.states
        self.active.discard(key)
        self.memo[key] = out
        for h, p in out:
            if h != held:
                more = [l for l in h if l not in held]
                less = [l for l in held if l not in h]
                for l in more:
                    self.bad.setdefault((fn, "leak", "%s is still held when the function returns on some path" % name(U, l)), f.where())
                for l in less:
                    self.bad.setdefault((fn, "drop", "%s, held by the caller, is released on some path" % name(U, l)), f.where())
        # report here once, go on as if it were balanced
        self.memo[key] = {(held, p) for h, p in out}
        return self.memo[key]


def cycle(A, U):
    g = {}
    for (a, b), w in A.order.items():
        g.setdefault(a, []).append((b, w))
    out = []
    for a in g:
        st, seen = [(a, [])], set()
        while st:
            n, path = st.pop()
            for m, w in g.get(n, []):
                if m == a:
                    out.append((a, path + [(m, w)]))
                elif m not in seen:
                    seen.add(m); st.append((m, path + [(m, w)]))
    return out


def shared(chk, U, A, config):
    many = config == "commons"          # a pool has many threads of the same kind
    n = 0
    for it in sorted(A.acc, key=str):
        acc = {a for a in A.acc[it] if not (many and a[5])}
        th = sorted({a[0] for a in acc})
        if len(th) < 2 and not many or not any(a[2] for a in acc) or not any(a[0] != "main" for a in acc):
            continue
        n += 1
        T = [a for a in acc if a[0] != "main"]
        pairs = [(t, m) for t in T for m in acc if (m[0] != t[0] or many) and (t[2] or m[2]) and not set(t[1]) & set(m[1])]
        lab = name(U, it if it[0] != "via" else ("f",) + it[1:]) + (" (what it leads to)" if it[0] == "via" else "")
        wrong = {}
        for t, m in pairs:
            a = m if len(m[1]) <= len(t[1]) else t      # blame the side that holds less
            b = t if a is m else m
            wrong.setdefault(a[4], (a, b))
        for fn in sorted({a[4] for a in acc}):
            w = wrong.get(fn)
            if w:
                a, b = w
                chk.oblige(False, "shared:%s:%s" % (lab, fn), "%s: %s %s %s holding %s, while %s may %s it at %s holding %s" %
                           (a[3], fn, "writes" if a[2] else "reads", lab, ", ".join(name(U, l) for l in a[1]) or "no lock",
                            "the request thread" if b[0] == "main" else "thread " + b[0], "write" if b[2] else "read", b[3],
                            ", ".join(name(U, l) for l in b[1]) or "no lock"))
            else:
                a = [x for x in acc if x[4] == fn][0]
                chk.oblige(True, "shared:%s:%s" % (lab, fn), "", "%s: %s is accessed in %s under %s" %
                           (a[3], lab, fn, ", ".join(name(U, l) for l in a[1]) or "no lock, read only"))
    chk.count("data shared by threads (%s)" % config, n); chk.floor("data shared by threads (%s)" % config, 6)
    k = 0
    for fn in sorted({key[0] for key in A.memo if key[0] in A.rel}):
        f = U.P.fns[fn]
        if not any(x.op == "call" and x.callee in UNLOCK for x in f.instrs()):
            continue
        k += 1
        old = A.stale(f)
        chk.oblige(not old, "stale:%s:%s" % (config, fn), "; ".join("%s: %s follows a pointer it found at %s, before it gave the lock back" %
                   (x.loc(), fn, r.loc()) for x, r in old[:3]), "%s: %s uses no pointer found before it gave the lock back" % (f.where(), fn))
    chk.count("functions that give a lock back (%s)" % config, k)


def run():
    chk = Check(PID, "every lock taken is released on every path, taken once and in one order; data two threads share is accessed under a common lock")
    nlocks = 0
    states = 0
    for config in ("server", "client", "commons"):
        U = Unit(config)
        owned = ()
        if config == "server":
            owned = ("pdc_obj_cache", "pdc_region_cache", "data_server_region_t")
            for s in owned:
                if s not in U.P.structs:
                    raise AnalysisBroken("struct %s is gone" % s)
            for _, g in SHARED_DATA:
                if not any(base(n) == g for n in U.P.globals):
                    raise AnalysisBroken("global %s is gone" % g)
        if config == "commons":
            owned = ("thpool_", "jobqueue", "job", "bsem")
            m = [e for e in U.P.structs.get("thpool_", {}).get("m", []) if e[0] == "num_threads_alive"]
            if not m or any(s not in U.P.structs for s in owned):
                raise AnalysisBroken("the structures of the thread pool are gone")
            global ALIVE
            ALIVE = ("f", "thpool_", m[0][1] // 8)
        A = Locks(U, chk, owned)
        if config == "server":
            if "server_run" not in U.P.fns:
                raise AnalysisBroken("server_run is gone")
            roots = sorted(U.spawned)
            chk.count("threads of the server", len(roots)); chk.floor("threads of the server", 1)
            A.run("server_run", (), 0, "main")
            for n in sorted(U.taken):
                A.run(n, (), 1, "main")
            for r in roots:
                A.run(r, (), 1, r)
        elif config == "commons":
            chk.count("threads of a pool", len(U.spawned)); chk.floor("threads of a pool", 1)
            for n in ("thpool_init", "thpool_add_work", "thpool_wait", "thpool_destroy", "thpool_pause", "thpool_resume"):
                if n not in U.P.fns:
                    raise AnalysisBroken(n + " is gone")
                A.run(n, (), 0 if n == "thpool_init" else 1, "main")
        if config != "server":
            for n in sorted(U.spawned):
                A.run(n, (), 1, n)
        for n in sorted(A.rel):
            f = U.P.fns[n]
            if any(x.op == "call" and x.callee in LOCK + UNLOCK + WAIT + TRY for x in f.instrs()) and not any(k[0] == n for k in A.memo):
                A.run(n, (), 0, "main")
        # 1. every function keeps its locks
        bad = {}
        for (fn, kind, text), loc in sorted(A.bad.items()):
            bad.setdefault(fn, []).append((kind, text, loc))
        for n in sorted(A.rel):
            f = U.P.fns[n]
            own = [x for x in f.instrs() if x.op == "call" and x.callee in LOCK + UNLOCK + WAIT + TRY + JOIN or
                   x.op == "call" and x.callee == "hg_atomic_set32"]
            if not own and n not in bad:
                continue
            nlocks += len(own)
            b = bad.get(n)
            chk.oblige(not b, "locks:%s:%s" % (config, n), "%s: %s: %s" % (b[0][2] if b else f.where(), n,
                       "; ".join("%s (%s)" % (t, l) for k, t, l in b or [])), "%s: every lock taken in %s is released on every path" % (f.where(), n))
        # 2. one order
        cy = cycle(A, U)
        for (a, b), (loc, fn) in sorted(A.order.items(), key=str):
            c = [p for q, p in cy if q == a and any(m == b for m, _ in p)]
            chk.oblige(not c, "order:%s:%s>%s" % (config, name(U, a), name(U, b)), loc +
                       ": %s is taken while %s is held%s" % (name(U, b), name(U, a),
                       "; elsewhere in the other order: " + ", ".join("%s at %s" % (name(U, m), w[0]) for m, w in c[0]) if c else ""),
                       "%s: %s is taken while %s is held, never the other way" % (loc, name(U, b), name(U, a)))
        # 3. nobody waits for a thread that waits for him
        for held, (loc, fn) in sorted(A.joins.items()):
            need = {b for (_, b) in A.order} | {l for _, hs in [(0, k[1]) for k in A.memo if k[3] in U.spawned] for l in hs}
            cl = [l for l in held if l in need]
            chk.oblige(not cl, "join:%s:%s" % (config, fn), "%s: a thread is joined while %s is held" % (loc, ", ".join(name(U, l) for l in cl)),
                       "%s: no lock the thread needs is held when it is joined" % loc)
        # 4. shared data
        if owned:
            shared(chk, U, A, config)
        if config == "server":
            chk.count("places where the request loop is ended", len([s for s in A.sites if s[0] == "close"]))
            chk.floor("places where the request loop is ended", 1)
        states += A.states
        chk.count("functions analysed (%s)" % config, len({k[0] for k in A.memo}))
        chk.count("lock orders (%s)" % config, len(A.order))
    chk.count("states", states)
    chk.count("lock operations", nlocks); chk.floor("lock operations", 30)
    return chk.finish("lockset analysis of all threads of the server; lock balance and order in every configuration")
