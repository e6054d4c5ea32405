"""Y01: the thread pool runs every job exactly once and waits for all of them.  Thread-modular (rely/guarantee) abstract
interpretation of each operation and of a worker: at every acquisition of a lock the state that lock protects is replaced by any
state the invariant allows (other threads may have done anything in between), at every release the change made is compared with
the changes the pool's protocol allows.  L01 decides that the data is only touched under those locks."""
import ir
from report import Check
from absint import Interp, Path, reg
from sym import Poly
from copies import Layout
from frontend import AnalysisBroken

PID = "Y01"
FILE = "src/commons/utils/thpool.c"
C = Poly.c
NTH = 2


class World(Interp):
    """one thread of the pool and an environment of others"""

    def __init__(self, P, havoc=True):
        Interp.__init__(self, P, ext=self.sync, no_summary=True, max_paths=40000)
        self.L = Layout(P)
        self.havoc = havoc
        f = self.L.fields
        tp, jq, bs, jb = f("thpool_"), f("jobqueue"), f("bsem"), f("job")
        self.q0 = tp["jobqueue"][0]
        for n in ("threads_keepalive",):
            if n not in tp:
                self.keep = None
            else:
                self.keep = tp[n][0]
        self.of = {k: v[0] for k, v in tp.items()}
        self.oq = {k: v[0] + self.q0 for k, v in jq.items()}
        self.ob = {k: v[0] for k, v in bs.items()}
        self.oj = {k: v[0] for k, v in jb.items()}
        self.tp = ("reg", "TP"); self.bs = ("reg", "BS")
        self.maxjobs = 3
        self.polls = None
        self.cuts = 0

    # ---- state kept with a path
    def st(self, path):
        return dict(path.extra or ())

    def put(self, path, **kw):
        d = self.st(path); d.update(kw)
        path.extra = tuple(sorted(d.items(), key=repr))

    def lock_of(self, p):
        r, o = self.split(p)
        o = o.const()
        if r == self.tp and o == self.of["thcount_lock"]:
            return "count"
        if r == self.tp and o == self.oq["rwmutex"]:
            return "queue"
        if r == self.bs and o == self.ob["mutex"]:
            return "sem"
        return "?%r" % (p,)

    def cond_of(self, p):
        r, o = self.split(p)
        o = o.const()
        if r == self.tp and o == self.of["threads_all_idle"]:
            return "idle"
        if r == self.bs and o == self.ob["cond"]:
            return "sem"
        return "?%r" % (p,)

    # ---- a pool in any state
    def pool(self, path, n=0, v=0, working=None, alive=None, keep=1, own=0):
        m = path.mem
        m[(self.tp, self.oq["has_jobs"])] = reg("BS")
        m[(self.tp, self.of["threads"])] = reg("TH")
        for i in range(NTH):
            m[(("reg", "TH"), 8 * i)] = reg(("T", i))
            self.L.put(path, ("T", i), "thread", thpool_p=reg("TP"), id=C(i), pthread=Poly.a(("in", "pth", i)))
        m[(self.tp, self.of["num_threads_working"])] = C(0) if working is None else working
        m[(self.tp, self.of["num_threads_alive"])] = C(NTH) if alive is None else alive
        self.setkeep(path, keep)
        self.queue(path, n, "0")
        m[(self.bs, self.ob["v"])] = C(v)
        self.put(path, held=(), own=own, k=0)

    def setkeep(self, path, v):
        if self.keep is not None:
            path.mem[(self.tp, self.keep)] = C(v)

    def getkeep(self, path):
        return path.mem.get((self.tp, self.keep)) if self.keep is not None else None

    def queue(self, path, n, tag):
        m = path.mem
        js = [("J", tag, i) for i in range(n)]
        m[(self.tp, self.oq["front"])] = reg(js[0]) if n else C(0)
        m[(self.tp, self.oq["rear"])] = reg(js[-1]) if n else C(0)
        m[(self.tp, self.oq["len"])] = C(n)
        for i, j in enumerate(js):
            m[(("reg", j), self.oj["prev"])] = reg(js[i + 1]) if i + 1 < n else C(0)
            m[(("reg", j), self.oj["function"])] = Poly.a(("reg", ("fn", j)))
            m[(("reg", j), self.oj["arg"])] = Poly.a(("in", "arg", j))

    def snapshot(self, path):
        """the queue as it is: list of jobs, or a text saying what is wrong"""
        m = path.mem
        n = m[(self.tp, self.oq["len"])].const()
        if n is None or n < 0:
            return "the queue's length is %r" % m[(self.tp, self.oq["len"])]
        cur = m[(self.tp, self.oq["front"])]; js = []
        while cur is not None and cur.const() != 0 and len(js) < 8:
            r, o = self.split(cur)
            if r is None or r in path.freed:
                return "the queue holds something that is no job"
            js.append(r)
            if len(js) == n:
                break
            cur = m.get((r, self.oj["prev"]))
        if len(js) != n:
            return "the queue holds %d jobs and says %d" % (len(js), n)
        if n and m[(self.tp, self.oq["rear"])] != Poly.a(js[-1]):
            return "the queue's rear is not its last job"
        if not n and m[(self.tp, self.oq["front"])].const() != 0:
            return "the front of an empty queue still leads to a job"
        return tuple(js)

    # ---- loads other threads can change under our feet
    def load(self, p, path, ty=None):
        r, off = self.split(p)
        c = off.const()
        d = self.st(path)
        if d.get("left") and r in (self.tp, self.bs):
            path.ev("late", self.here)
        if r == self.tp and self.havoc and c in (self.of["num_threads_working"], self.of["num_threads_alive"]) and "count" not in d["held"]:
            self.put(path, k=d["k"] + 1)
            return Poly.a(("in", "poll", c, d["k"]))
        if r == self.tp and self.polls and c == self.of["num_threads_alive"]:
            return self.polls(self, path)
        return Interp.load(self, p, path, ty)

    def store(self, p, v, path):
        r, off = self.split(p)
        c = off.const()
        if self.st(path).get("left") and r in (self.tp, self.bs):
            path.ev("late", self.here)
        if r == self.tp and self.keep is not None and c == self.keep:
            path.ev("KEEP", v)
        Interp.store(self, p, v, path)

    def _fork(self, paths, f):
        out = []
        for p in paths:
            for g in f:
                q = p.copy()
                g(q)
                out.append(q)
        return out

    def acquire(self, path, m, x):
        """other threads did anything they may before we got the lock"""
        d = self.st(path)
        if m in d["held"]:
            path.ev("twice", m, x)
            return []
        paths = [path]
        tag = d["k"]
        self.put(path, held=d["held"] + (m,), k=tag + 1)
        if self.havoc:
            if m == "queue":
                paths = self._fork(paths, [(lambda q, n=n: self.queue(q, n, tag)) for n in range(self.maxjobs + 1)])
                for q in paths:
                    self.put(q, base_q=self.snapshot(q))
            elif m == "count":
                w, a = Poly.a(("in", "others", tag)), Poly.a(("in", "alive", tag))
                for q in paths:
                    q.mem[(self.tp, self.of["num_threads_working"])] = w + C(d["own"])
                    q.mem[(self.tp, self.of["num_threads_alive"])] = a
                    Interp._learn(q, "ge", w, True)
                    self.put(q, base_w=w + C(d["own"]), base_a=a)
            elif m == "sem":
                paths = self._fork(paths, [(lambda q, v=v: q.mem.__setitem__((self.bs, self.ob["v"]), C(v))) for v in (1, 0)])
                for q in paths:
                    self.put(q, base_v=q.mem[(self.bs, self.ob["v"])])
                paths = self.ending(paths)
        else:
            if m == "queue":
                self.put(path, base_q=self.snapshot(path))
            elif m == "sem":
                self.put(path, base_v=path.mem[(self.bs, self.ob["v"])])
            elif m == "count":
                self.put(path, base_w=path.mem[(self.tp, self.of["num_threads_working"])],
                         base_a=path.mem[(self.tp, self.of["num_threads_alive"])])
        return paths

    def ending(self, paths):
        """the pool may be told to end at any time"""
        out = []
        for q in paths:
            k = self.getkeep(q)
            out.append(q)
            if k is not None and k.const() == 1:
                r = q.copy()
                self.setkeep(r, 0)
                out.append(r)
        return out

    def give_back(self, path, m, x):
        d = self.st(path)
        if m not in d["held"]:
            path.ev("notheld", m, x)
            return []
        self.put(path, held=tuple(h for h in d["held"] if h != m))
        if m == "queue":
            path.ev("QUEUE", d["base_q"], self.snapshot(path), x)
        elif m == "sem":
            path.ev("SEM", d["base_v"].const(), path.mem[(self.bs, self.ob["v"])].const(), x)
            if self.havoc:
                return self.ending([path])
        elif m == "count":
            w, a = path.mem[(self.tp, self.of["num_threads_working"])], path.mem[(self.tp, self.of["num_threads_alive"])]
            dw, da = (w - d["base_w"]).const(), (a - d["base_a"]).const()
            z = self.compare(path, "eq", w, C(0))
            path.ev("COUNT", dw, da, z is not False, x)
            if dw is not None:
                self.put(path, own=d["own"] + dw)
            if da == -1:
                self.put(path, left=True)
        return [path]

    def sync(self, f, args, path, x):
        one = lambda ps: [(C(0), p) for p in ps]
        if f in ("pthread_mutex_lock",):
            m = self.lock_of(args[0])
            path.ev("LOCK", m, x)
            if m == "sem" and sum(1 for e in path.events if e[0] == "LOCK" and e[1] == "sem") > 6 * self.rounds:
                path.ev("CUT", x)
                self.done.append(path)
                return []
            return one(self.acquire(path, m, x))
        if f == "pthread_mutex_unlock":
            if self.havoc and self.lock_of(args[0]) == "sem" and self.rounds < 100 and "sem" in self.st(path)["held"]:
                i = max(n for n, e in enumerate(path.events) if e[0] == "LOCK" and e[1] == "sem")
                if not any(e[0] in ("SIGNAL", "BCAST") and e[1] == "sem" for e in path.events[i:]):
                    n = self.st(path).get("looks", 0) + 1
                    self.put(path, looks=n)
                    if n > self.rounds:
                        path.ev("CUT", x)      # about to look for the next job
                        self.done.append(path)
                        return []
            return one(self.give_back(path, self.lock_of(args[0]), x))
        if f in ("pthread_cond_wait", "pthread_cond_timedwait"):
            m, c = self.lock_of(args[1]), self.cond_of(args[0])
            path.ev("WAIT", c, m, x)
            if sum(1 for e in path.events if e[0] == "WAIT") > 3:
                self.cuts += 1
                return []
            out = []
            for q in self.give_back(path, m, x):
                out += self.acquire(q, m, x)
            return one(out)
        if f in ("pthread_cond_signal", "pthread_cond_broadcast"):
            path.ev("SIGNAL" if f.endswith("signal") else "BCAST", self.cond_of(args[0]), x)
            return C(0)
        if f is None:
            path.ev("RUN", self.fpv, args, x)
            return C(0)
        if f == "free":
            path.ev("FREE", args[0], x)
            self.release(args[0], path)
            return C(0)
        if f in ("malloc", "calloc"):
            q = path.copy()
            q.ev("nomem")
            sz = args[0] * args[1] if f == "calloc" else args[0]
            return [(self.alloc(path, x.fn.name, sz, f == "calloc"), path), (C(0), q)]
        if f == "pthread_create":
            q = path.copy()
            q.ev("nothread")
            path.ev("CREATE", args, self.here)
            self.created(path, args, x)
            return [(C(0), path), (C(11), q)]
        if f in ("pthread_mutex_init", "pthread_cond_init"):
            path.ev("INIT", args[0])
            return C(0)
        if f in ("pthread_kill",):
            path.ev("KILL", args[0], args[1], x)
            return C(0)
        if f == "difftime":
            return [(C(0), path), (C(2), path.copy())]
        if f in ("sleep", "usleep", "nanosleep", "sched_yield"):
            n = sum(1 for e in path.events if e[0] == "SLEEP")
            path.ev("SLEEP", x)
            if n > 2:
                self.cuts += 1
                return []
            return C(0)
        if f == "exit":
            path.ev("EXIT", x)
            self.done.append(path)
            return []
        if f in ("prctl", "sprintf", "snprintf", "sigemptyset", "sigaction", "pthread_detach", "pthread_self", "pthread_mutex_destroy",
                 "pthread_cond_destroy", "time", "pthread_setname_np"):
            return C(0)
        return None

    rounds = 10 ** 6

    def created(self, path, args, x):
        pass

    def go(self, fn, args, path):
        self.done = []
        r = self.run_ended(fn, args, path, 400000)
        return r, self.done


def where(e):
    x = e[-1]
    return x.loc() if hasattr(x, "loc") else "?"


def worker_rules(W, q, ended, bad):
    """the events of one worker, up to the point where it looks for its next job (or returned)"""
    own = 0; alive = 0; token = False; job = None; ran = False; freed = True; post = None; bcast = None; woke = sig = posted = False
    fun = lambda j: Poly.a(("reg", ("fn", j[1])))
    for e in q.events:
        k = e[0]
        if k in ("twice", "notheld"):
            bad.append("%s: the lock %s is %s" % (where(e), e[1], "taken twice" if k == "twice" else "given back without being held"))
        elif k == "COUNT":
            dw, da = e[1], e[2]
            if dw is None or da is None:
                bad.append("%s: the number of threads is set, not counted" % where(e)); continue
            own += dw; alive += da
            if own not in (0, 1):
                bad.append("%s: a worker counts itself as working %d times" % (where(e), own))
            if dw == -1 and job is not None and not ran:
                bad.append("%s: the worker says it is done before it ran its job" % where(e))
            if dw == -1 and e[3] and not woke:
                bcast = e
        elif k == "BCAST" and e[1] == "idle":
            bcast = None; woke = True      # under the lock, or after it
        elif k == "SEM":
            v0, v = e[1], e[2]
            if v == 0 and v0 == 1:
                token = True
            elif v == 1 and sig:
                post = None; posted = True
            sig = False
        elif k == "LOCK" and e[1] == "sem":
            sig = False
        elif k == "LOCK" and e[1] == "count":
            woke = False
        elif k == "LOCK" and e[1] == "queue":
            posted = False
        elif k in ("SIGNAL", "BCAST") and e[1] == "sem":
            sig = True
        elif k == "WAIT":
            if e[2] != ("sem" if e[1] == "sem" else "count"):
                bad.append("%s: waits on a condition with another condition's lock" % where(e))
        elif k == "QUEUE":
            b, a = e[1], e[2]
            if isinstance(a, str):
                bad.append("%s: %s" % (where(e), a)); continue
            token = False
            if a == b:
                continue
            if not (b and a == b[1:]):
                bad.append("%s: a worker changes the queue in another way than taking its first job" % where(e)); continue
            if job is not None and not ran:
                bad.append("%s: a worker takes a job before it ran the one it has" % where(e))
            job = b[0]; ran = False; freed = False
            if own != 1:
                bad.append("%s: the job leaves the queue while the worker is not counted as working" % where(e))
            post = e if a and not posted else None
        elif k == "RUN":
            if job is None or ran:
                bad.append("%s: a job is run %s" % (where(e), "a second time" if job is not None else "that was not taken from the queue"))
                continue
            if e[1] != fun(job) or list(e[2])[:1] != [Poly.a(("in", "arg", job[1]))]:
                bad.append("%s: another function or argument than the job's is used" % where(e))
            if freed:
                bad.append("%s: the job is used after it was freed" % where(e))
            if own != 1:
                bad.append("%s: the job runs while the worker is not counted as working" % where(e))
            if post is not None:
                bad.append("%s: jobs are left in the queue and no other worker is told before this one runs" % where(e))
            ran = True
        elif k == "FREE":
            r, o = W.split(e[1])
            if job is not None and r == job:
                freed = True
        elif k in ("uaf", "badfree"):
            bad.append("%s: memory is used or freed after it was freed" % (e[-1].loc() if hasattr(e[-1], "loc") else ""))
        elif k == "late":
            bad.append("%s: the pool is used by a thread that no longer counts as alive" % where(e))
    return dict(own=own, alive=alive, token=token, job=job, ran=ran, freed=freed, post=post, bcast=bcast)


def run():
    chk = Check(PID, "a worker takes the first job under the queue's lock while it counts as working, tells the next worker when jobs remain, runs "
                "the job once with its argument and frees it, stops counting, and wakes every waiter when none works; adding appends one job and "
                "wakes a worker; waiting ends only when no job is queued and no worker counts as working; destroying frees the pool after its last thread left")
    chk.assumptions += ["the pool's data is only touched under its locks (decided by L01)", "queues of 0 to 3 jobs (each step touches the ends)"]
    P = ir.program("commons", only=["utils/thpool.c"])
    fnames = ["thpool_init", "thpool_add_work", "thpool_wait", "thpool_destroy", "thpool_pause", "thpool_resume"]
    S = lambda n: P.fn(n)
    chk.analysed = {"functions": fnames + ["the worker and the signal handler"]}
    L = Layout(P)

    def report(name, fn, bad, what):
        chk.oblige(not bad, name, "%s (%s): %s" % (fn.where() if fn else FILE, name, bad[0] if bad else ""), what)

    if "threads_keepalive" not in L.fields("thpool_"):
        chk.oblige(False, "keepalive", "%s: the flag that ends the threads is not the pool's own: destroying one pool ends the threads of all" % FILE, "")
        chk.floor("traces", 0)
        return chk.finish("")
    chk.oblige(True, "keepalive", "", "the flag that ends the threads belongs to the pool")
    # the worker and the handler are found where they are handed over
    worker = handler = None
    for f in P.fns.values():
        for x in f.instrs():
            if x.op == "call" and x.callee == "pthread_create":
                for r in x.args:
                    if isinstance(r, list) and r and r[0] == "g" and r[1] in P.fns:
                        worker = P.fns[r[1]]
    for f in P.fns.values():
        for x in f.instrs():
            if x.op == "store":
                for r in x.args:
                    if isinstance(r, list) and r and r[0] == "g" and r[1] in P.fns:
                        handler = P.fns[r[1]]
    if worker is None:
        raise AnalysisBroken("the pool's worker was not found")

    # ---- worker
    def w_rule():
        bad = []
        for keep in (1, 0):
            W = World(P); W.rounds = 2
            p = Path(); W.pool(p, keep=keep)
            res, cut = W.go(worker, [reg(("T", 0))], p)
            for rv, q in res:
                chk.count("traces"); chk.count("ends of a worker")
                s = worker_rules(W, q, True, bad)
                if any(e[0] == "endless" for e in q.events):
                    bad.append("the worker does not come to an end")
                    continue
                k = W.getkeep(q)
                if k is None or k.const() != 0:
                    bad.append("the worker returns although the pool was not told to end")
                if s["alive"] != 0:
                    bad.append("a worker that returns leaves the number of living threads changed by %d" % s["alive"])
                if s["own"] or (s["job"] is not None and not (s["ran"] and s["freed"])):
                    bad.append("a worker returns with work it has not finished")
                if isinstance(s["bcast"], tuple):
                    bad.append("%s: the last working thread does not wake every waiter" % where(s["bcast"]))
                if not any(e[0] == "COUNT" and e[2] == -1 for e in q.events):
                    bad.append("a worker returns without being counted out")
            for q in cut:
                if q.events[-1][0] == "EXIT":
                    bad.append("the worker ends the process"); continue
                chk.count("traces"); chk.count("rounds of a worker")
                s = worker_rules(W, q, False, bad)
                if s["alive"] != 1:
                    bad.append("a running worker is counted as alive %d times" % s["alive"])
                if s["own"]:
                    bad.append("a worker looks for its next job while it still counts as working")
                if s["job"] is not None and not s["ran"]:
                    bad.append("a job is taken from the queue and never run")
                if s["job"] is not None and not s["freed"]:
                    bad.append("a job is not freed after it ran")
                if s["token"]:
                    bad.append("a worker takes the queue's signal and does not look into the queue")
                if s["post"] is not None:
                    bad.append("%s: jobs are left in the queue and no worker is told" % where(s["post"]))
                if isinstance(s["bcast"], tuple):
                    bad.append("%s: the last working thread does not wake every waiter" % where(s["bcast"]))
                chk.count("jobs run", 1 if s["ran"] else 0)
        report("worker", worker, bad, "one round of a worker from any state of the pool")
        chk.floor("rounds of a worker", 4); chk.floor("jobs run", 3); chk.floor("ends of a worker", 2)
    with chk.part("worker"):
        w_rule()

    # ---- adding work
    def a_rule():
        bad = []
        fn = S("thpool_add_work")
        W = World(P)
        p = Path(); W.pool(p)
        F, A = Poly.a(("reg", ("fn", "new"))), Poly.a(("in", "arg", "new"))
        res, cut = W.go(fn, [reg("TP"), F, A], p)
        ok = 0
        for rv, q in res:
            chk.count("traces")
            ch = [e for e in q.events if e[0] == "QUEUE" and e[1] != e[2]]
            wrong = [e for e in q.events if e[0] in ("twice", "notheld", "uaf", "badfree", "endless")]
            if wrong:
                bad.append("adding a job goes wrong: %r" % (wrong[0][0],)); continue
            t = [e for e in ch if isinstance(e[2], str)]
            if t:
                bad.append("%s: %s" % (where(t[0]), t[0][2])); continue
            if rv is not None and rv.const() == 0:
                if len(ch) != 1 or len(ch[0][2]) != len(ch[0][1]) + 1 or ch[0][2][:-1] != ch[0][1]:
                    bad.append("a job that was accepted is not appended to the queue once"); continue
                j = ch[0][2][-1]
                if q.mem.get((j, W.oj["function"])) != F or q.mem.get((j, W.oj["arg"])) != A:
                    bad.append("the queued job has another function or argument than was given"); continue
                if q.mem.get((j, W.oj["prev"])) != C(0):
                    bad.append("the job appended leads on to something that is no job"); continue
                if W.split(Poly.a(j))[0][1][0] != "heap":
                    bad.append("the job appended is not new"); continue
                sz = q.size.get(j)
                if sz is None or sz < P.structs["job"]["size"]:
                    bad.append("the job is allocated with %r bytes" % sz); continue
                i = q.events.index(ch[0])
                # the semaphore is posted for the job: within the section or after it
                post = False
                for n, e in enumerate(q.events):
                    if e[0] == "SEM" and e[2] == 1:
                        prev = [g for g in q.events[:n] if g[0] == "LOCK"]
                        lo = max([m for m, g in enumerate(q.events[:n]) if g[0] == "LOCK" and g[1] == "sem"], default=0)
                        if any(g[0] in ("SIGNAL", "BCAST") and g[1] == "sem" for g in q.events[lo:n + 3]):
                            qlock = max([m for m, g in enumerate(q.events[:i]) if g[0] == "LOCK" and g[1] == "queue"], default=0)
                            if n > qlock:
                                post = True
                if not post and not ch[0][1]:
                    bad.append("%s: no worker is told of the job that was added" % where(ch[0])); continue
                ok += 1
            else:
                if not any(e[0] == "nomem" for e in q.events):
                    bad.append("a job is refused although there was memory for it")
                if ch:
                    bad.append("a job is queued and refused at the same time")
        if cut:
            bad.append("adding work ends the process")
        chk.count("jobs added", ok)
        report("add", fn, bad, "a job is added to queues of any length")
        chk.floor("jobs added", 4)
    with chk.part("add"):
        a_rule()

    # ---- waiting
    def t_rule():
        bad = []
        fn = S("thpool_wait")

        class TW(World):
            def acquire(self, path, m, x):
                r = World.acquire(self, path, m, x)
                if m in ("count", "queue"):
                    out = []
                    for q in r:
                        if m == "count":
                            for n in (0, 1):
                                s = q.copy()
                                if "queue" not in self.st(s)["held"]:
                                    self.queue(s, n, "w%d" % self.st(s)["k"])
                                out.append(s)
                        else:
                            out.append(q)
                    r = out
                return r
        W = TW(P)
        p = Path(); W.pool(p)
        res, cut = W.go(fn, [reg("TP")], p)
        ends = 0
        for rv, q in res:
            chk.count("traces")
            for e in q.events:
                if e[0] in ("twice", "notheld", "endless"):
                    bad.append("waiting goes wrong with its lock (%s)" % e[0])
                if e[0] == "WAIT" and (e[1], e[2]) != ("idle", "count"):
                    bad.append("%s: waits for something other than the pool being idle" % where(e))
                if e[0] == "QUEUE" and e[1] != e[2] or e[0] == "COUNT" and (e[1] or e[2]):
                    bad.append("%s: waiting changes the pool" % where(e))
            d = W.st(q)
            w = d.get("base_w")
            z = None if w is None else W.compare(q, "eq", w, C(0))
            if z is not True:
                bad.append("waiting ends while a worker may be working"); continue
            n = q.mem[(W.tp, W.oq["len"])].const()
            if n != 0:
                bad.append("waiting ends while jobs are queued"); continue
            ends += 1
        chk.count("ends of waiting", ends)
        if W.cuts == 0:
            bad.append("waiting never waits")
        report("wait", fn, bad, "waiting from any state, woken at any time")
        chk.floor("ends of waiting", 2)
    with chk.part("wait"):
        t_rule()

    # ---- destroying
    def d_rule():
        bad = []
        fn = S("thpool_destroy")
        good = 0
        for n in (0, 1, 2):
            W = World(P, havoc=False)

            def polls(I, path):
                d = I.st(path)
                k = d.get("polled", 0)
                I.put(path, polled=k + 1)
                if "count" in d["held"] and d.get("zero"):
                    return C(0)
                if k == 0:
                    return C(NTH)
                if d.get("zero"):
                    return C(0)
                last = path.mem.get((("reg", "ENV"), 0))
                if last is not None and I.compare(path, "eq", last, C(0)) is True:
                    return C(0)
                path.ev("POLL", I.getkeep(path), I.here)
                v = C(0) if k > 5 else Poly.a(("in", "left", k))
                path.mem[(("reg", "ENV"), 0)] = v
                return v
            W.polls = polls
            p = Path(); W.pool(p, n=n, v=0)
            res, cut = W.go(fn, [reg("TP")], p)
            for rv, q in res:
                chk.count("traces")
                ev = q.events
                wrong = [e for e in ev if e[0] in ("twice", "notheld", "uaf", "badfree", "endless", "RUN")]
                if wrong:
                    bad.append("destroying a pool with %d queued jobs goes wrong (%s)" % (n, {"uaf": "memory is used after it was freed", "badfree": "memory is freed twice",
                               "RUN": "a job is run", "endless": "it does not end"}.get(wrong[0][0], "locks"))); continue
                fr = [W.split(e[1])[0] for e in ev if e[0] == "FREE"]
                want = {W.tp: "the pool", W.bs: "the semaphore", ("reg", "TH"): "the list of threads"}
                want.update({("reg", ("T", i)): "a thread's record" for i in range(NTH)})
                want.update({("reg", ("J", "0", i)): "a queued job" for i in range(n)})
                miss = [t for r, t in want.items() if fr.count(r) != 1]
                if miss:
                    bad.append("destroying a pool does not free %s once" % miss[0]); continue
                kz = [i for i, e in enumerate(ev) if e[0] == "KEEP" and e[1].const() == 0]
                pl = [i for i, e in enumerate(ev) if e[0] == "POLL"]
                if not kz or pl and pl[0] < kz[0]:
                    bad.append("the threads are not told to end before they are waited for"); continue
                last = q.mem.get((("reg", "ENV"), 0))
                if not pl or last is None or last.const() != 0 and W.compare(q, "eq", last, C(0)) is not True:
                    bad.append("the pool is taken down while threads may be alive"); continue
                f0 = min(i for i, e in enumerate(ev) if e[0] == "FREE" and W.split(e[1])[0] in (W.tp, W.bs, ("reg", "TH"), ("reg", ("T", 0)), ("reg", ("T", 1))))
                if f0 < pl[-1]:
                    bad.append("the pool is taken down while threads may be alive"); continue
                if not any(e[0] == "COUNT" and i > pl[-1] for i, e in enumerate(ev) if i < f0):
                    bad.append("the pool is freed while its last thread may still hold the pool's lock"); continue
                waits = [e for i, e in enumerate(ev) if e[0] == "POLL"]
                if len(pl) > 1:
                    wake = [e for e in ev[kz[0]:pl[-1]] if e[0] in ("BCAST", "SIGNAL") and e[1] == "sem"] and \
                        [e for e in ev[kz[0]:pl[-1]] if e[0] == "SEM" and e[2] == 1]
                    if not wake:
                        bad.append("threads that wait for a job are not woken so that they can end"); continue
                good += 1
        W = World(P, havoc=False)
        res, cut = W.go(fn, [C(0)], Path())
        if len(res) != 1 or any(e[0] not in ("call",) for e in res[0][1].events):
            bad.append("destroying no pool does something")
        chk.count("ways a pool is destroyed", good)
        report("destroy", fn, bad, "pools with 0 to 2 queued jobs, threads that leave early or late")
        chk.floor("ways a pool is destroyed", 3)
    with chk.part("destroy"):
        d_rule()

    # ---- creating
    def i_rule():
        bad = []
        fn = S("thpool_init")
        good = 0

        class IW(World):
            def lock_of(self, p):
                return "any"

            def acquire(self, path, m, x):
                return [path]

            def give_back(self, path, m, x):
                return [path]

            def load(self, p, path, ty=None):
                r, off = self.split(p)
                if off.const() == self.of["num_threads_alive"] and r in path.size and path.size[r] == P.structs["thpool_"]["size"] and r not in path.freed:
                    # every thread that was created comes alive sooner or later
                    n = sum(1 for e in path.events if e[0] == "CREATE")
                    told = self.getk(path, r)
                    k = (path.mem.get((("reg", "ENV"), 1)) or C(0)).const()
                    path.mem[(("reg", "ENV"), 1)] = C(k + 1)
                    if told == 0:
                        m = path.mem.get((("reg", "ENV"), 2))
                        path.mem[(("reg", "ENV"), 2)] = C(1)
                        return C(0) if m is not None else C(n)
                    path.ev("ALIVE", n, k)
                    return C(0) if k == 0 and n else C(n)
                return Interp.load(self, p, path, ty)

            def getk(self, path, r):
                v = path.mem.get((r, self.keep))
                return None if v is None else v.const()

            def store(self, p, v, path):
                Interp.store(self, p, v, path)

            def created(self, path, args, x):
                T = self.split(args[3])[0]
                f = args[2]
                tp = path.mem.get((T, self.L.off("thread", "thpool_p")))
                g = lambda o: path.mem.get((self.split(tp)[0], o)) if tp is not None else None
                if tp is None or self.split(tp)[0] not in path.size:
                    bad.append("%s: a thread is started without its pool" % x.loc()); return
                if self.split(f)[0] is None or self.split(f)[0][1] != ("glob", worker.name):
                    pass
                hj = g(self.oq["has_jobs"])
                z = lambda v: v is not None and v.const() == 0
                if not (g(self.keep) is not None and g(self.keep).const() == 1):
                    bad.append("%s: a thread is started while the pool is told to end" % x.loc())
                first = not any(e[0] == "CREATE" for e in path.events[:-1])
                if first and not (z(g(self.of["num_threads_alive"])) and z(g(self.of["num_threads_working"]))):
                    bad.append("%s: a thread is started before the threads' counts are zero" % x.loc())
                if not (z(g(self.oq["len"])) and z(g(self.oq["front"])) and hj is not None and z(path.mem.get((self.split(hj)[0], self.ob["v"])))):
                    bad.append("%s: a thread is started before the queue is empty and its semaphore down" % x.loc())
                need = {(self.split(tp)[0], self.of["thcount_lock"]), (self.split(tp)[0], self.of["threads_all_idle"]), (self.split(tp)[0], self.oq["rwmutex"])}
                if hj is not None:
                    need |= {(self.split(hj)[0], self.ob["mutex"]), (self.split(hj)[0], self.ob["cond"])}
                got = {(self.split(e[1])[0], self.split(e[1])[1].const()) for e in path.events if e[0] == "INIT"}
                if need - got:
                    bad.append("%s: a thread is started before the pool's locks and conditions are set up" % x.loc())
        for want in (-1, 0, 1, 2):
            W = IW(P, havoc=False)
            p = Path(); W.put(p, held=(), own=0, k=0)
            res, cut = W.go(fn, [C(want)], p)
            for rv, q in res:
                chk.count("traces")
                ev = q.events
                nomem = any(e[0] in ("nomem", "nothread") for e in ev)
                wrong = [e for e in ev if e[0] in ("uaf", "badfree", "endless")]
                if wrong:
                    bad.append("creating a pool of %d threads %s" % (want, "does not end when a thread cannot be started" if wrong[0][0] == "endless" and nomem else
                               "does not end" if wrong[0][0] == "endless" else "uses or frees freed memory")); continue
                al = [W.split(e[1])[0] for e in ev if e[0] == "alloc"]
                left = [r for r in al if r not in q.freed]
                if rv is None or rv.const() == 0:
                    if not nomem:
                        bad.append("no pool is returned although nothing failed")
                    made = sum(1 for e in ev if e[0] == "CREATE")
                    if made and not q.freed:
                        bad.append("no pool is returned while its threads run on")
                    if made == 0 and len(left) > 1:
                        bad.append("memory is left behind when a pool cannot be created")
                    continue
                r = W.split(rv)[0]
                if r not in q.size or r in q.freed:
                    bad.append("what is returned is no pool"); continue
                made = [W.split(e[1][3])[0] for e in ev if e[0] == "CREATE"]
                n = max(want, 0)
                if len(made) != n or len(set(made)) != n:
                    bad.append("a pool of %d threads has %d, with records of %d" % (n, len(made), len(set(made)))); continue
                th = q.mem.get((r, W.of["threads"]))
                tr = W.split(th)[0] if th is not None else None
                if n and [q.mem.get((tr, 8 * i)) for i in range(n)] != [Poly.a(m) for m in made]:
                    bad.append("the pool's list does not hold its threads"); continue
                if n and q.size.get(tr, 0) < 8 * n:
                    bad.append("the list of threads is too small"); continue
                a = [e for e in ev if e[0] == "ALIVE"]
                if n and not any(e[1] == n and e[2] > 0 for e in a):
                    bad.append("the pool is returned before its threads are alive"); continue
                good += 1
        chk.count("ways a pool is created", good)
        report("create", fn, bad, "pools of -1 to 2 threads; allocation or thread creation fails anywhere")
        chk.floor("ways a pool is created", 4)
    with chk.part("create"):
        i_rule()

    # ---- pausing
    def p_rule():
        bad = []
        if handler is None:
            raise AnalysisBroken("the pool's signal handler was not found")
        hold = [g for g in P.globals if g.split("#")[0] == "threads_on_hold"]
        if len(hold) != 1:
            raise AnalysisBroken("threads_on_hold not found")
        G = ("reg", ("glob", hold[0]))
        W = World(P, havoc=False); W.pool(q := Path())
        q.mem[(G, 0)] = C(0)
        res, cut = W.go(handler, [C(10)], q)
        if len(res) != 1 or any(e[0] == "SLEEP" for r, e_ in res for e in e_.events) or W.cuts:
            bad.append("a thread whose signal arrives after the pool was resumed sleeps for ever")
        q = Path(); W = World(P, havoc=False); W.pool(q); q.mem[(G, 0)] = C(1)
        res, cut = W.go(handler, [C(10)], q)
        if res or not W.cuts:
            bad.append("a paused thread does not stay on hold")
        fn = S("thpool_pause")
        q = Path(); W = World(P, havoc=False); W.pool(q); q.mem[(G, 0)] = C(0)
        res, cut = W.go(fn, [reg("TP")], q)
        for rv, q in res:
            chk.count("traces")
            k = [e[1] for e in q.events if e[0] == "KILL"]
            if [repr(x) for x in k] != [repr(Poly.a(("in", "pth", i))) for i in range(NTH)]:
                bad.append("pausing does not reach every thread once")
            if q.mem[(G, 0)].const() != 1:
                bad.append("pausing does not put the threads on hold")
            st = [i for i, e in enumerate(q.events) if e[0] == "store" and e[1] == G]
            kl = [i for i, e in enumerate(q.events) if e[0] == "KILL"]
            if st and kl and st[0] > kl[0]:
                bad.append("threads are signalled before they are put on hold")
        q = Path(); W = World(P, havoc=False); W.pool(q); q.mem[(G, 0)] = C(1)
        res, cut = W.go(S("thpool_resume"), [reg("TP")], q)
        if len(res) != 1 or res[0][1].mem[(G, 0)].const() != 0:
            bad.append("resuming leaves the threads on hold")
        report("pause", fn, bad, "pausing and resuming")
    with chk.part("pause"):
        p_rule()
    return chk.finish("Each operation of the pool and a round of its worker were interpreted from every state the invariant allows, with other threads "
                      "acting at every lock acquisition, and the change made in each locked section compared with the protocol.")
