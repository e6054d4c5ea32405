"""T01: the life of a transfer request.  The request operations are abstractly interpreted over the most general
client of up to two requests (every sequence of calls up to a bounded length); after every call the allocation state,
the parts in flight, the object's pending list and the element placement are compared with the contract."""
import os
import multiprocessing as mp
import ir
from report import Check
from absint import Interp, Path, reg
from sym import Poly
from copies import Layout
from frontend import AnalysisBroken

PID = "T01"
c = Poly.c
UNIT = 4
NSRV = 3
OBJ_ID = 77
OPS = ("PDCregion_transfer_create", "PDCregion_transfer_start", "PDCregion_transfer_start_all", "PDCregion_transfer_wait",
       "PDCregion_transfer_wait_all", "PDCregion_transfer_status", "PDCregion_transfer_close", "PDC_obj_close")
BASE_ID = 9000


class Req:
    """an abstract request: what is asked for, and the parts the servers hold"""

    def __init__(self, part, write, posix, off, size, loff, dims, plan=None, mserver=0, oserver=2):
        self.part = part; self.write = write; self.posix = posix; self.off = off; self.size = size; self.loff = loff
        self.dims = dims; self.plan = plan; self.mserver = mserver; self.oserver = oserver

    def elems(self):
        """(coordinate in the object, position in the user's buffer), row-major"""
        nd = len(self.off)
        out = []
        idx = [0] * nd
        n = 1
        for s in self.size:
            n *= s
        for k in range(n):
            r = k
            for j in range(nd - 1, -1, -1):
                idx[j] = r % self.size[j]; r //= self.size[j]
            pos = 0
            for j in range(nd):
                pos = pos * (self.size[j] if j else 1) + self.loff[j] + idx[j]
            out.append((tuple(self.off[j] + idx[j] for j in range(nd)), pos))
        return out

    def parts(self):
        """[(server, offset, size)] that must be sent"""
        if self.part == "STATIC":
            nd = len(self.dims)
            sd = next((nd - 1 - i for i in range(nd) if self.dims[nd - 1 - i] > NSRV), nd - 1)
            s, r = divmod(self.dims[sd], NSRV)
            x = NSRV - r
            out = []
            for i in range(NSRV):
                o = i * s if i < x else x * s + (i - x) * (s + 1)
                z = s if i < x else s + 1
                lo, hi = max(o, self.off[sd]), min(o + z, self.off[sd] + self.size[sd])
                if lo < hi:
                    oo = list(self.off); zz = list(self.size)
                    oo[sd] = lo; zz[sd] = hi - lo
                    out.append((i, tuple(oo), tuple(zz)))
            return out
        if self.part == "OBJ":
            return [(self.oserver, tuple(self.off), tuple(self.size))]
        return list(self.plan)


class World:
    def __init__(self, P, reqs, same_obj=True, fail=False):
        self.fail = fail
        self.P = P; self.L = Layout(P); self.reqs = reqs; self.same = same_obj
        self.num = {}
        for m in P.enums.values():
            self.num.update(m)
        for n in ("PDC_REGION_STATIC", "PDC_OBJ_STATIC", "PDC_REGION_DYNAMIC", "PDC_REGION_LOCAL", "PDC_READ", "PDC_WRITE",
                  "PDC_CONSISTENCY_POSIX", "PDC_TRANSFER_STATUS_COMPLETE", "PDC_TRANSFER_STATUS_PENDING",
                  "PDC_TRANSFER_STATUS_NOT_FOUND"):
            if n not in self.num:
                raise AnalysisBroken("%s not found" % n)
        self.I = Interp(P, ext=self.ext, cell=self.cell, no_summary=True, max_paths=400, max_steps=10 ** 9)

    def okey(self, r):
        return "OBJ0" if self.same else "OBJ%d" % r

    def cell(self, r, off):
        n = r[1]
        if isinstance(n, tuple) and n[0] == "USER" and off % UNIT == 0:
            return Poly.a(("user", n[1], off // UNIT))
        if n == ("glob", "pdc_server_num_g"):
            return c(NSRV)
        return None

    def start(self):
        p = Path()
        L = self.L
        for k in range(len(self.reqs)):
            R = self.reqs[k]
            o = self.okey(k)
            if self.same and k:
                o2 = o
            pt = {"STATIC": "PDC_REGION_STATIC", "OBJ": "PDC_OBJ_STATIC", "DYN": "PDC_REGION_DYNAMIC",
                  "LOCAL": "PDC_REGION_LOCAL"}[R.part]
            L.put(p, o, "_pdc_obj_info", obj_pt=reg(o + "PT"), metadata=reg(o + "MD"), obj_info_pub=reg(o + "PUB"),
                  local_transfer_request_head=c(0), local_transfer_request_end=c(0), local_transfer_request_size=c(0))
            L.put(p, o + "PT", "_pdc_obj_prop", obj_prop_pub=reg(o + "PP"))
            L.put(p, o + "PP", "pdc_obj_prop", ndim=c(len(R.dims)), dims=reg(o + "DIMS"), type=c(1),
                  consistency=c(self.num["PDC_CONSISTENCY_POSIX"] if R.posix else 0))
            for j, d in enumerate(R.dims):
                p.mem[(("reg", o + "DIMS"), 8 * j)] = c(d)
            L.put(p, o + "MD", "pdc_metadata_t" if "pdc_metadata_t" in self.P.structs else "_pdc_metadata",
                  region_partition=c(self.num[pt]), data_server_id=c(R.oserver))
            L.put(p, o + "PUB", "pdc_obj_info", meta_id=c(OBJ_ID + (0 if self.same else k)),
                  metadata_server_id=c(R.mserver), local_id=c(500 + k))
            for nm, of, sz in (("LR", R.loff, R.size), ("RR", R.off, R.size)):
                n = "%s%d" % (nm, k)
                L.put(p, n, "pdc_region_info", ndim=c(len(of)), offset=reg(n + "O"), size=reg(n + "S"))
                for j in range(len(of)):
                    p.mem[(("reg", n + "O"), 8 * j)] = c(of[j])
                    p.mem[(("reg", n + "S"), 8 * j)] = c(sz[j])
        p.extra = {"alive": {}, "fly": {}, "mid": 100, "log": (), "done": (), "bad": None}
        return p

    # ---- the environment
    def upd(self, path, **kw):
        e = dict(path.extra)
        e.update(kw)
        path.extra = e

    def complain(self, path, what):
        if path.extra["bad"] is None:
            self.upd(path, bad=what)

    def num_at(self, p, k, path, w=8):
        v = self.I.load(p + c(w * k), path).const()
        if v is None:
            raise AnalysisBroken("a size or id given to a server call is not determined")
        return v

    def send(self, path, server, write, ptr, rgn, obj, off, size):
        """one part handed to a data server: the buffer holds the part's elements"""
        mid = path.extra["mid"]
        fly = dict(path.extra["fly"])
        r, o = Interp.split(ptr)
        fly[mid] = (server, write, r, o.const() if r is not None else None, off, size, obj)
        if write:
            R = self.owner(obj, off)
            want = self.part_cells(R, off, size)
            for i, (coord, pos) in enumerate(want):
                if pos is None or self.I.load(ptr + c(UNIT * i), path) != Poly.a(("user", R, pos)):
                    self.complain(path, "a part is sent with data that is not the user's data of its elements")
                    break
        self.upd(path, mid=mid + 1, fly=fly, log=path.extra["log"] + (("send", mid, server, write, off, size, obj),))
        return mid

    def owner(self, obj, off):
        """which request a part belongs to"""
        for k, R in enumerate(self.reqs):
            if not self.same and obj != OBJ_ID + k:
                continue
            if all(R.off[j] <= off[j] < R.off[j] + R.size[j] for j in range(len(off))):
                return k
        return None

    def part_cells(self, k, off, size):
        R = self.reqs[k] if k is not None else None
        where = dict(R.elems()) if R else {}
        nd = len(off)
        n = 1
        for s in size:
            n *= s
        out = []
        for e in range(n):
            r = e
            co = [0] * nd
            for j in range(nd - 1, -1, -1):
                co[j] = off[j] + r % size[j]; r //= size[j]
            out.append((tuple(co), where.get(tuple(co))))
        return out

    def arrive(self, path, mid, server):
        """a part is known to be complete"""
        f = path.extra["fly"].get(mid)
        if f is None:
            self.complain(path, "a part that is not in flight is waited for")
            return
        sv, write, r, o, off, size, obj = f
        if sv != server:
            self.complain(path, "a part is waited for at another server than it was sent to")
        if not write:
            if r in path.freed:
                self.complain(path, "a part arrives in a buffer that was released")
            for i, (co, _) in enumerate(self.part_cells(self.owner(obj, off), off, size)):
                path.mem[(r, o + UNIT * i)] = Poly.a(("remote", co))
        fly = dict(path.extra["fly"])
        del fly[mid]
        self.upd(path, fly=fly, log=path.extra["log"] + (("wait", mid, server),))

    FAILING = ("PDC_Client_transfer_request", "PDC_Client_transfer_request_all", "PDC_Client_transfer_request_wait",
               "PDC_Client_transfer_request_wait_all", "PDC_Client_transfer_request_metadata_query",
               "PDC_Client_transfer_request_status")

    def ext(self, f, a, path, x):
        if self.fail and f in self.FAILING and not path.extra.get("failed"):
            q = path.copy()
            e = dict(q.extra); e["failed"] = f
            q.extra = e
            if f == "PDC_Client_transfer_request":          # the part's id is whatever it was
                self.I.store(a[10], c(0), q)
            if f == "PDC_Client_transfer_request_all":
                for k in range(a[0].const()):
                    self.I.store(a[5] + c(8 * k), c(0), q)
            r = self.ext1(f, a, path, x)
            return (r if isinstance(r, list) else [(r, path)]) + [(c(-1), q)]
        return self.ext1(f, a, path, x)

    def ext1(self, f, a, path, x):
        I = self.I
        if f == "PDC_find_id":
            v = a[0].const()
            if v is None:
                raise AnalysisBroken("lookup of an undetermined id")
            if v in path.extra["alive"]:
                path.mem[(("reg", ("INFO", v)), self.L.off("_pdc_id_info", "obj_ptr"))] = path.extra["alive"][v]
                return reg(("INFO", v))
            if 500 <= v < 500 + len(self.reqs):
                tgt = reg(self.okey(v - 500))
            elif 600 <= v < 600 + len(self.reqs):
                tgt = reg("LR%d" % (v - 600))
            elif 700 <= v < 700 + len(self.reqs):
                tgt = reg("RR%d" % (v - 700))
            else:
                return c(0)
            path.mem[(("reg", ("INFO", v)), self.L.off("_pdc_id_info", "obj_ptr"))] = tgt
            return reg(("INFO", v))
        if f == "PDC_id_register":
            al = dict(path.extra["alive"])
            k = path.extra.get("creating", 0)
            al[BASE_ID + k] = a[1]
            self.upd(path, alive=al)
            return c(BASE_ID + k)
        if f == "PDC_dec_ref":
            v = a[0].const()
            al = dict(path.extra["alive"])
            if v not in al:
                self.complain(path, "an id is dropped that is not registered")
                return c(-1)
            del al[v]
            self.upd(path, alive=al, log=path.extra["log"] + (("drop", v),))
            return c(0)
        if f == "PDC_get_var_type_size":
            return c(UNIT)
        if f == "PDC_get_client_data_server":
            return c(1)
        if f == "qsort":
            self.sort(a, path)
            return c(0)
        if f == "PDC_Client_transfer_request":
            nd = a[5].const()
            off = tuple(self.num_at(a[6], j, path) for j in range(nd))
            size = tuple(self.num_at(a[7], j, path) for j in range(nd))
            mid = self.send(path, a[2].const(), a[9].const() == self.num["PDC_WRITE"], a[0], None, a[1].const(), off, size)
            I.store(a[10], c(mid), path)
            return c(0)
        if f == "PDC_Client_transfer_request_all":
            n, write, server = a[0].const(), a[1].const() == self.num["PDC_WRITE"], a[2].const()
            p = a[3]
            heads = []
            for k in range(n):
                heads.append((self.num_at(p, 0, path), self.num_at(p + c(8), 0, path, 4), self.num_at(p + c(12), 0, path, 4)))
                p = p + c(24)
            data = a[3]
            parts = []
            for obj, ond, nd in heads:
                off = tuple(self.num_at(p, j, path) for j in range(nd)); p = p + c(8 * nd)
                size = tuple(self.num_at(p, j, path) for j in range(nd)); p = p + c(8 * nd)
                p = p + c(8 * ond)
                nb = UNIT
                for s in size:
                    nb *= s
                if write:
                    parts.append((p, obj, off, size)); p = p + c(nb)
                else:
                    parts.append((data, obj, off, size)); data = data + c(nb)
            for k, (ptr, obj, off, size) in enumerate(parts):
                mid = self.send(path, server, write, ptr, None, obj, off, size)
                I.store(a[5] + c(8 * k), c(mid), path)
            return c(0)
        if f == "PDC_Client_transfer_request_wait":
            self.arrive(path, self.cst(a[0]), a[1].const())
            return c(0)
        if f == "PDC_Client_transfer_request_wait_all":
            for k in range(a[0].const()):
                self.arrive(path, self.num_at(a[1], k, path), a[2].const())
            return c(0)
        if f == "PDC_Client_transfer_request_status":
            mid = self.cst(a[0])
            if mid in path.extra["done"]:           # reported once, then forgotten
                I.store(a[2], c(self.num["PDC_TRANSFER_STATUS_NOT_FOUND"]), path)
                return c(0)
            q = path.copy()
            I.store(a[2], c(self.num["PDC_TRANSFER_STATUS_PENDING"]), q)
            f_ = path.extra["fly"].get(mid)
            if f_ is None or f_[0] != a[1].const():
                self.complain(path, "the status of a part is asked for that is not in flight at that server")
                return c(0)
            if not f_[1]:
                for i, (co, _) in enumerate(self.part_cells(self.owner(f_[6], f_[4]), f_[4], f_[5])):
                    path.mem[(f_[2], f_[3] + UNIT * i)] = Poly.a(("remote", co))
            self.upd(path, done=path.extra["done"] + (mid,))
            I.store(a[2], c(self.num["PDC_TRANSFER_STATUS_COMPLETE"]), path)
            return [(c(0), path), (c(0), q)]
        if f == "PDC_Client_transfer_request_metadata_query":
            # which requests are asked for, in the order the message lists them
            n = a[2].const()
            p = a[0]
            want = []
            for k in range(n):
                obj = self.num_at(p, 0, path); p = p + c(8 + 4 + 1)
                nd = self.num_at(p, 0, path, 4); p = p + c(4 + 8)
                off = tuple(self.num_at(p, j, path) for j in range(nd)); p = p + c(8 * nd)
                p = p + c(8 * nd)
                want.append(self.owner(obj, off))
            if any(w is None or self.reqs[w].mserver != a[3].const() for w in want):
                self.complain(path, "a region's parts are asked for at another metadata server than its own")
            size = 4 + sum(4 + len(self.reqs[w].plan) * (4 + 16 * len(self.reqs[w].off)) for w in want if w is not None)
            qid = path.extra["mid"]
            self.upd(path, mid=qid + 1, query=(qid, tuple(want), a[3].const(), size))
            I.store(a[5], c(size), path); I.store(a[6], c(qid), path)
            return c(0)
        if f == "PDC_Client_transfer_request_metadata_query2":
            qid, want, server, size = path.extra.get("query", (None, (), None, 0))
            if a[2].const() != qid or a[3].const() != server or a[1].const() != size:
                self.complain(path, "the answer to another query is fetched")
            p = a[0]
            I.store(p, c(sum(len(self.reqs[w].plan) for w in want)), path); p = p + c(4)
            for w in want:
                R = self.reqs[w]
                I.store(p, c(len(R.plan)), path); p = p + c(4)
                for sv, off, sz in R.plan:
                    I.store(p, c(sv), path); p = p + c(4)
                    for v in tuple(off) + tuple(sz):
                        I.store(p, c(v), path); p = p + c(8)
            return c(0)
        if f in ("free", "PDC_free") and self.I.split(a[0])[0] is not None:
            r = self.I.split(a[0])[0]
            for mid, fl in path.extra["fly"].items():
                if fl[2] == r and mid not in path.extra["done"]:
                    self.complain(path, "%s: a buffer is released while a server may still use it" % x.loc())
            if isinstance(r[1], tuple) and r[1][0] == "USER":
                self.complain(path, "%s: the user's buffer is released" % x.loc())
        if f == "realloc" and a[1].const() is not None:
            r, o = Interp.split(a[0])
            if r is None:
                return None
            if r in path.freed:
                self.complain(path, "%s: released memory is resized" % x.loc())
            n = I.alloc(path, "realloc", a[1])
            nr, _ = Interp.split(n)
            for (rr, k), v in list(path.mem.items()):
                if rr == r and k < a[1].const():
                    path.mem[(nr, k)] = v
            I.release(a[0], path)
            return n if a[1].const() else c(0)
        return None

    def cst(self, p):
        v = p.const()
        if v is None:
            raise AnalysisBroken("a server call names an undetermined part")
        return v

    def sort(self, a, path):
        n, w = a[1].const(), a[2].const()
        if n is None or w != 8:
            raise AnalysisBroken("sorting an undetermined array")
        r, _ = Interp.split(a[3])
        name = r[1][1] if r is not None and isinstance(r[1], tuple) else \
            next((m[0][1] for m in a[3].t if m and m[0][0] == "fl"), None)
        fn = self.P.fns.get(name)
        if fn is None:
            raise AnalysisBroken("sorting by an unknown order")
        vals = [self.I.load(a[0] + c(8 * i), path) for i in range(n)]
        t = path.copy()
        A, B = reg("CMPA"), reg("CMPB")

        def less(u, v):
            t.mem[(("reg", "CMPA"), 0)] = u; t.mem[(("reg", "CMPB"), 0)] = v
            o = self.I._call(fn, [A, B], t.copy(), 1)
            k = o[0][0].const()
            if len(o) != 1 or k is None:
                raise AnalysisBroken("the sort order of requests is not determined")
            return k
        out = []
        for v in vals:
            i = len(out)
            while i and less(out[i - 1], v) > 0:
                i -= 1
            out.insert(i, v)
        for i, v in enumerate(out):
            self.I.store(a[0] + c(8 * i), v, path)

    # ---- one call and its contract
    def pend(self, path, o):
        """the object's pending list"""
        g = lambda p, f: self.L.get(path, self.I, p, "_pdc_obj_info", f)
        cur = g(reg(o), "local_transfer_request_head")
        size = g(reg(o), "local_transfer_request_size").const()
        end = g(reg(o), "local_transfer_request_end")
        st = "pdc_local_transfer_request"
        out, last = [], None
        while cur.const() != 0:
            r, off = Interp.split(cur)
            if r is None or len(out) > 6:
                return "the object's pending list is damaged"
            if r in path.freed:
                return "a released entry stays on the object's pending list"
            out.append(self.L.get(path, self.I, cur, st, "local_id").const())
            last = cur
            cur = self.L.get(path, self.I, cur, st, "next")
        if size != len(out):
            return "the object counts %s pending requests but lists %d" % (size, len(out))
        if out and end != last:
            return "the end of the object's pending list is wrong"
        return out

    def call(self, op, k, path, model):
        """run one call; [(path, model, complaint)]"""
        P, I = self.P, self.I
        n = len(self.reqs)
        p = path.copy()
        p.events = []; p.facts = {}
        self.upd(p, log=(), creating=k if isinstance(k, int) else 0)
        ids = lambda ks: [BASE_ID + i if i < n else 4711 for i in ks]
        st = dict(model)
        wr = lambda i: i < n and self.reqs[i].write
        # a read is expected to change the user's buffer: forget what it held
        if op in ("start", "start_all"):
            for i in (k if isinstance(k, tuple) else (k,)):
                if i < n and st.get(i) in ("idle",):
                    for key in [q for q in p.mem if q[0] == ("reg", ("USER", i))]:
                        del p.mem[key]
        if op == "create":
            args = [reg(("USER", k)), c(self.num["PDC_WRITE" if self.reqs[k].write else "PDC_READ"]),
                    c(500 + (0 if self.same else k)), c(600 + k), c(700 + k)]
            fn = "PDCregion_transfer_create"
        elif op in ("start", "wait", "close"):
            fn = "PDCregion_transfer_" + op
            args = [c(ids([k])[0])]
        elif op == "status":
            fn = "PDCregion_transfer_status"
            p.mem[(("reg", "STAT"), 0)] = c(self.num["PDC_TRANSFER_STATUS_COMPLETE"])
            args = [c(ids([k])[0]), reg("STAT")]
        elif op in ("start_all", "wait_all"):
            fn = "PDCregion_transfer_" + op
            for i, v in enumerate(ids(k)):
                p.mem[(("reg", "IDS"), 8 * i)] = c(v)
            args = [reg("IDS"), c(len(k))]
        elif op == "objclose":
            fn = "PDC_obj_close"
            args = [reg(self.okey(k))]
        p.nreg += 1
        out = []
        for rv, q in I.run_ended(P.fn(fn), args, p):
            m, bad = self.judge(op, k, q, dict(st), rv)
            out.append((q, m, bad))
        return out

    def judge(self, op, k, q, st, rv):
        n = len(self.reqs)
        ex = q.extra
        if ex["bad"] and not ex.get("failed"):
            return st, ex["bad"]
        for e in q.events:
            if e[0] == "endless":
                return st, "%s: %s does not end" % (e[2].loc(), e[1])
            if e[0] in ("uaf", "badfree"):
                return st, "%s: memory is %s after it was released" % (e[2].loc(), "used" if e[0] == "uaf" else "released again")
            if e[0] == "oob" and not self.fail:
                return st, "%s: bytes %d..%d of a block of %d bytes allocated by %s are accessed" % (
                    e[4].loc(), e[2], e[2] + e[3] - 1, q.size[e[1]], e[1][1][1])
            if e[0] == "uninit" and not self.fail:
                return st, "%s: memory allocated by %s is used before it is set" % (e[3].loc(), e[1][1][1])
        sends = [e for e in ex["log"] if e[0] == "send"]
        waits = [e for e in ex["log"] if e[0] == "wait"]
        drops = [e[1] for e in ex["log"] if e[0] == "drop"]
        ok = rv is not None and rv.const() == 0
        if ex.get("failed"):
            if ok and op not in ("objclose", "close"):
                return st, "the call succeeds although %s failed" % ex["failed"]
            if op == "status" and self.I.load(reg("STAT"), q).const() == self.num["PDC_TRANSFER_STATUS_COMPLETE"]:
                return st, "a transfer is reported complete although its server was not reached"
            return dict(st, dead="dead"), None
        ks = k if isinstance(k, tuple) else (k,)
        known = [i for i in ks if st.get(i) in ("idle", "started")]
        new = dict(st)
        started, completed, dropped, want_ok = [], [], [], True
        if op == "create":
            new[k] = "idle"
            if rv is None or rv.const() != BASE_ID + k:
                return st, "creating a request does not return its id"
            want_ok = None
        elif op in ("start", "start_all"):
            if len(known) != len(ks) or any(st[i] == "started" for i in known):
                want_ok = False
            else:
                for i in ks:
                    started.append(i)
                    new[i] = "idle" if self.reqs[i].posix else "started"
        elif op == "wait":
            if not known:
                want_ok = False
            elif st[k] == "started":
                completed.append(k); new[k] = "idle"
        elif op == "wait_all":
            if len(known) != len(ks) or any(st[i] != "started" for i in known):
                want_ok = False
            else:
                for i in ks:
                    completed.append(i); new[i] = "idle"
        elif op == "close":
            if known:
                if st[k] == "started":
                    completed.append(k)
                new[k] = "gone"; dropped.append(k)
        elif op == "objclose":
            for i in range(n):
                if self.okey(i) == self.okey(k) and st.get(i) == "started":
                    completed.append(i); dropped.append(i); new[i] = "gone"
            want_ok = None
        elif op == "status":
            s = self.I.load(reg("STAT"), q).const()
            if not known:
                want_ok = False
            elif st[k] == "idle":
                if s != self.num["PDC_TRANSFER_STATUS_NOT_FOUND"]:
                    return st, "a request that is not in progress has a status"
            elif s == self.num["PDC_TRANSFER_STATUS_COMPLETE"]:
                parts = [m for m, f in ex["fly"].items() if self.owner(f[6], f[4]) == k]
                if any(m not in ex["done"] for m in parts):
                    return st, "a transfer is reported complete while a part is still under way"
                fly = {m: f for m, f in ex["fly"].items() if m not in parts}
                self.upd(q, fly=fly)
                ex = q.extra
                completed.append(k); new[k] = "idle"
                waits = [("wait", m, None) for m in parts]
            elif s != self.num["PDC_TRANSFER_STATUS_PENDING"]:
                return st, "the status of a started request is not reported"
        if want_ok is not None and ok != want_ok:
            return st, "the call %s" % ("fails" if want_ok else "succeeds")
        # parts sent
        for i in range(n):
            mine = [e for e in sends if self.owner(e[6], e[4]) == i]
            want = sorted(self.reqs[i].parts()) if i in started else []
            if sorted((e[2], e[4], e[5]) for e in mine) != want or any(e[3] != self.reqs[i].write for e in mine):
                return st, "the parts sent are not exactly those of the request%s" % ("s started" if started else
                                                                                    ": nothing may be sent")
        if len(sends) != sum(len(self.reqs[i].parts()) for i in started):
            return st, "something else than the request's parts is sent"
        # parts in flight
        for i in range(n):
            fly = [m for m, f in ex["fly"].items() if self.owner(f[6], f[4]) == i]
            if (new.get(i) == "started") != bool(fly) and not (new.get(i) == "started" and not self.reqs[i].parts()):
                return st, "a part of a completed request is still in flight" if fly else "a part is missing"
        # the parts' buffers stay valid
        for m, f in ex["fly"].items():
            if f[2] in q.freed:
                return st, "a buffer is released while a server may still use it"
        # ids
        for i in range(n):
            if (BASE_ID + i in ex["alive"]) != (new.get(i) in ("idle", "started")):
                return st, "the id of a request is %s" % ("still registered after the close" if new.get(i) == "gone"
                                                         else "not registered")
        if sorted(drops) != sorted(BASE_ID + i for i in dropped):
            return st, "the wrong ids are dropped"
        # pending lists
        for o in sorted({self.okey(i) for i in range(n)}):
            if ("reg", o) in q.freed:
                continue
            l = self.pend(q, o)
            if isinstance(l, str):
                return st, l
            if sorted(l) != sorted(BASE_ID + i for i in range(n) if new.get(i) == "started" and self.okey(i) == o):
                return st, "the object's pending list does not hold exactly the requests in progress"
        # started exactly while it has part ids
        for i in range(n):
            ptr = ex["alive"].get(BASE_ID + i)
            if ptr is not None:
                md = self.L.get(q, self.I, ptr, "pdc_transfer_request", "metadata_id")
                if (md.const() == 0) == (new[i] == "started"):
                    return st, "a request %s" % ("in progress looks like one that is not" if new[i] == "started"
                                                 else "that is not in progress looks started")
        # data of reads
        for i in completed + [s for s in started if self.reqs[s].posix]:
            R = self.reqs[i]
            if R.write:
                continue
            got = set()
            for sv, off, sz in R.parts():
                got |= {co for co, _ in self.part_cells(i, off, sz)}
            for co, pos in R.elems():
                if co in got and self.I.load(reg(("USER", i)) + c(UNIT * pos), q) != Poly.a(("remote", co)):
                    return st, "the data read does not reach the user's buffer at its place"
        # nothing is leaked: with nothing in progress only the requests themselves remain
        live = set(q.extra.get("live", ())) | {Interp.split(e[1])[0] for e in q.events if e[0] == "alloc"}
        live = {r for r in live if r not in q.freed}
        self.upd(q, live=frozenset(live))
        if not any(s == "started" for s in new.values()):
            n_open = sum(1 for s in new.values() if s == "idle")
            if len(live) > 2 * n_open:
                names = sorted({"%s" % r[1][1] for r in live})
                return st, "memory is not released: %d blocks remain, allocated by %s" % (len(live), ", ".join(names))
        return new, None


def explore(args):
    """all call sequences of a configuration up to a length"""
    name, reqs, same, ops, depth = args
    P = ir.program("client")
    W = World(P, reqs, same, name.startswith("failing"))
    bad = {}
    stats = {"calls": 0, "states": 0}
    seen = set()

    def key(path, model):
        mem = tuple(sorted(((repr(k), repr(v.key())) for k, v in path.mem.items() if k[0] not in path.freed and
                            k[0][1] not in ("CMPA", "CMPB", "STAT", "IDS")), key=str))
        return (tuple(sorted(model.items())), hash(mem), tuple(sorted(path.extra["fly"])), path.extra["done"])
    try:
        p = W.start()
        model = {}
        cur = [(p, model, ())]
        for k in range(len(reqs)):
            nx = []
            for p, m, tr in cur:
                for q, m2, b in W.call("create", k, p, m):
                    stats["calls"] += 1
                    if b:
                        bad.setdefault(("create", b), tr + ("create",))
                    else:
                        nx.append((q, m2, tr))
            cur = nx
        for d in range(depth):
            nx = []
            for p, m, tr in cur:
                for op, k in ops:
                    t = tr + ("%s(%s)" % (op, ",".join("AB?"[i] for i in (k if isinstance(k, tuple) else (k,)))),)
                    for q, m2, b in W.call(op, k, p, m):
                        stats["calls"] += 1
                        if b:
                            bad.setdefault((op, b), t)
                        elif op != "objclose" and "dead" not in m2:
                            kk = key(q, m2)
                            if (kk, depth - d) not in seen:
                                seen.add((kk, depth - d))
                                nx.append((q, m2, t))
            stats["states"] += len(nx)
            cur = nx
        # however it went, closing everything leaves nothing behind
        for p, m, tr in cur:
            todo = [(p, m, tr)]
            for k in range(len(reqs)):
                nt = []
                for p1, m1, t1 in todo:
                    for q, m2, b in W.call("close", k, p1, m1):
                        stats["calls"] += 1
                        if b:
                            bad.setdefault(("close", b), t1 + ("close(%s)" % "AB"[k],))
                        else:
                            nt.append((q, m2, t1 + ("close(%s)" % "AB"[k],)))
                todo = nt
        return name, bad, stats, None
    except AnalysisBroken as e:
        return name, bad, stats, str(e)


def configs(deep):
    D1, D2 = (9,), (9, 2)
    one = [(op, 0) for op in ("start", "wait", "status", "close")] + [("start_all", (0,)), ("wait_all", (0,)), ("objclose", 0)]
    out = []
    planA = [(2, (2,), (2,)), (0, (1,), (1,))]
    planB = [(0, (5,), (3,))]
    up = lambda pl: [(s, o + (0,), z + (2,)) for s, o, z in pl]
    for part in ("STATIC", "OBJ", "DYN", "LOCAL"):
        for write in (False, True):
            for posix in (False, True):
                for dims in (D1, D2):
                    two = len(dims) == 2
                    R = Req(part, write, posix, (1, 0) if two else (1,), (3, 2) if two else (3,), (1, 0) if two else (2,),
                            dims, up(planA) if two else planA)
                    out.append(("%s %s%s %dD" % (part, "write" if write else "read", " posix" if posix else "", len(dims)),
                                [R], True, one, 4 if deep else 3))
    for write in (False, True):
        out.append(("STATIC %s in one share" % ("write" if write else "read"),
                    [Req("STATIC", write, False, (0,), (2,), (1,), D1)], True, one, 3))
    for write in (False,):
        for part in ("DYN", "LOCAL"):
            R = Req(part, write, False, (1,), (3,), (2,), D1, [])
            out.append(("%s read of nothing stored" % part, [R], True, one, 3))
    A = lambda part, w, ms=0, plan=planA, posix=False: Req(part, w, posix, (1,), (3,), (2,), D1, plan, ms)
    B = lambda part, w, ms=0, plan=planB, posix=False: Req(part, w, posix, (5,), (3,), (0,), D1, plan, ms)
    ops2 = [("start", 0), ("start", 1), ("start_all", (0, 1)), ("start_all", (1, 0)), ("start_all", (0, 2)), ("wait", 0), ("wait", 1),
            ("wait_all", (0, 1)), ("wait_all", (1, 0)), ("wait_all", (2, 1)), ("status", 0), ("status", 1), ("close", 0), ("close", 1),
            ("objclose", 0)]
    pairs = [("STATIC", False, "STATIC", False), ("STATIC", True, "STATIC", True), ("OBJ", True, "OBJ", True),
             ("DYN", True, "DYN", True), ("LOCAL", False, "LOCAL", False), ("OBJ", False, "OBJ", True), ("DYN", False, "DYN", True)]
    for pa, wa, pb, wb in pairs:
        out.append(("%s %s + %s %s, one object" % (pa, "write" if wa else "read", pb, "write" if wb else "read"),
                    [A(pa, wa), B(pb, wb)], True, ops2, 3 if deep else 2))
    mixed = [("STATIC", False, "OBJ", False, 0, 0), ("DYN", True, "STATIC", True, 0, 0), ("DYN", True, "DYN", True, 1, 0),
             ("DYN", False, "LOCAL", False, 1, 0)]
    for pa, wa, pb, wb, ma, mb in mixed:
        out.append(("%s %s + %s %s, two objects" % (pa, "write" if wa else "read", pb, "write" if wb else "read"),
                    [A(pa, wa, ma), B(pb, wb, mb)], False, ops2, 3 if deep else 2))
    for pl, pr in (([], planB), (planA, [])):
        out.append(("DYN read + DYN read, %s not stored" % ("first" if not pl else "second"),
                    [A("DYN", False, 0, pl), B("DYN", False, 0, pr)], True, ops2, 2))
        out.append(("DYN read + DYN read, two metadata servers, %s not stored" % ("first" if not pl else "second"),
                    [A("DYN", False, 0, pl), B("DYN", False, 1, pr)], False, ops2, 2))
    for pa, wa in (("STATIC", True), ("STATIC", False), ("OBJ", True), ("OBJ", False), ("DYN", True), ("LOCAL", False)):
        out.append(("failing servers, %s %s" % (pa, "write" if wa else "read"), [A(pa, wa)], True, one, 2))
    out.append(("failing servers, two requests", [A("STATIC", True), B("DYN", True)], False,
                [("start_all", (0, 1)), ("wait_all", (0, 1)), ("wait_all", (1, 0))], 2))
    out.append(("posix write + plain write, two objects", [A("STATIC", True, posix=True), B("STATIC", True)], False, ops2, 2))
    return out


def run():
    chk = Check(PID, "after every call of every bounded call sequence: exactly the parts of the requests in progress are "
                "in flight, their buffers are alive, the object's pending list holds exactly them, nothing is used or "
                "released after its release, nothing remains when nothing is in progress, and the data is in place")
    P = ir.program("client")
    for f in OPS:
        P.fn(f)
    deep = chk.tier == "thorough"
    cf = configs(deep)
    chk.analysed = {"configurations": len(cf), "servers": NSRV, "calls per sequence": 4 if deep else 3, "operations": list(OPS)}
    chk.assumptions += ["the server completes every part it accepted", "data servers and metadata servers answer as the message "
                        "layouts of P01/W01 say", "sequential client"]
    jobs = min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs) as pool:
        res = pool.map(explore, cf, chunksize=1)
    for name, bad, st, broken in res:
        for k, v in st.items():
            chk.count(k, v)
        chk.count("configurations")
        if broken:
            chk.broken.append("%s: %s" % (name, broken))
        chk.oblige(not bad, "life:%s" % (sorted(bad)[0][0] if bad else name), "%s: %s" % (name, "; ".join(
            "after %s: %s" % (" ".join(t), w) for (op, w), t in sorted(bad.items())[:3])), name)
    chk.floor("configurations", 30)
    chk.floor("calls", 2000)
    return chk.finish("The request operations were abstractly interpreted for every sequence of calls of a client with one or "
                      "two requests, per partition, direction, consistency and dimension; sizes are fixed per "
                      "configuration, buffer contents and server answers are not.")
