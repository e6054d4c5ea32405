"""T02: the server's side of a transfer.  The handlers of the region transfer RPCs and their bulk callbacks are abstractly
interpreted under the most general environment of a bounded number of requests: submissions, completions of pending bulk
transfers, waits and status queries in every order.  What reaches the storage, what is answered and when, the life of every
handle, bulk handle, input and block, and the request list are compared with the contract."""
import os
import multiprocessing as mp
import ir
from report import Check
from absint import Interp, Path, reg
from sym import Poly
from copies import Layout
from frontend import AnalysisBroken

PID = "T02"
c = Poly.c
UNIT = 4
CLIENT_BULK = 77000
HANDLERS = {"transfer": "transfer_request_cb", "all": "transfer_request_all_cb", "status": "transfer_request_status_cb",
            "wait": "transfer_request_wait_cb", "wait_all": "transfer_request_wait_all_cb",
            "query": "transfer_request_metadata_query_cb", "query2": "transfer_request_metadata_query2_cb"}
INT = {"transfer": "transfer_request_in_t", "all": "transfer_request_all_in_t", "status": "transfer_request_status_in_t",
       "wait": "transfer_request_wait_in_t", "wait_all": "transfer_request_wait_all_in_t",
       "query": "transfer_request_metadata_query_in_t", "query2": "transfer_request_metadata_query2_in_t"}
OUTT = {k: v.replace("_in_t", "_out_t") for k, v in INT.items()}
LOCKS = ("transfer_request_status_mutex", "transfer_request_id_mutex")


class Part:
    def __init__(self, obj, off, size, dims, objdim=None):
        self.obj = obj; self.off = off; self.size = size; self.dims = dims

    def n(self):
        k = 1
        for s in self.size:
            k *= s
        return k


class Msg:
    """a request sent to the server"""

    def __init__(self, kind, write=False, parts=(), ids=(), n=0):
        self.kind = kind; self.write = write; self.parts = parts; self.ids = ids; self.n = n

    def name(self):
        if self.kind in ("transfer", "all"):
            return "%s%s" % ("write" if self.write else "read", "_all(%d)" % len(self.parts) if self.kind == "all" else "")
        return "%s(%s)" % (self.kind, ",".join(str(i) for i in self.ids))

    def buffer(self, h):
        """cells of the client's buffer as PDC_Client_pack_all_requests lays it out, or the id list, or opaque bytes"""
        out = {}
        if self.kind == "transfer":
            for i in range(self.parts[0].n()):
                out[UNIT * i] = Poly.a(("msg", h, 0, i))
            return out, UNIT * self.parts[0].n()
        if self.kind == "wait_all":
            for i, v in enumerate(self.ids):
                out[8 * i] = c(v)
            return out, 8 * len(self.ids)
        if self.kind in ("query", "query2"):
            for i in range(self.n):
                out[4 * i] = Poly.a(("msg", h, 0, i))
            return out, 4 * self.n
        o = 0
        for p in self.parts:
            out[o] = c(p.obj); out[o + 8] = c(len(p.dims)); out[o + 12] = c(len(p.off)); out[o + 16] = c(UNIT)
            o += 24
        for k, p in enumerate(self.parts):
            for v in tuple(p.off) + tuple(p.size) + tuple(p.dims):
                out[o] = c(v); o += 8
            if self.write:
                for i in range(p.n()):
                    out[o] = Poly.a(("msg", h, k, i)); o += UNIT
        if not self.write:
            o = max(o, sum(UNIT * p.n() for p in self.parts))
        return out, o


class World:
    def __init__(self, P):
        self.P = P; self.L = Layout(P)
        self.num = {}
        for m in P.enums.values():
            self.num.update(m)
        self.st = {s: self.num["PDC_TRANSFER_STATUS_" + s] for s in ("PENDING", "COMPLETE", "NOT_FOUND")}
        self.I = Interp(P, ext=self.ext, no_summary=True, max_paths=400, max_steps=10 ** 9)

    def start(self):
        p = Path()
        p.extra = {"log": (), "bad": None, "msgs": (), "pend": (), "bulk": {}, "ids": {}, "owner": {}, "locks": (), "hs": {},
                   "cur": None, "query": {}, "qbuf": {}, "live": frozenset(), "nid": None}
        out = self.I.run(self.P.fn("PDC_server_transfer_request_init"), [], p)
        if len(out) != 1:
            raise AnalysisBroken("server initialisation splits")
        return out[0][1]

    def upd(self, path, **kw):
        e = dict(path.extra); e.update(kw); path.extra = e

    def complain(self, path, what):
        if path.extra["bad"] is None:
            self.upd(path, bad=what)

    def put(self, d, k, v):
        d = dict(d); d[k] = v
        return d

    def hnum(self, p, path, what):
        r, o = Interp.split(p)
        if r is None or o.const() != 0 or not (isinstance(r[1], tuple) and r[1][0] == "H"):
            self.complain(path, "%s is applied to something that is no RPC handle" % what)
            return None
        h = r[1][1]
        if path.extra["hs"][h].get("destroyed"):
            self.complain(path, "%s: an RPC handle is used by %s after it was destroyed" % (self.at(), what))
            return None
        return h

    def at(self):
        return self.I.here.loc() if self.I.here is not None else "?"

    # ---- Mercury, pthread and storage
    def ext(self, f, a, path, x):
        I, L = self.I, self.L
        if f == "HG_Get_input":
            h = self.hnum(a[0], path, f)
            if h is None:
                return c(-1)
            m = path.extra["msgs"][h]
            self.input(path, a[1], h, m)
            self.hset(path, h, inputs=path.extra["hs"][h]["inputs"] + 1)
            return c(0)
        if f == "HG_Get_info":
            h = self.hnum(a[0], path, f)
            n = ("INFO", h)
            L.put(path, n, "hg_info", hg_class=Poly.a(("class",)), context=Poly.a(("context",)), addr=Poly.a(("addr", h)))
            return reg(n)
        if f == "HG_Free_input":
            h = self.hnum(a[0], path, f)
            if h is not None:
                k = path.extra["hs"][h]["inputs"] - 1
                if k < 0:
                    self.complain(path, "%s: an input is released twice" % x.loc())
                v = I.load(a[1] + c(self.L.off(INT[path.extra["msgs"][h].kind], "local_bulk_handle")), path) \
                    if "local_bulk_handle" in L.fields(INT[path.extra["msgs"][h].kind]) else None
                if v is not None and v != self.cbulk(h):
                    self.complain(path, "%s: what is released is not the input of the RPC" % x.loc())
                self.hset(path, h, inputs=k)
            return c(0)
        if f == "HG_Respond":
            h = self.hnum(a[0], path, f)
            if h is not None:
                self.respond(path, h, a[3], x)
            return c(0)
        if f == "HG_Destroy":
            h = self.hnum(a[0], path, f)
            if h is not None:
                s = path.extra["hs"][h]
                if not s["answers"]:
                    self.complain(path, "%s: an RPC handle is destroyed before it is answered" % x.loc())
                if s["inputs"]:
                    self.complain(path, "%s: an RPC handle is destroyed before its input is released" % x.loc())
                self.hset(path, h, destroyed=True)
            return c(0)
        if f == "HG_Bulk_create":
            if a[1].const() != 1:
                raise AnalysisBroken("a bulk handle over several buffers")
            path.nreg += 1
            b = ("BULK", path.nreg)
            self.upd(path, bulk=self.put(path.extra["bulk"], b, (I.load(a[2], path), I.load(a[3], path), False)))
            I.store(a[5], reg(b), path)
            return c(0)
        if f == "HG_Bulk_free":
            b = self.bulk(a[0], path, x)
            if b:
                v = path.extra["bulk"][b]
                if any(p["local"] == b for p in path.extra["pend"]):
                    self.complain(path, "%s: a bulk handle is released while its transfer is under way" % x.loc())
                self.upd(path, bulk=self.put(path.extra["bulk"], b, (v[0], v[1], True)))
            return c(0)
        if f == "HG_Bulk_transfer":
            return self.transfer(a, path, x)
        if f in ("pthread_mutex_lock", "pthread_mutex_unlock"):
            r, _ = Interp.split(a[0])
            n = r[1][1].split("#")[0] if r is not None and isinstance(r[1], tuple) else None
            held = path.extra["locks"]
            if f.endswith("_lock"):
                if n in held:
                    self.complain(path, "%s: %s is locked while it is held" % (x.loc(), n))
                self.upd(path, locks=held + (n,))
            else:
                if n not in held:
                    self.complain(path, "%s: %s is released while it is not held" % (x.loc(), n))
                self.upd(path, locks=tuple(k for k in held if k != n))
            return c(0)
        if f in ("pthread_mutex_init", "pthread_mutex_destroy", "hg_thread_mutex_init"):
            return c(0)
        if f in ("PDC_commit_request", "PDC_finish_request", "PDC_check_request", "PDC_try_finish_request"):
            if LOCKS[0] not in path.extra["locks"]:
                self.complain(path, "%s: the list of requests is used by %s without its lock" % (x.loc(), f))
            return None
        if f == "PDC_transfer_request_id_register":
            if LOCKS[1] not in path.extra["locks"]:
                self.complain(path, "%s: an id is drawn without its lock" % x.loc())
            return None
        if f in ("PDC_transfer_request_data_write_out", "PDC_transfer_request_data_read_from"):
            self.io(path, f.endswith("write_out"), a, x)
            return c(0)
        if f == "transfer_request_metadata_query_parse":
            cur = path.extra["cur"]
            h, m = cur[1], path.extra["msgs"][cur[1]]
            if m.kind != "query" or a[0].const() != m.ids[0] or (a[2].const() != 0) != m.write:
                self.complain(path, "%s: another query than the one received is looked up" % x.loc())
            buf, n = m.buffer(h)
            if any(I.load(a[1] + c(o), path) != v for o, v in buf.items()):
                self.complain(path, "%s: the query looked up is not the one received" % x.loc())
            q = 300 + h
            I.store(a[3], c(60 + h), path)
            self.upd(path, query=self.put(path.extra["query"], h, (q, 60 + h)))
            return c(q)
        if f == "transfer_request_metadata_query_lookup_query_buf":
            h = path.extra["cur"][1]
            m = path.extra["msgs"][h]
            if a[0].const() != m.ids[0]:
                self.complain(path, "%s: the answer of another query is taken" % x.loc())
            buf, n = m.buffer(h)
            p = I.alloc(path, "the query's answer", c(n))
            for o, v in buf.items():
                path.mem[(Interp.split(p)[0], o)] = v
            self.upd(path, qbuf=self.put(path.extra["qbuf"], h, p))
            I.store(a[1], p, path)
            return c(n)
        return None

    def hset(self, path, h, **kw):
        s = dict(path.extra["hs"][h]); s.update(kw)
        self.upd(path, hs=self.put(path.extra["hs"], h, s))

    def cbulk(self, h):
        return c(CLIENT_BULK + h)

    def input(self, path, ptr, h, m):
        I, f = self.I, self.L.fields(INT[m.kind])
        w = lambda n, v: I.store(ptr + c(f[n][0]), v, path)
        _, n = m.buffer(h)
        if "local_bulk_handle" in f:
            w("local_bulk_handle", self.cbulk(h))
        if "total_buf_size" in f:
            w("total_buf_size", c(n))
        if m.kind in ("transfer", "all"):
            w("access_type", c(self.num["PDC_WRITE" if m.write else "PDC_READ"]))
        if m.kind == "all":
            w("n_objs", c(len(m.parts)))
        elif m.kind in ("wait_all",):
            w("n_objs", c(len(m.ids)))
        elif m.kind == "query":
            w("n_objs", c(m.ids[0])); w("is_write", c(int(m.write)))
        elif m.kind == "query2":
            w("query_id", c(m.ids[0]))
        elif m.kind in ("wait", "status"):
            w("transfer_request_id", c(m.ids[0]))
        elif m.kind == "transfer":
            p = m.parts[0]
            w("obj_id", c(p.obj)); w("obj_ndim", c(len(p.dims))); w("remote_unit", c(UNIT))
            for j, d in enumerate(p.dims):
                w("obj_dim%d" % j, c(d))
            ro = f["remote_region"][0]
            g = self.L.fields("region_info_transfer_t")
            I.store(ptr + c(ro + g["ndim"][0]), c(len(p.off)), path)
            for j in range(len(p.off)):
                I.store(ptr + c(ro + g["start_%d" % j][0]), c(p.off[j]), path)
                I.store(ptr + c(ro + g["count_%d" % j][0]), c(p.size[j]), path)

    def bulk(self, p, path, x):
        r, o = Interp.split(p)
        if r is None or r[1] not in path.extra["bulk"]:
            self.complain(path, "%s: what is used as a bulk handle is none" % x.loc())
            return None
        if path.extra["bulk"][r[1]][2]:
            self.complain(path, "%s: a bulk handle is used after its release" % x.loc())
            return None
        return r[1]

    def transfer(self, a, path, x):
        ctx, cb, arg, op, addr, oh, oo, lh, lo, size = a[:10]
        cur = path.extra["cur"]
        h = cur[1]
        m = path.extra["msgs"][h]
        b = self.bulk(lh, path, x)
        if b is None:
            return c(-1)
        if addr != Poly.a(("addr", h)) or oh != self.cbulk(h) or ctx != Poly.a(("context",)):
            self.complain(path, "%s: a bulk transfer does not address the buffer of the client that asked" % x.loc())
        if not path.extra["hs"][h]["inputs"]:
            self.complain(path, "%s: the client's bulk handle is used after the input was released" % x.loc())
        if path.extra["hs"][h].get("destroyed"):
            self.complain(path, "%s: a bulk transfer is started on a destroyed RPC handle" % x.loc())
        if oo.const() != 0 or lo.const() != 0:
            self.complain(path, "%s: a bulk transfer does not start at the start of the buffers" % x.loc())
        _, n = m.buffer(h)
        pull = op.const() == self.num["HG_BULK_PULL"]
        want_pull = {"transfer": m.write, "all": m.write or not path.extra["hs"][h].get("pulled"), "wait_all": True, "query": True,
                     "query2": False}[m.kind]
        if pull != want_pull:
            self.complain(path, "%s: a bulk transfer goes the wrong way" % x.loc())
        want = n if pull else sum(UNIT * p.n() for p in m.parts) if m.kind in ("transfer", "all") else n
        buf, bs, _ = path.extra["bulk"][b]
        if size.const() != want or bs.const() != want:
            self.complain(path, "%s: a bulk transfer moves %s bytes of a %s-byte buffer instead of %d" % (
                x.loc(), size.const(), bs.const(), want))
        r, o = Interp.split(buf)
        if r is None or path.size.get(r) is None or o.const() != 0 or path.size[r] < want:
            self.complain(path, "%s: the buffer of a bulk transfer is smaller than the transfer" % x.loc())
        fr, _ = Interp.split(cb)
        fn = fr[1][1] if fr is not None and isinstance(fr[1], tuple) else next((k[0][1] for k in cb.t if k and k[0][0] == "fl"), None)
        if fn not in self.P.fns:
            raise AnalysisBroken("the callback of a bulk transfer is not determined")
        self.upd(path, pend=path.extra["pend"] + ({"h": h, "cb": fn, "arg": arg, "pull": pull, "local": b},))
        self.hset(path, h, moved=path.extra["hs"][h]["moved"] + 1)
        return c(0)

    def io(self, path, write, a, x):
        """one region reaches the storage"""
        I = self.I
        obj, nd, dims, rg, buf, unit = a[:6]
        h = path.extra["cur"][1]
        m = path.extra["msgs"][h]
        s = path.extra["hs"][h]
        k = s["io"]
        if m.kind not in ("transfer", "all") or write != m.write or k >= len(m.parts):
            self.complain(path, "%s: the storage is accessed for something that was not asked for" % x.loc())
            return
        if path.extra["locks"]:
            pass
        g = lambda f: self.L.get(path, I, rg, "pdc_region_info", f)
        rn = g("ndim").const()
        ds = [I.load(dims + c(8 * j), path).const() for j in range(nd.const() or 0)]
        off = [I.load(g("offset") + c(8 * j), path).const() for j in range(rn or 0)]
        sz = [I.load(g("size") + c(8 * j), path).const() for j in range(rn or 0)]
        p = m.parts[k]
        # requests of one message may be served in any order
        done = s["served"]
        cand = [i for i, p in enumerate(m.parts) if i not in done and obj.const() == p.obj and tuple(off) == tuple(p.off)
                and tuple(sz) == tuple(p.size)]
        if not cand:
            self.complain(path, "%s: object %s, offset %s, size %s is accessed, which was not asked for" % (
                x.loc(), obj.const(), off, sz))
            return
        i = cand[0]
        p = m.parts[i]
        if tuple(ds) != tuple(p.dims):
            self.complain(path, "%s: the object's dimensions are %s, not %s" % (x.loc(), list(p.dims), ds))
        if unit.const() != UNIT:
            self.complain(path, "%s: the element size is lost" % x.loc())
        if write:
            if not s.get("pulled"):
                self.complain(path, "%s: data is stored before it arrived" % x.loc())
            for e in range(p.n()):
                if I.load(buf + c(UNIT * e), path) != Poly.a(("msg", h, i, e)):
                    self.complain(path, "%s: what is stored is not the client's data of that region" % x.loc())
                    break
        else:
            I.bound(buf, UNIT * p.n(), path)
            for e in range(p.n()):
                I.store(buf + c(UNIT * e), Poly.a(("stored", h, i, e)), path)
        self.hset(path, h, io=k + 1, served=done + (i,))
        if write:
            self.finished(path, h, i)

    def finished(self, path, h, i):
        """the i-th region of message h is complete"""
        v = path.extra["hs"][h].get("first")
        ids = {k: s for k, s in path.extra["ids"].items()}
        for idv, (hh, ii, s) in list(ids.items()):
            if hh == h and ii == i:
                ids[idv] = (hh, ii, "complete")
        self.upd(path, ids=ids, fin=path.extra.get("fin", ()) + ((h, i),))

    def respond(self, path, h, out, x):
        I, m, s = self.I, path.extra["msgs"][h], path.extra["hs"][h]
        if s["answers"]:
            self.complain(path, "%s: an RPC is answered twice" % x.loc())
        self.hset(path, h, answers=s["answers"] + 1)
        g = lambda f: self.L.get(path, I, out, OUTT[m.kind], f).const()
        if g("ret") != 1:
            self.complain(path, "%s: an answer is sent without its return code" % x.loc())
        ids = dict(path.extra["ids"])
        if m.kind in ("transfer", "all"):
            v = g("metadata_id")
            n = len(m.parts)
            if v is None or v <= 0 or any(v + i in ids for i in range(n)):
                self.complain(path, "%s: the id answered is no new id" % x.loc())
                return
            for i in range(n):
                ids[v + i] = (h, i, "complete" if (h, i) in path.extra.get("fin", ()) else "pending")
            self.hset(path, h, first=v)
            self.upd(path, ids=ids)
        elif m.kind in ("wait", "wait_all"):
            for i in m.ids:
                if ids.get(i, (0, 0, "gone"))[2] == "pending":
                    self.complain(path, "%s: a wait is answered before the transfer it waits for is complete" % x.loc())
                if i in ids:
                    ids[i] = ids[i][:2] + ("gone",)
            self.upd(path, ids=ids)
        elif m.kind == "status":
            i = m.ids[0]
            want = {"pending": "PENDING", "complete": "COMPLETE", "gone": "NOT_FOUND"}[ids.get(i, (0, 0, "gone"))[2]]
            if g("status") != self.st[want]:
                self.complain(path, "%s: the status of a transfer that is %s is answered as %s" % (
                    x.loc(), {"PENDING": "under way", "COMPLETE": "complete", "NOT_FOUND": "not known (any more)"}[want],
                    next((k for k, v in self.st.items() if v == g("status")), g("status"))))
            if i in ids and want == "COMPLETE":
                ids[i] = ids[i][:2] + ("gone",)
                self.upd(path, ids=ids)
        elif m.kind == "query":
            q = path.extra["query"].get(h)
            if q is None or g("query_id") != q[0] or g("total_buf_size") != q[1]:
                self.complain(path, "%s: the answer to a metadata query does not name its result" % x.loc())
        elif m.kind == "query2":
            if not s.get("pushed"):
                self.complain(path, "%s: a metadata query is answered before its result was sent" % x.loc())

    # ---- steps
    def submit(self, path, m):
        p = path.copy(); p.events = []; p.facts = {}
        h = len(p.extra["msgs"])
        self.upd(p, msgs=p.extra["msgs"] + (m,), cur=("submit", h))
        self.upd(p, hs=self.put(p.extra["hs"], h, {"inputs": 0, "answers": 0, "io": 0, "served": (), "moved": 0}))
        return [self.judge(q) for _, q in self.I.run_ended(self.P.fn(HANDLERS[m.kind]), [reg(("H", h))], p)]

    def complete(self, path, k):
        p = path.copy(); p.events = []; p.facts = {}
        e = p.extra["pend"][k]
        h = e["h"]; m = p.extra["msgs"][h]
        self.upd(p, pend=tuple(x for i, x in enumerate(p.extra["pend"]) if i != k), cur=("complete", h))
        buf, bs, freed = p.extra["bulk"][e["local"]]
        r, o = Interp.split(buf)
        if r in p.freed:
            self.complain(p, "the buffer of a bulk transfer is released while the transfer is under way")
        if e["pull"]:
            cells, n = m.buffer(h)
            for off, v in cells.items():
                p.mem[(r, off)] = v
            self.hset(p, h, pulled=True)
        else:
            if m.kind in ("transfer", "all"):
                pos = 0
                for i, pt in enumerate(m.parts):
                    for x in range(pt.n()):
                        if p.mem.get((r, pos)) != Poly.a(("stored", h, i, x)):
                            self.complain(p, "the client is sent something else than the stored data of its regions in the order "
                                             "it asked for them")
                        pos += UNIT
                for i in range(len(m.parts)):
                    self.finished(p, h, i)
            elif m.kind == "query2":
                if buf != p.extra["qbuf"].get(h):
                    self.complain(p, "the result of another query is sent")
            self.hset(p, h, pushed=True)
        self.L.put(p, ("CB", k), "hg_cb_info", arg=e["arg"], ret=c(0))
        return [self.judge(q) for _, q in self.I.run_ended(self.P.fn(e["cb"]), [reg(("CB", k))], p)]

    def judge(self, q):
        ex = q.extra
        if ex["bad"]:
            return q, ex["bad"]
        for e in q.events:
            if e[0] == "endless":
                return q, "%s: %s does not end" % (e[2].loc(), e[1])
            if e[0] in ("uaf", "badfree"):
                return q, "%s: memory is %s after it was released" % (e[2].loc(), "used" if e[0] == "uaf" else "released again")
            if e[0] == "oob":
                return q, "%s: bytes %d..%d of a block of %d bytes are accessed" % (e[4].loc(), e[2], e[2] + e[3] - 1, q.size[e[1]])
            if e[0] == "uninit":
                return q, "%s: memory allocated by %s is used before it is set" % (e[3].loc(), e[1][1][1])
        if ex["locks"]:
            return q, "a lock is still held when the handler returns"
        pend = {e["h"] for e in ex["pend"]}
        waiting = set()
        for h, s in ex["hs"].items():
            m = ex["msgs"][h]
            if m.kind in ("transfer", "all", "status", "wait"):
                if m.kind == "wait":
                    due = ex["ids"].get(m.ids[0], (0, 0, "gone"))[2] != "pending"
                else:
                    due = True
            elif m.kind == "wait_all":
                due = bool(s.get("pulled")) and all(ex["ids"].get(i, (0, 0, "gone"))[2] != "pending" for i in m.ids)
            else:
                due = h not in pend
            if m.kind in ("wait", "wait_all"):
                if due != bool(s["answers"]):
                    return q, "a wait is %s" % ("not answered although what it waits for is complete" if due else "answered too early")
                if not due:
                    waiting.add(h)
            elif due and not s["answers"]:
                return q, "an RPC is not answered"
            busy = h in pend or h in waiting
            if not busy and not s.get("destroyed"):
                return q, "the RPC handle of a finished %s is never released" % m.kind
            if not busy and s["inputs"]:
                return q, "the input of a finished %s is never released" % m.kind
            if m.kind in ("transfer", "all") and h not in pend:
                if s["io"] != len(m.parts):
                    return q, "a region of the request never reaches the storage"
                if not m.write and not s.get("pushed"):
                    return q, "the data read is never sent to the client"
        # what an outstanding wait has collected is not reported again
        ids = dict(ex["ids"])
        for h in waiting:
            if ex["msgs"][h].kind == "wait" or ex["hs"][h].get("pulled"):
                for i in ex["msgs"][h].ids:
                    if i in ids and ids[i][2] == "complete":
                        ids[i] = ids[i][:2] + ("gone",)
        self.upd(q, ids=ids)
        # nothing stays behind
        live = (set(ex["live"]) | {Interp.split(e[1])[0] for e in q.events if e[0] == "alloc"})
        live = frozenset(r for r in live if r not in q.freed)
        self.upd(q, live=live)
        if not ex["pend"] and not waiting and all(s[2] == "gone" for s in ids.values()) and live:
            return q, "memory is not released: %d blocks remain when nothing is known any more, allocated by %s" % (
                len(live), ", ".join(sorted({"%s" % r[1][1] for r in live})))
        if not ex["pend"] and any(not v[2] for v in ex["bulk"].values()):
            return q, "a bulk handle is never released"
        return q, None

    def drain(self, p, tr):
        """whatever happened: everything under way completes, every transfer is reported complete once, a further request
        is served, and nothing stays behind.  Yields (trace, complaint)"""
        todo = [(p, tr)]
        n = 0
        while todo:
            p, tr = todo.pop()
            n += 1
            if n > 200:
                raise AnalysisBroken("the requests never end")
            e = p.extra
            if e["pend"]:
                st = ("arrival of %s" % e["msgs"][e["pend"][0]["h"]].name(), lambda p=p: self.complete(p, 0))
            elif not any(m.kind == "transfer" and m.parts[0].obj == LAST.obj for m in e["msgs"]):
                m = Msg("transfer", True, (LAST,))
                st = (m.name(), lambda p=p, m=m: self.submit(p, m))
            else:
                left = [i for i, s in sorted(e["ids"].items()) if s[2] != "gone"]
                asked = [m.ids[0] for m in e["msgs"] if m.kind == "status"][-1:] == [LASTID]
                if not left and asked:
                    continue
                m = Msg("status", ids=(left[0] if left else LASTID,))
                st = (m.name(), lambda p=p, m=m: self.submit(p, m))
            for q, b in st[1]():
                if b:
                    yield tr + (st[0],), b
                else:
                    todo.append((q, tr + (st[0],)))


LAST = Part(99, (3,), (1,), (5,))
LASTID = 4712


def explore(args):
    name, subs, waits, depth = args
    P = ir.program("server")
    W = World(P)
    bad, st = {}, {"steps": 0, "states": 0, "drained": 0}
    seen = set()

    def key(p):
        mem = tuple(sorted(((repr(k), repr(v.key())) for k, v in p.mem.items() if k[0] not in p.freed and
                            k[0][1][0] in ("heap", "glob")), key=str))
        e = p.extra
        return (hash(mem), tuple(m.name() for m in e["msgs"]), tuple(sorted(e["ids"].items())), tuple((x["h"], x["cb"]) for x in e["pend"]))
    try:
        cur = [(W.start(), ())]
        for d in range(depth + 1):
            nx = []
            for p, tr in cur:
                e = p.extra
                n_sub = sum(1 for m in e["msgs"] if m.kind not in ("wait", "wait_all", "status"))
                n_wait = len(e["msgs"]) - n_sub
                moves = []
                if n_sub < len(subs):
                    moves.append(("submit", subs[n_sub]))
                awaited = {i for h, m in enumerate(e["msgs"]) if m.kind in ("wait", "wait_all") for i in m.ids
                           if not e["hs"][h]["answers"]}
                ids = sorted(e["ids"])
                if n_wait < waits:
                    cand = [i for i in ids if i not in awaited]
                    for i in cand + [4711]:
                        moves.append(("submit", Msg("wait", ids=(i,))))
                        moves.append(("submit", Msg("status", ids=(i,))))
                    if len(cand) > 1:
                        moves.append(("submit", Msg("wait_all", ids=tuple(cand))))
                        moves.append(("submit", Msg("wait_all", ids=tuple(reversed(cand[-2:])))))
                    for i in cand[:1]:
                        moves.append(("submit", Msg("wait_all", ids=(i,))))
                        moves.append(("submit", Msg("wait_all", ids=(4711, i))))
                for k in range(len(e["pend"])):
                    moves.append(("complete", k))
                if d == depth or not moves:
                    for t, b in W.drain(p, tr):
                        bad.setdefault(b, t)
                    st["drained"] += 1
                    continue
                for mv, v in moves:
                    t = tr + ("%s" % (v.name() if mv == "submit" else "arrival of %s" % e["msgs"][e["pend"][v]["h"]].name()),)
                    for q, b in (W.submit(p, v) if mv == "submit" else W.complete(p, v)):
                        st["steps"] += 1
                        if b:
                            bad.setdefault(b, t)
                        else:
                            kk = key(q)
                            if (kk, d) not in seen:
                                seen.add((kk, d)); nx.append((q, t))
            st["states"] += len(nx)
            cur = nx
        return name, bad, st, None
    except AnalysisBroken as e:
        return name, bad, st, str(e)


def configs(deep):
    A = Part(71, (2,), (3,), (9,)); B = Part(72, (0,), (2,), (8,)); C = Part(71, (6,), (1,), (9,))
    A2 = Part(73, (1, 2), (2, 3), (4, 7)); A3 = Part(74, (1, 0, 2), (2, 1, 2), (4, 5, 6))
    Z = Part(75, (0,), (1,), (9,))
    out = []
    x = 1 if deep else 0
    for w in (True, False):
        for p in (A, A2, A3):
            out.append(("one %s, %dD" % ("write" if w else "read", len(p.off)), [Msg("transfer", w, (p,))], 3, 5))
        for ps in ((A,), (A, B), (A2, A), (A3, B), (B, A3, A2)):
            out.append(("%s of %d regions" % ("write" if w else "read", len(ps)), [Msg("all", w, ps)], 2 if len(ps) < 3 else 1,
                        (5 if len(ps) < 3 else 4) + x))
        for w2 in (True, False):
            n = lambda v: "write" if v else "read"
            out.append(("%s then %s" % (n(w), n(w2)), [Msg("transfer", w, (A,)), Msg("transfer", w2, (B,))], 2, 6 + x))
            out.append(("%s_all then %s" % (n(w), n(w2)), [Msg("all", w, (A, C)), Msg("transfer", w2, (B,))], 2, 5 + x))
            out.append(("%s_all then %s_all" % (n(w), n(w2)), [Msg("all", w, (A, Z)), Msg("all", w2, (B, C))], 1, 5 + x))
    out.append(("three writes", [Msg("transfer", True, (A,)), Msg("transfer", True, (B,)), Msg("transfer", True, (C,))], 1, 6 + x))
    for w in (True, False):
        out.append(("metadata query", [Msg("query", w, ids=(2,), n=5), Msg("query2", ids=(9,), n=7), Msg("query", w, ids=(1,), n=3)], 0, 6))
    return out


def run():
    chk = Check(PID, "for every order of submissions, arrivals, waits and status queries: each region asked for reaches the storage "
                "exactly once with its object, shape, element size and data, reads are sent back in order, a wait is answered once "
                "and exactly when what it waits for is complete, status answers are PENDING, COMPLETE once, then NOT_FOUND, ids "
                "are new and consecutive, and every handle, bulk handle, input and block is released exactly once")
    P = ir.program("server")
    for f in HANDLERS.values():
        P.fn(f)
    deep = chk.tier == "thorough"
    cf = configs(deep)
    chk.analysed = {"handlers": sorted(HANDLERS.values()), "configurations": len(cf)}
    chk.assumptions += ["Mercury completes every bulk transfer it accepts and calls its callback once", "a client has at most one "
                        "outstanding wait per transfer", "sizes and offsets are fixed per configuration; data is symbolic"]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(explore, cf, chunksize=1)
    for name, bad, st, broken in res:
        for k, v in st.items():
            chk.count(k, v)
        chk.count("configurations")
        if broken:
            chk.broken.append("%s: %s" % (name, broken))
        chk.oblige(not bad, "server:%s" % name, "%s: %s" % (name, "; ".join(
            "after %s: %s" % (", ".join(t), w) for w, t in sorted(bad.items())[:3])), name)
    chk.floor("configurations", 20)
    chk.floor("steps", 1000)
    return chk.finish("The handlers and their bulk callbacks were abstractly interpreted for every bounded order of requests and "
                      "completions; Mercury, locks and the storage layer are modelled at their calls.")
