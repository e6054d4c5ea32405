"""C01: checkpoint and restart of a server.  The checkpoint of every directory within a bound is abstractly interpreted against
a file whose content is the abstract memory that was written, the restart of a server with empty memory is interpreted
reading it, and everything the new server answers and holds is compared with what the old one held.  Every prefix of the
file, every failing file operation and every point at which the process can stop while it writes is covered as well."""
import os
import itertools
import traceback
import multiprocessing as mp
import ir
import o01
from k01 import Group, Sink
from o01 import Dir, Ops, H1, H2, FIRST, HT, CT, glob, atom, string_type
from report import Check
from absint import Interp, Path
from sym import Poly
from cstr import lit
from frontend import AnalysisBroken

PID = "C01"
c = Poly.c
NULL = c(0)
RESTART, CHECKPOINT = "PDC_Server_restart", "PDC_Server_checkpoint"
DR = "dataserver_region_g"
NAME = "D/3/metadata_checkpoint.3"
RANK = 3


def old(p):
    return any(isinstance(a, tuple) and (a[0] in ("stale", "unknown") or a[0] == "ld" and a[1][1][0] in ("heap", "stk")) for a in p.atoms())


class CI(Interp):
    """an address of the last run, or a number nobody wrote, is not followed: using it is an event"""

    def load(self, p, path, ty=None):
        if old(p):
            path.ev("lastrun", self.here)
            return NULL
        return Interp.load(self, p, path, ty)

    def store(self, p, v, path):
        if old(p):
            path.ev("lastrun", self.here)
            return
        return Interp.store(self, p, v, path)

    def release(self, p, path):
        if old(p):
            path.ev("lastrun", self.here)
            return
        return Interp.release(self, p, path)

    def alloc(self, path, where, size, zero=False):
        if old(size):
            path.ev("lastrun", self.here)
            size = c(64)
        return Interp.alloc(self, path, where, size, zero)


class CW(o01.DW):
    """a directory with files.  path.extra[("fs",)] = (names, contents, open streams, flushed sizes)"""

    def __init__(self, P, hashes, tmpfs=False):
        o01.DW.__init__(self, P, hashes)
        self.I = CI(P, ext=self.ext, oracle=self.oracle, cell=self.cell, no_summary=True, max_paths=64, max_steps=400000)
        self.S = o01.Strings(self.I)
        self.tmpfs = tmpfs
        self.globals["pdc_server_rank_g"] = RANK
        self.globals["pdc_server_size_g"] = RANK + 1
        self.broken_op = None
        self.string = string_type(P)
        self.QM = next((n for n in P.globals if n.split("#")[0] == "metadata_server_objs"), None)
        if self.QM is None:
            raise AnalysisBroken("the list of regions kept for queries is not found")

    def cell(self, r, o):
        if r == ("reg", ("glob", "pdc_server_tmp_dir_g")):
            return c(b"D\0"[o]) if 0 <= o < 2 else NULL
        return o01.DW.cell(self, r, o)

    def oracle(self, path, pr, a, b):
        d = a - b
        if old(d):
            path.ev("lastrun", self.I.here)
            return pr == "ne"
        u = next((t for t in d.atoms() if isinstance(t, tuple) and t[0] == "ld" and t[1][1][0] in ("heap", "stk")), None)
        if u is not None:
            path.ev("uninit", u[1], u[2], self.I.here)
            return pr == "ne"
        return o01.DW.oracle(self, path, pr, a, b)

    def do(self, path, fn, *args):
        v, q, bad = o01.DW.do(self, path, fn, *args)
        if q is not None:
            e = next((e for e in q.events if e[0] == "lastrun"), None)
            if e:
                bad = bad or "%s: uses an address of the last run, or a part of the file that is something else" % self.loc(e[1])
        return v, q, bad

    # ---- files
    def fs(self, path):
        return dict((path.extra or {}).get(("fs",), ()))

    def put(self, path, fs):
        st = dict(path.extra or {}); st[("fs",)] = tuple(sorted(fs.items(), key=repr)); path.extra = st

    def failing(self, path, what):
        fs = self.fs(path)
        n = fs.get("ops", 0) + 1
        fs["ops"] = n
        self.put(path, fs)
        path.ev("fileop", n, what)
        return self.broken_op == n

    def snapshot(self, path):
        fs = self.fs(path)
        path.ev("fsop", tuple(sorted(((k[1], v, fs.get(("flushed", v), 0)) for k, v in fs.items() if isinstance(k, tuple) and k[0] == "name"))))

    def ext(self, f, args, path, x):
        if f in ("fopen", "fopen64"):
            n, m = self.S.get(args[0], path, x), self.S.get(args[1], path, x)
            if n is None or m is None:
                path.ev("badcall", x); return NULL
            n = n.decode()
            if self.failing(path, f):
                return NULL
            fs = self.fs(path)
            if m.startswith(b"w"):
                k = fs["next"] = fs.get("next", 0) + 1
                fs[("name", n)] = k; fs[("size", k)] = 0; fs[("flushed", k)] = 0
            elif m.startswith(b"r") and ("name", n) in fs:
                k = fs[("name", n)]
            elif m.startswith(b"r"):
                return NULL
            else:
                raise AnalysisBroken("a file is opened with the mode %r" % m)
            s = fs["streams"] = fs.get("streams", 0) + 1
            fs[("stream", s)] = (k, 0, 0, m[:1])
            self.put(path, fs); self.snapshot(path)
            return Poly.a(("reg", ("stream", s)))
        if f in ("fwrite", "fread", "fclose", "fflush", "ferror", "feof"):
            a = args[3] if f in ("fwrite", "fread") else args[0]
            if f == "fflush" and (a == NULL or Interp.split(a)[0] is None or Interp.split(a)[0][1][0] != "stream"):
                return NULL
            fs = self.fs(path)
            r = Interp.split(a)[0]
            s = r[1][1] if r is not None and r[1][0] == "stream" else None
            if ("stream", s) not in fs:
                path.ev("badcall", x); return NULL
            k, pos, err, mode = fs[("stream", s)]
            R = ("reg", ("file", k))
            if f in ("ferror", "feof"):
                return c(err)
            if f == "fclose":
                bad = mode == b"w" and self.failing(path, f)
                fs = self.fs(path)
                del fs[("stream", s)]
                if mode == b"w" and not bad:
                    fs[("flushed", k)] = fs[("size", k)]
                self.put(path, fs)
                if mode == b"w":
                    self.snapshot(path)
                return c(-1 if bad else 0)
            if f == "fflush":
                bad = self.failing(path, f)
                fs = self.fs(path)
                if not bad:
                    fs[("flushed", k)] = fs[("size", k)]
                else:
                    fs[("stream", s)] = (k, pos, 1, mode)
                self.put(path, fs); self.snapshot(path)
                return c(-1 if bad else 0)
            z, n = args[1].const(), args[2].const()
            if z is None or n is None:
                path.ev("lastrun", x)
                return NULL
            n &= 0xffffffffffffffff
            if not z * n:
                return NULL
            if f == "fwrite":
                if self.failing(path, f):
                    fs = self.fs(path)
                    fs[("stream", s)] = (k, pos, 1, mode); self.put(path, fs)
                    return NULL
                fs = self.fs(path)
                self.I.here = x
                self.move(path, R, pos, args[0], z * n, x, False)
                fs[("size", k)] = max(fs[("size", k)], pos + z * n)
                fs[("stream", s)] = (k, pos + z * n, err, mode)
                fs["items"] = fs.get("items", ()) + (pos + z * n,)
                self.put(path, fs)
                return c(n)
            have = (fs[("size", k)] - pos) // z
            if have < n:
                err = 1
            m = min(n, have)
            self.I.here = x
            if m:
                self.move(path, R, pos, args[0], z * m, x, True)
            elif n * z > 1 << 40:
                path.ev("oob", Interp.split(args[0])[0], 0, n * z, x)
            fs[("stream", s)] = (k, pos + z * m, err, mode)
            self.put(path, fs)
            return c(m)
        if f in ("rename", "system", "remove", "unlink"):
            t = [self.S.get(a, path, x) for a in args]
            if None in t:
                path.ev("badcall", x); return NULL
            if f == "system":
                w = t[0].split()
                if not w or w[0] not in (b"mv", b"mkdir"):
                    raise AnalysisBroken("a command that is not understood: %r" % t[0])
                if w[0] == b"mkdir":
                    return NULL
                t = w[1:]
                if len(t) != 2:
                    raise AnalysisBroken("a command that is not understood: %r" % w)
            if self.failing(path, f):
                return c(-1)
            fs = self.fs(path)
            a = ("name", t[0].decode())
            if a not in fs:
                return c(-1)
            k = fs.pop(a)
            if f in ("rename", "system"):
                fs[("name", t[1].decode())] = k
            self.put(path, fs); self.snapshot(path)
            return NULL
        if f == "getenv":
            s = self.S.get(args[0], path, x)
            return lit(path, "1") if self.tmpfs and s == b"PDC_CHECKPOINT_TMPFS" else NULL
        if f == "memcmp":
            return self.memcmp(args, path, x)
        return o01.DW.ext(self, f, args, path, x)

    def memcmp(self, args, path, x):
        n = args[2].const()

        def get(p):
            out = bytearray()
            while n is not None and len(out) < n:
                v = self.I.load(p + c(len(out)), path, None).const()
                if v is None:
                    return None
                out += int(v & (1 << 64) - 1).to_bytes(8, "little")
            return bytes(out[:n])
        a, b = get(args[0]), get(args[1])
        if a is None or b is None:
            return None
        return c((a > b) - (a < b))

    def move(self, path, R, pos, p, n, x, reading):
        I = self.I
        I.bound(p, n, path)
        r, o = Interp.split(p)
        if r is None or o.const() is None:
            path.ev("badcall", x)
            return
        if r in path.freed:
            path.ev("uaf", r, x)
        o = o.const()
        src, so, dst, do = (R, pos, r, o) if reading else (r, o, R, pos)
        cells = {k[1]: v for k, v in path.mem.items() if k[0] == src and so <= k[1] < so + n}
        if not reading and n <= 8 and so not in cells:
            v = I.load(p, path, None)          # a variable that was never written, or a global with its initial value
            cells[so] = v
        zero = src in path.zero and src not in path.dirty
        if not reading and src in path.dirty:
            raise AnalysisBroken("unknown memory is written to a file")
        for k in [k for k in path.mem if k[0] == dst and do <= k[1] < do + n]:
            del path.mem[k]
        zs = dict((path.extra or {}).get(("zeros",), ()))
        if not reading:
            cells = {k: v.subst(stale) for k, v in cells.items()}
            if zero and n > 8:
                zs[(R, pos)] = n
                st = dict(path.extra or {}); st[("zeros",)] = tuple(sorted(zs.items(), key=repr)); path.extra = st
        elif zs.get((R, pos)) == n and o == 0 and path.size.get(r) == n:
            path.zero = path.zero | {r}
        elif zs.get((R, pos)) == n:
            for i in range(n):
                cells.setdefault(so + i, NULL)
        if reading and n <= 8 and so not in cells and not any(k[0] == R and k[1] <= so < k[1] + z for k, z in zs.items()):
            cells[so] = atom("unknown", so)
        for k, v in cells.items():
            path.mem[(dst, do + k - so)] = v

    # ---- one checkpoint, one restart
    def checkpoint(self, path):
        p = path.copy()
        fs = self.fs(p); fs.pop("items", None); fs["ops"] = 0
        self.put(p, fs)
        return self.do(p, CHECKPOINT)

    def restart(self, path, cut=None):
        """a new process: nothing but the files survives"""
        p = Path()
        fs = {k: v for k, v in self.fs(path).items() if not (isinstance(k, tuple) and k[0] == "stream")}
        fs["ops"] = 0
        k = fs.get(("name", NAME))
        if cut is not None and k is not None:
            fs[("size", k)] = cut
        p.extra = {("zeros",): (path.extra or {}).get(("zeros",), ())}
        self.put(p, fs)
        for (r, o), v in path.mem.items():
            if r == ("reg", ("file", k)) and (cut is None or o < cut):
                p.mem[(r, o)] = v
        p.nreg = path.nreg + 1000
        p.mem[(("reg", ("glob", "is_restart_g")), 0)] = c(1)
        return self.do(p, RESTART, lit(p, NAME))

    def file_of(self, path):
        fs = self.fs(path)
        k = fs.get(("name", NAME))
        return (k, fs.get(("size", k))) if k is not None else None


def stale(a):
    return Poly.a(("stale", a)) if isinstance(a, tuple) and a[0] == "reg" else None


# ---- what the directory of O01 does not describe
KEPT = ("unit_size", "data_loc_type", "offset", "cache_offset")
TEXT = ("storage_location", "cache_location")
LEFT = ("region_lock_head", "region_map_head", "region_buf_map_head")
HIST = ("dtype", "nbin", "incr")


class State:
    """regions of objects, regions of the data server, regions kept for queries; as plain values"""

    def __init__(self, storage=(), data=(), query=()):
        self.storage = storage; self.data = data; self.query = query

    def key(self):
        return repr((self.storage, self.data, self.query))


def region(tag, nd, start, count, hist=0, loc="L", cache="C"):
    return (tag, nd, tuple(start), tuple(count), hist, loc, cache)


def build_region(W, p, R, nxt=NULL, prv=NULL):
    tag, nd, st, ct, hist, loc, cache = R
    r = ("reg", ("heap", "region", tag))
    p.size[r] = W.P.structs["region_list_t"]["size"]
    p.zero = p.zero | {r}
    size = 1
    for k in ct[:nd]:
        size *= k
    kw = dict(ndim=c(nd), data_size=c(size), meta=Poly.a(("reg", ("heap", "other", tag))), buf=Poly.a(("reg", ("heap", "buffer", tag))),
              overlap_storage_regions=Poly.a(("reg", ("heap", "more", tag))), io_cache_region=Poly.a(("reg", ("heap", "cache", tag))),
              **{k: atom(k, tag) for k in KEPT})
    W.L.put(p, r[1], "region_list_t", **kw)
    f = W.L.fields("region_list_t")
    for k in range(4):
        p.mem[(r, f["start"][0] + 8 * k)] = c(st[k] if k < nd else 0)
        p.mem[(r, f["count"][0] + 8 * k)] = c(ct[k] if k < nd else 0)
    for n, s in (("storage_location", loc), ("cache_location", cache)):
        for i, b in enumerate(s.encode() + b"\0"):
            p.mem[(r, f[n][0] + i)] = c(b)
    if hist:
        h = ("reg", ("heap", "hist", tag)); hr = ("reg", ("heap", "range", tag)); hb = ("reg", ("heap", "bin", tag))
        p.size[h] = W.P.structs["pdc_histogram_t"]["size"]; p.size[hr] = 16 * hist; p.size[hb] = 8 * hist
        W.L.put(p, h[1], "pdc_histogram_t", dtype=atom("hdt", tag), nbin=c(hist), incr=atom("hinc", tag), range=Poly.a(hr), bin=Poly.a(hb))
        for i in range(2 * hist):
            p.mem[(hr, 8 * i)] = atom("hr", i, tag)
        for i in range(hist):
            p.mem[(hb, 8 * i)] = atom("hb", i, tag)
        p.mem[(r, f["region_hist"][0])] = Poly.a(h)
    return r


def chain(W, p, regs, st="region_list_t"):
    """a list whose first element's prev is the last"""
    if not regs:
        return NULL
    f = W.L.fields(st)
    for i, r in enumerate(regs):
        p.mem[(r, f["next"][0])] = Poly.a(regs[i + 1]) if i + 1 < len(regs) else NULL
        p.mem[(r, f["prev"][0])] = Poly.a(regs[i - 1])
    return Poly.a(regs[0])


def install(W, path, S):
    """put the state in memory"""
    p = path.copy()
    for k, regs in S.storage:
        v, q, bad = W.do(p, "find_metadata_by_id", c(k))
        r, o = Interp.split(v)
        if r is None:
            raise AnalysisBroken("the object to give regions to is not found")
        p.mem[(r, o.const() + W.L.off("pdc_metadata_t", "storage_region_list_head"))] = chain(W, p, [build_region(W, p, R) for R in regs])
        for n in LEFT:
            p.mem[(r, o.const() + W.L.off("pdc_metadata_t", n))] = Poly.a(("reg", ("heap", n, k)))
            p.size[("reg", ("heap", n, k))] = 0
        p.mem[(r, o.const() + W.L.off("pdc_metadata_t", "all_storage_region_distributed"))] = c(1)
    ds = []
    for k, regs in S.data:
        r = ("reg", ("heap", "dataobj", k))
        p.size[r] = W.P.structs["data_server_region_t"]["size"]; p.zero = p.zero | {r}
        W.L.put(p, r[1], "data_server_region_t", obj_id=c(k), fd=c(7), storage_location=lit(p, "loc"),
                region_storage_head=chain(W, p, [build_region(W, p, R) for R in regs]))
        ds.append(r)
    p.mem[(("reg", ("glob", DR)), 0)] = chain(W, p, ds, "data_server_region_t")
    qs = []
    for k, nd, regs in S.query:
        r = ("reg", ("heap", "queryobj", k))
        p.size[r] = W.P.structs["pdc_obj_metadata_pkg"]["size"]
        rs = []
        for i, (srv, off, size) in enumerate(regs):
            q = ("reg", ("heap", "queryreg", k, i)); a = ("reg", ("heap", "queryoff", k, i))
            p.size[q] = W.P.structs["pdc_region_metadata_pkg"]["size"]; p.size[a] = 16 * nd
            W.L.put(p, q[1], "pdc_region_metadata_pkg", reg_offset=Poly.a(a), reg_size=Poly.a(a) + c(8 * nd), data_server_id=c(srv), next=NULL)
            for j in range(nd):
                p.mem[(a, 8 * j)] = c(off[j]); p.mem[(a, 8 * (nd + j))] = c(size[j])
            rs.append(q)
        for i in range(len(rs) - 1):
            p.mem[(rs[i], W.L.off("pdc_region_metadata_pkg", "next"))] = Poly.a(rs[i + 1])
        W.L.put(p, r[1], "pdc_obj_metadata_pkg", obj_id=c(k), ndim=c(nd), regions=Poly.a(rs[0]), regions_end=Poly.a(rs[-1]), next=NULL)
        qs.append(r)
    for i in range(len(qs) - 1):
        p.mem[(qs[i], W.L.off("pdc_obj_metadata_pkg", "next"))] = Poly.a(qs[i + 1])
    p.mem[(("reg", ("glob", W.QM)), 0)] = Poly.a(qs[0]) if qs else NULL
    e = W.QM.replace("metadata_server_objs", "metadata_server_objs_end")
    if e in W.P.globals:
        p.mem[(("reg", ("glob", e)), 0)] = Poly.a(qs[-1]) if qs else NULL
    return p


def walk(W, q, head, st, cap=64):
    out = []
    while head is not None and head != NULL and len(out) < cap:
        r, o = Interp.split(head)
        if r is None or r not in q.size or r in q.freed or not o.t == {} and o.const() is None:
            return None
        out.append(head)
        head = W.I.load(head + c(W.L.off(st, "next")), q)
    return out if len(out) < cap else None


def read_region(W, q, p):
    """-> (value of the region as the tuple that built it, complaint)"""
    g = lambda n, i=0: W.I.load(p + c(W.L.off("region_list_t", n) + 8 * i), q)
    t = {k: g(k) for k in KEPT}
    nd = g("ndim").const()
    if nd is None or not 0 < nd < 5:
        return None, "its number of dimensions is lost"
    tags = {a[1] for v in t.values() for a in v.atoms() if isinstance(a, tuple) and a[0] in KEPT}
    if len(tags) != 1:
        return None, "its %s is lost" % next((k for k in KEPT if len(t[k].atoms()) != 1), KEPT[0])
    tag = tags.pop()
    for k in KEPT:
        if t[k] != atom(k, tag):
            return None, "its %s is not what it was" % k
    st = tuple(g("start", i).const() for i in range(nd)); ct = tuple(g("count", i).const() for i in range(nd))
    size = 1
    for k in ct:
        size *= k if k is not None else 0
    if g("data_size") != c(size):
        return None, "its size in bytes is not what it was"
    s = [W.text(q, p + c(W.L.off("region_list_t", n)), n) for n in TEXT]
    h = g("region_hist"); hist = 0
    if h != NULL:
        hr, _ = Interp.split(h)
        if hr is None or hr not in q.size:
            return (tag, nd, st, ct, -1, s[0], s[1]), None
        hg = lambda n: W.I.load(h + c(W.L.off("pdc_histogram_t", n)), q)
        hist = hg("nbin").const()
        if hist is None or hist > 64 or hg("dtype") != atom("hdt", tag) or hg("incr") != atom("hinc", tag):
            return None, "its histogram is not what it was"
        ra, ba = hg("range"), hg("bin")
        if any(W.I.load(ra + c(8 * i), q) != atom("hr", i, tag) for i in range(2 * hist)) or \
                any(W.I.load(ba + c(8 * i), q) != atom("hb", i, tag) for i in range(hist)) or \
                q.size.get(Interp.split(ra)[0], 0) < 16 * hist or q.size.get(Interp.split(ba)[0], 0) < 8 * hist:
            return None, "its histogram is not what it was"
    return (tag, nd, st, ct, hist, s[0], s[1]), None


def compare(W, O, path, S, d, hist):
    J = O.judge
    q = path.copy()
    q.events = []
    want = dict(S.storage)
    for o in d.objs:
        v, q2, bad = W.do(path, "find_metadata_by_id", c(o.id))
        if v is None or Interp.split(v)[0] is None:
            continue                    # reported by the directory
        head = W.I.load(v + c(W.L.off("pdc_metadata_t", "storage_region_list_head")), q)
        for n in LEFT + ("all_storage_region_distributed",):
            J("nothing else is left over", None, W.I.load(v + c(W.L.off("pdc_metadata_t", n)), q) == NULL, "%r starts with the %s of the last run" % (o, n), hist)
        l = walk(W, q, head, "region_list_t")
        if not J("list of stored regions", None, l is not None, "the regions of %r are lost" % o, hist):
            continue
        got = []
        for p in l:
            R, w = read_region(W, q, p)
            J("a stored region", None, w is None, "a region of %r: %s" % (o, w), hist)
            got.append(R)
            if R:
                J("a region knows its object", None, W.I.load(p + c(W.L.off("region_list_t", "meta")), q) == v and
                  W.I.load(p + c(W.L.off("region_list_t", "obj_id")), q) == c(o.id), "a region of %r belongs to another object" % o, hist)
        if None not in got:
            J("stored regions", None, sorted(got) == sorted(want.get(o.id, ())), "%r has other regions than before (%s instead of %s)" % (
                o, got, list(want.get(o.id, ()))), hist)
    l = walk(W, q, W.I.load(glob(DR), q), "data_server_region_t")
    if J("data server objects", None, l is not None and len(l) == len(S.data), "%s objects of the data server instead of %d" % (
            "no list of" if l is None else len(l), len(S.data)), hist):
        for p, (k, regs) in zip(l, S.data):
            g = lambda n: W.I.load(p + c(W.L.off("data_server_region_t", n)), q)
            J("identifier of a data server object", None, g("obj_id") == c(k), "an object of the data server has another identifier", hist)
            J("a data server object is not open", None, g("fd") == c(-1) or g("fd") == c(0xffffffff), "an object of the data server keeps the file number of the last run", hist)
            for n in ("region_lock_head", "region_buf_map_head", "region_lock_request_head", "region_map_head"):
                J("nothing else is left over", None, g(n) == NULL, "an object of the data server has a %s" % n, hist)
            e = walk(W, q, g("region_storage_head"), "region_list_t")
            if not J("regions of a data server object", None, e is not None and len(e) == len(regs), "%s regions instead of %d" % (
                    "no list of" if e is None else len(e), len(regs)), hist):
                continue
            for r, R in zip(e, regs):
                got, w = read_region(W, q, r)
                J("a region of the data server", None, w is None, "a region of the data server: %s" % w, hist)
                J("place of a region of the data server", None, got is None or got[:4] + got[5:] == R[:4] + R[5:],
                  "a region of the data server is not what it was (%s instead of %s)" % (got, R), hist)
    l = walk(W, q, W.I.load(glob(W.QM), q), "pdc_obj_metadata_pkg")
    if J("objects kept for queries", None, l is not None and len(l) == len(S.query), "%s objects kept for queries instead of %d" % (
            "no list of" if l is None else len(l), len(S.query)), hist):
        for p, (k, nd, regs) in zip(l, S.query):
            g = lambda n: W.I.load(p + c(W.L.off("pdc_obj_metadata_pkg", n)), q)
            e = walk(W, q, g("regions"), "pdc_region_metadata_pkg")
            got = []
            for r in e or ():
                h = lambda n: W.I.load(r + c(W.L.off("pdc_region_metadata_pkg", n)), q)
                a, b = h("reg_offset"), h("reg_size")
                vec = lambda z: tuple(W.I.load(z + c(8 * i), q).const() for i in range(nd)) if Interp.split(z)[0] is not None else None
                got.append((h("data_server_id").const(), vec(a), vec(b)))
            J("regions kept for queries", None, g("obj_id") == c(k) and g("ndim") == c(nd) and got == list(regs),
              "the regions of an object kept for queries are %s instead of %s" % (got, list(regs)), hist)
            J("the list can grow", None, e and g("regions_end") == e[-1], "the end of a list kept for queries is lost", hist)
    e = W.QM.replace("metadata_server_objs", "metadata_server_objs_end")
    if l and e in W.P.globals:
        J("the list can grow", None, W.I.load(glob(e), q) == l[-1], "the end of the list kept for queries is lost", hist)
    # pointers of the last run
    left = sorted({r[1][1] if r[1][0] == "heap" else repr(r) for (r, o), v in path.mem.items() if r[1][0] != "file" and r in path.size
                   and r not in path.freed and any(isinstance(a, tuple) and a[0] == "stale" for a in v.atoms())})
    J("no address of the last run", None, not left, "what %s made still holds an address of the last run" % ", ".join(left), hist)


def cycle(W, O, path, d, S, hist):
    """checkpoint, restart, compare; -> the new server"""
    before = W.file_of(path)
    v, q, bad = W.checkpoint(path)
    if not O.judge("checkpoint", bad, v is not None and v == NULL, "a checkpoint fails", hist):
        return None
    after = W.file_of(q)
    if not O.judge("the checkpoint is there", None, after is not None and after != before, "no file holds the checkpoint", hist):
        return None
    for e in q.events:
        if e[0] == "fsop":
            now = next(((k, z) for n, k, z in e[1] if n == NAME), None)
            if not O.judge("stopping while a checkpoint is written", None, now in (before, after),
                           "a server that stops while it writes a checkpoint leaves %s of %s bytes under its name" % (now and now[1], after[1]), hist):
                break
    if not O.judge("open files", None, not any(isinstance(k, tuple) and k[0] == "stream" for k in W.fs(q)), "a file stays open", hist):
        return None
    v, r, bad = W.restart(q)
    if not O.judge("restart", bad, v is not None and v == NULL, "a restart from a checkpoint fails", hist):
        return None
    O.judge("open files", None, not any(isinstance(k, tuple) and k[0] == "stream" for k in W.fs(r)), "a file stays open", hist)
    if S is not None:
        compare(W, O, r, S, d, hist)
    return r


def faults(W, O, path, d, S, hist, every=1):
    """each file operation fails once; every prefix of the file"""
    v, q, bad = W.checkpoint(path)
    if q is None:
        return
    ops = [e for e in q.events if e[0] == "fileop"]
    items = W.fs(q).get("items", ())
    for old in (False, True):
        p0 = path
        if old:
            p0 = q
        before = W.file_of(p0)
        for n, what in [(e[1], e[2]) for e in ops][::1 if not old else 5] + [(ops[-1][1], ops[-1][2]), (ops[-2][1], ops[-2][2])]:
            W.broken_op = n
            v, r, bad = W.checkpoint(p0)
            W.broken_op = None
            O.judge("failing %s" % what, bad, v is not None and v.const() is not None and (v.const() & 0x80000000 or v.const() < 0),
                    "a checkpoint whose %s fails is reported as done" % what, hist)
            if r is not None:
                O.judge("a failed checkpoint", None, W.file_of(r) == before, "a checkpoint whose %s fails replaces the last one" % what, hist)
    total = W.file_of(q)
    if total is None or not items:
        return
    cuts = sorted({k for e in items for k in (e, e - 1, e - 3)} | {0, 1}) if every == 1 else sorted(set(items[::every]) | {0})
    for k in cuts:
        if not 0 <= k < total[1]:
            continue
        v, r, bad = W.restart(q, k)
        O.judge("restart from a part of a checkpoint", bad, v is not None and v.const() is not None and (v.const() & 0x80000000 or v.const() < 0),
                "a restart from the first %d of %d bytes of a checkpoint is reported as done" % (k, total[1]), hist)
    p = Path(); p.extra = {}
    v, r, bad = W.restart(p)
    O.judge("restart without a checkpoint", bad, v is not None and v != NULL, "a restart without a checkpoint is reported as done", hist)


# ---- parts
def shape(W, path, d):
    p = path.copy()
    roots = [glob(g) for g in (HT, CT, "n_metadata_g", "pdc_id_seq_g", "is_hash_table_init_g", "is_restart_g", DR, W.QM,
                               W.QM.replace("metadata_server_objs", "metadata_server_objs_end")) if g in W.P.globals]
    n, key, leaked, _ = W.canon(p, roots, {})
    n.extra = {k: v for k, v in (path.extra or {}).items() if k not in (("fs",), ("zeros",))}     # the files are taken up again
    return n, (key, tuple(sorted(n.extra.items(), key=repr)), d.key())


def explore(W, G, O, start, depth, moves, look, cap=6000):
    seen = {}
    cur = [(start, Dir(), ())]
    n = 0
    for lv in range(depth):
        nx = []
        for path, d, hist in cur:
            for label, f in moves(d, hist):
                h = ", ".join(hist + (label,))
                r = f(path, d, h)
                if r is None:
                    continue
                q, d2 = r
                if label == "restart":
                    look(q, d2, h)
                q, key = shape(W, q, d2)
                if key in seen:
                    continue
                seen[key] = 1
                n += 1
                if n > cap:
                    raise AnalysisBroken("more than %d states" % cap)
                if label != "restart":
                    g = cycle(W, O, q, d2, State(), h + ", restart")
                    if g is not None:
                        look(g, d2, h + ", restart")
                nx.append((q, d2, hist + (label,)))
        cur = nx
        if len(G.bad) > 12:
            break
    G.chk.count("states", n)


def back(W, O):
    def f(p, d, h):
        r = cycle(W, O, p, d, State(), h)
        return None if r is None else (r, d)
    return f


def p_objects(P, G, th):
    for hashes in (H1, H2):
        W = CW(P, dict(hashes)); O = Ops(W, G)
        start, bad = W.fresh()

        def moves(d, hist):
            if d.made < 3:
                for n, ts in (("a", 0), ("a", 1), ("b", 0)) if hashes is H1 else (("a", 0), ("b", 2), ("d", 3)):
                    yield "create %s@%d" % (n, ts), lambda p, d, h, n=n, ts=ts: O.create(p, d, n, ts, 1, "A", h, ndim=1 + ts % 4)
            for o in d.objs:
                yield "delete %r" % o, lambda p, d, h, o=o: O.delete_id(p, d, o.id, h)
                if "restart" in hist or not hist[2:]:
                    yield "update %r" % o, lambda p, d, h, o=o: O.update(p, d, o, h, ts=3, tags="y", loc="L2", state=2)
            if "restart" not in hist:
                yield "restart", back(W, O)
        explore(W, G, O, start, 4 if th else 3, moves, lambda p, d, h: O.observe(p, d, h, ["a", "b", "d"], [0, 1, 2, 3]))


def p_tags(P, G, th):
    W = CW(P, {"a": 40, "b": 40, "C": 40, "D": 41, "E": 50}); O = Ops(W, G)
    start, bad = W.fresh()

    def moves(d, hist):
        if len(d.objs) < 1 and d.made < 3:
            yield "create a", lambda p, d, h: O.create(p, d, "a", 0, 1, "A", h)
        if not d.conts and d.made < 3:
            yield "container E", lambda p, d, h: O.cont(p, d, "E", h)
        for what, xs in (("obj", d.objs), ("cont", d.conts)):
            for x in xs:
                kv = x.kv if what == "obj" else x[3]
                nm = x.name if what == "obj" else x[1]
                for k, v in (("k", "1"), ("kk", "")):
                    if (k, v) not in kv:
                        yield "put %s of %s" % (k, nm), lambda p, d, h, what=what, x=x, k=k, v=v: O.kv(p, d, what, "add", x, k, v, h)
                    elif "restart" in hist:
                        yield "remove %s of %s" % (k, nm), lambda p, d, h, what=what, x=x, k=k, v=v: O.kv(p, d, what, "del", x, k, v, h)
        if "restart" not in hist and hist:
            yield "restart", back(W, O)

    def look(p, d, h):
        for what, xs in (("obj", d.objs), ("cont", d.conts), ("none", ("a", "z"))):
            for x in xs:
                for k in ("k", "kk", "j"):
                    O.kv(p, d, what, "get", x, k, "", h)
        O.conts(p, d, ["E"], h)
    explore(W, G, O, start, 5 if th else 4, moves, look)
    # a tag without a value
    r = O.create(start, Dir(), "a", 0, 1, "A", "a tag without a value")
    if r:
        p = r[0].copy()
        f = W.L.fields("metadata_add_kvtag_in_t"); t = W.L.fields("pdc_kvtag_t")
        inp = W.struct(p, "in", "metadata_add_kvtag_in_t", obj_id=c(r[1].objs[0].id), hash_value=c(W.hash_of("a")))
        for n, v in dict(name=lit(p, "k"), size=NULL, type=atom("kt", "k", ""), value=lit(p, "")).items():
            p.mem[(Interp.split(inp)[0], f["kvtag"][0] + t[n][0])] = v
        out = W.out(p, "out", 4)
        v, q, bad = W.do(p, "PDC_Server_add_kvtag", inp, out)
        if not bad:
            cycle(W, O, q, r[1], State(), "a tag without a value")


def p_conts(P, G, th):
    W = CW(P, {"C": 3, "D": 3 + 193, "a": 3}); O = Ops(W, G)
    start, bad = W.fresh()

    def moves(d, hist):
        if d.made < 3:
            for n in ("C", "D"):
                yield "container %s" % n, lambda p, d, h, n=n: O.cont(p, d, n, h)
            if not d.objs:
                yield "create a", lambda p, d, h: O.create(p, d, "a", 0, 1, "A", h)
        for x in d.conts:
            yield "delete %s" % x[1], lambda p, d, h, x=x: O.delete_id(p, d, x[0], h)
            if len(x[2]) < 3:
                yield "add to %s" % x[1], lambda p, d, h, x=x: O.cont_objs(p, d, x, True, [11 + len(x[2]), 21], h)
            if x[2]:
                yield "remove from %s" % x[1], lambda p, d, h, x=x: O.cont_objs(p, d, x, False, [21, 99], h)
        if "restart" not in hist:
            yield "restart", back(W, O)

    def look(p, d, h):
        O.conts(p, d, ["C", "D", "a"], h)
        if d.objs:
            O.observe(p, d, h, ["a"], [0])
    explore(W, G, O, start, 5 if th else 4, moves, look)
    for sizes in ((64, 1), (65,), (130, -66, 2), (63, 1, 1), (1, 300)):
        r = O.cont(start, Dir(), "C", "nothing"); k = 100
        for s in sizes:
            if r is None:
                break
            x = r[1].conts[0]
            h = "adding and removing %s objects, restart" % (sizes,)
            r = O.cont_objs(r[0], r[1], x, s > 0, list(range(k, k + s)) if s > 0 else x[2][:-s], h)
            k += max(s, 0)
            q = r and cycle(W, O, r[0], r[1], State(), h)
            r = (q, r[1]) if q else None
            if r and not O.conts(r[0], r[1], ["C"], h):
                break


def regions(W, G, O, th):
    """the states of regions: (label, State builder over the identifiers of two objects)"""
    R = region
    one = R(1, 1, [0], [8]); two = R(2, 2, [4, 0], [16, 3], loc="L2"); three = R(3, 3, [1, 2, 3], [5, 6, 7], hist=3)
    h1 = R(4, 1, [8], [8], hist=1, cache=""); four = R(5, 4, [9, 9, 9, 9], [1, 2, 1, 2], loc="")
    yield "nothing", lambda a, b: State()
    for x in (one, two, three, h1, four):
        yield "a stored region", lambda a, b, x=x: State(storage=((a, (x,)),))
        yield "a region of the data server", lambda a, b, x=x: State(data=((a, (x,)),))
    for x, y in itertools.permutations((one, h1, three), 2):
        yield "two stored regions", lambda a, b, x=x, y=y: State(storage=((a, (x, y)),))
        yield "regions of two objects", lambda a, b, x=x, y=y: State(storage=((a, (x,)), (b, (y,))))
        yield "two regions of the data server", lambda a, b, x=x, y=y: State(data=((a, (x, y)),))
        yield "regions of two objects of the data server", lambda a, b, x=x, y=y: State(data=((a, (x,)), (77, (y,))))
    yield "an object of the data server without regions", lambda a, b: State(data=((a, ()), (b, (one,))))
    reg = lambda nd, i, srv: (srv, tuple(10 * i + j for j in range(nd)), tuple(3 + i + j for j in range(nd)))
    for nd in (1, 2, 3):
        yield "regions kept for queries", lambda a, b, nd=nd: State(query=((a, nd, (reg(nd, 0, 2),)),))
        yield "regions kept for queries", lambda a, b, nd=nd: State(query=((a, nd, (reg(nd, 0, 2), reg(nd, 1, 0), reg(nd, 2, 1))),))
        for n2 in (1, 2, 3):
            yield "two objects kept for queries", lambda a, b, nd=nd, n2=n2: State(query=((a, nd, (reg(nd, 0, 2), reg(nd, 1, 0))), (b, n2, (reg(n2, 3, 1),))))
    yield "three objects kept for queries", lambda a, b: State(query=tuple((k, 1, (reg(1, k % 5, 1),)) for k in (a, b, 99)))
    yield "everything", lambda a, b: State(storage=((a, (one, h1)), (b, (three, two))), data=((a, (R(11, 1, [0], [8]), R(12, 2, [1, 2], [3, 4], loc="Z"))), (88, ())),
                                           query=((a, 2, (reg(2, 0, 2), reg(2, 1, 0))), (b, 1, (reg(1, 5, 1),))))


def base(W, O, hist):
    start, bad = W.fresh()
    r = start, Dir()
    for n in ("a", "b", "d"):
        r = r and O.create(r[0], r[1], n, 0, 1, "A", hist, ndim=2)
    r = r and O.kv(r[0], r[1], "obj", "add", r[1].objs[0], "k", "1", hist)
    r = r and O.kv(r[0], r[1], "obj", "add", r[1].objs[1], "k", "2", hist)
    r = r and O.kv(r[0], r[1], "obj", "add", r[1].objs[0], "kk", "22", hist)
    r = r and O.cont(r[0], r[1], "C", hist)
    r = r and O.cont_objs(r[0], r[1], r[1].conts[0], True, [r[1].objs[0].id, r[1].objs[1].id], hist)
    r = r and O.kv(r[0], r[1], "cont", "add", r[1].conts[0], "k", "3", hist)
    return r


HB = dict(H1, C=60)


def p_regions(P, G, th):
    for tmpfs in (False, True):
        W = CW(P, dict(HB), tmpfs); O = Ops(W, G)
        r = base(W, O, "three objects")
        if r is None:
            return
        p, d = r
        n = 0
        for label, f in regions(W, G, O, th):
            if tmpfs and label not in ("nothing", "everything"):
                continue
            S = f(d.objs[0].id, d.objs[1].id)
            n += 1
            q = install(W, p, S)
            h = "three objects, %s, restart" % label
            q2 = cycle(W, O, q, d, S, h)
            if q2 is None:
                continue
            if label in ("nothing", "everything"):
                O.observe(q2, d, h, ["a", "b", "d"], [0])
                O.conts(q2, d, ["C"], h)
            q3 = cycle(W, O, q2, d, S, h + " twice")
            if q3 is not None and label == "everything":
                # the new server lives on: delete, create, checkpoint, restart
                o = d.objs[0]
                z = O.delete_id(q3, d, o.id, h)
                z = z and O.create(z[0], z[1], "a", 4, 1, "B", h)
                z = z and O.kv(z[0], z[1], "obj", "add", z[1].objs[-1], "n", "5", h)
                if z:
                    S2 = State(tuple(x for x in S.storage if x[0] != o.id), S.data, S.query)
                    q4 = cycle(W, O, z[0], z[1], S2, h + ", changes, restart")
                    if q4:
                        O.observe(q4, z[1], h + ", changes, restart", ["a", "b", "d"], [0, 4])
        G.chk.count("states", n)


def p_faults(P, G, th):
    for tmpfs in (False, True):
        W = CW(P, dict(HB), tmpfs); O = Ops(W, G)
        start, bad = W.fresh()
        faults(W, O, start, Dir(), State(), "nothing")
        r = base(W, O, "three objects")
        if r is None:
            return
        p, d = r
        for label, f in regions(W, G, O, th):
            if label == "everything" or th and label in ("nothing", "two stored regions") and not tmpfs:
                S = f(d.objs[0].id, d.objs[1].id)
                faults(W, O, install(W, p, S), d, S, "three objects, %s" % label)
        G.chk.count("states", 2)


def p_many(P, G, th):
    """more objects under one hash than the Bloom filter waits for, and more names than the first hash table holds"""
    for one in (True, False):
        N = 66 if one else 140
        hashes = {"o%d" % i: 40 if one else i * 11 for i in range(N)}
        W = CW(P, hashes); O = Ops(W, G)
        W.I.max_steps = 4000000
        start, bad = W.fresh()
        r = start, Dir()
        for i in range(N):
            r = O.create(r[0], r[1], "o%d" % i, 0, 1, "A", "%d creates" % i)
            if r is None:
                return
        p, d = r
        G.chk.count("states", N)
        h = "%d creates, restart" % N
        q = cycle(W, O, p, d, None, h)
        if q is None:
            continue
        some = Dir(tuple(d.objs[i] for i in (0, 1, N // 2, N - 2, N - 1)), (), d.seq, d.made)
        for o in some.objs:
            v, q2, bad = W.do(q, "find_metadata_by_id", c(o.id))
            ok = v is not None and Interp.split(v)[0] is not None
            w = O.faithful(q2, v, o) if ok else "is lost"
            O.judge("one of many objects", bad, w is None, "%r: %s" % (o, w), h)
            O.create(q, d, o.name, 0, 1, "A", h)
        O.query(q, d, "list all", lambda o: True, h, is_list_all=c(1))
        z = O.create(q, d, "o1", 1, 1, "A", h)
        if z:
            O.query(z[0], z[1], "list all", lambda o: True, h + ", one more", is_list_all=c(1))


def p_init(P, G, th):
    """between the restart and the first request nothing is done to what the restart restored"""
    f = P.fns.get("PDC_Server_init")
    if f is None:
        raise AnalysisBroken("PDC_Server_init not found")
    W = CW(P, dict(HB)); O = Ops(W, G)
    r = base(W, O, "three objects")
    if r is None:
        return
    state = {HT, CT, DR, W.QM, "n_metadata_g", "pdc_id_seq_g"} & set(P.globals)
    G.chk.count("restored globals", len(state))
    memo = {}

    def writes(fn, seen=()):
        """globals of the restored state a function may assign"""
        if fn in memo:
            return memo[fn]
        if fn in seen or fn not in P.fns:
            return {}
        out = {}
        for b in P.fns[fn].blocks:
            for x in b:
                out.update(effect(x, seen + (fn,)))
        if not seen:
            memo[fn] = out
        return out

    def effect(x, seen):
        out = {}
        if x.op == "store":
            t = x.args[1]
            g = t[1] if isinstance(t, (list, tuple)) and t and t[0] == "g" else None
            if g in state:
                out[g] = x
        if x.op == "call" and x.callee:
            out.update(writes(x.callee, seen))
        return out
    blocks = f.blocks
    sites = [(b, i, x) for b, l in enumerate(blocks) for i, x in enumerate(l) if x.op == "call" and x.callee == RESTART]
    if not sites:
        G.no("restart of a server", "PDC_Server_init does not call %s" % RESTART)
        return
    for b, i, x in sites:
        seen = {b}; todo = []
        after = list(blocks[b][i + 1:])
        todo = list(f.succs(b))
        n = 0
        while True:
            for y in after:
                if y.op == "call" or y.op == "store":
                    n += 1
                    for g, w in effect(y, ()).items():
                        G.no("what is restored stays", "%s: %s is assigned after the restart" % (w.loc(), g))
            if not todo:
                break
            k = todo.pop()
            if k in seen:
                after = []
                continue
            seen.add(k)
            after = blocks[k]
            todo += list(f.succs(k))
        G.chk.count("instructions after the restart", n)
        G.ok("what is restored stays")


PARTS = [("objects", p_objects), ("tags", p_tags), ("containers", p_conts), ("regions", p_regions), ("failures", p_faults),
         ("many objects", p_many), ("start of a server", p_init)]


def part(a):
    name, fn, th = a
    chk = Sink(); broken = None
    try:
        P = ir.program("server")
        with Group(chk, name) as G:
            fn(P, G, th)
            at = "; ".join("%s at %s" % (n, P.fns[n].where()) for n in (CHECKPOINT, RESTART) if n in P.fns)
            for k, v in G.bad.items():
                G.bad[k] = v if ".c:" in v else "%s [%s]" % (v, at)
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    return name, chk.counts, chk.obl, broken


def run():
    chk = Check(PID, "a server restarted from a checkpoint holds what the old one held; an incomplete checkpoint is never used and never replaces a complete one")
    th = chk.tier == "thorough"
    ir.program("server")
    parts = [(n, f, th) for n, f in PARTS if not os.environ.get("C01") or os.environ["C01"] in n]
    chk.analysed = {"parts": [p[0] for p in parts]}
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(part, parts, chunksize=1)
    for name, counts, obl, broken in res:
        for k, v in counts.items():
            chk.count(k, v)
        for o in obl:
            chk.oblige(*o)
        if broken:
            chk.broken.append("%s: %s" % (name, broken))
    chk.assumptions += ["what is written to a file is what is read from it", "renaming a file is atomic, and what was flushed before it is on disk",
                        "memory is available", "one request is handled at a time", "a restarted group has as many servers as before"]
    chk.floor("steps", 3000); chk.floor("states", 200); chk.floor("obligations", 60)
    return chk.finish("Checkpoint and restart were abstractly interpreted over all directories within the bound, every prefix of the file and "
                      "every failing file operation; what the new server holds and answers was compared with what the old one held.")
