"""F01: an object has, for whoever creates or opens it, the properties it was given.  The client's calls - making, changing, copying
and closing a property list, creating an object with it, opening an object, asking for its properties - are abstractly interpreted
with symbolic property values over the message the server gets and the answer it gives; so is every conversion between the forms in
which metadata and regions are kept and sent."""
import os
import itertools
import ir
from k01 import World, Group, Sink
from o01 import DW
from report import Check
from absint import Interp, Path
from sym import Poly
from cstr import Strings, lit
from frontend import AnalysisBroken

PID = "F01"
c = Poly.c
NULL = c(0)
ONE = ("HG_Create", "HG_Destroy", "HG_Free_output", "HG_Free_input", "HG_Context_get_class", "PDC_Client_try_lookup_server",
       "PDC_Client_lookup_server", "PDC_get_execution_locus", "MPI_Barrier", "hg_atomic_set32", "hg_atomic_decr32", "hg_atomic_init32",
       "fflush", "assert")


def atom(*a):
    return Poly.a(a)


class Cells(dict):
    def get(self, k, d=None):
        return dict.get(self, k, NULL if self.zero else d)


class FW(DW):
    def __init__(self, P):
        DW.__init__(self, P, {})
        self.globals = {"pdc_server_num_g": 2, "pdc_client_mpi_rank_g": 1, "pdc_client_mpi_size_g": 2, "pdc_nclient_per_server_g": 1,
                        "is_client_debug_g": 0}
        self.answer = {}            # output structure -> fn(path, region) filling it
        self.I.max_steps = 200000
        self.null = None
        W = self; base = self.I.load

        def load(p, path, ty=None):
            if p.const() is not None and W.null is None:
                W.null = "%s: reads through a null pointer" % W.loc(W.I.here)
            return base(p, path, ty)
        self.I.load = load

    def do(self, path, fn, *args):
        self.null = None
        try:
            v, q, bad = DW.do(self, path, fn, *args)
        except AnalysisBroken:
            if self.null:
                return None, path, self.null
            raise
        return v, q, bad or self.null

    def cell(self, r, o):
        if r[1] == ("glob", "pdc_server_info_g") and o == 0:
            return Poly.a(("reg", ("arg", "servers")))
        if r[1][0] == "glob" and r[1][1].split("#")[0] == "debug_server_id_count" and o == 0:
            return Poly.a(("reg", ("arg", "counts")))
        if r[1] in (("arg", "counts"), ("arg", "servers")):
            return NULL
        return DW.cell(self, r, o)

    def oracle(self, path, pr, a, b):
        """identifiers the server gives are not null, and no value is null or the mark of absence"""
        d = a - b
        at = d.atoms()
        if at and all(isinstance(t, tuple) and t[0] in ("newid", "contid", "w", "dim", "type", "part", "cons", "user") for t in at) and \
                (a.const() is not None or b.const() is not None):
            if pr in ("eq", "ne"):
                return pr == "ne"
            if pr in ("gt", "ge", "ugt", "uge", "sgt", "sge") and b.const() == 0:
                return True
            if pr in ("lt", "le", "ult", "ule", "slt", "sle") and b.const() == 0:
                return False
        return DW.oracle(self, path, pr, a, b)

    # ---- identifiers and messages
    def ext(self, f, args, path, x):
        st = path.extra or {}
        if f == "PDC_id_register":
            ids = st.get("ids", ())
            path.extra = dict(st, ids=ids + (args[1],))
            return c(1000 + len(ids))
        if f == "PDC_find_id":
            ids = st.get("ids", ())
            k = args[0].const()
            k = None if k is None else k - 1000
            if k is None or not 0 <= k < len(ids) or ids[k] is None:
                return NULL
            return self.struct(path, ("id", k), "_pdc_id_info", obj_ptr=ids[k])
        if f == "HG_Forward":
            path.extra = dict(st, sent=st.get("sent", ()) + (self.cells(path, args[3]),), pending=(args[1], args[2]))
            return NULL
        if f == "PDC_Client_check_response":
            p = st.get("pending")
            if p is None:
                path.ev("badcall", x); return NULL
            path.extra = dict(st, pending=None)
            self.deliver(path, p, x)
            return NULL
        if f == "HG_Get_output":
            r, o = Interp.split(args[1])
            fill = st.get("answer")
            if fill is None or r is None:
                path.ev("badcall", x); return NULL
            for k, v in fill(path).items():
                path.mem[(r, o.const() + k)] = v
            return NULL
        if f == "MPI_Comm_rank" or f == "MPI_Comm_size":
            return NULL
        if f in ONE:
            return NULL
        return DW.ext(self, f, args, path, x)

    def cells(self, path, p):
        r, o = Interp.split(p)
        m = Cells((k[1] - o.const(), v) for k, v in path.mem.items() if k[0] == r)
        m.zero = r in path.zero
        m.text = {}
        for k, v in m.items():                       # strings as they are when the message is sent
            q = Interp.split(v)[0]
            if q is not None and q not in path.freed:
                t = self.text(path, v, "")
                if t is not None:
                    m.text[k] = t
        return m

    def deliver(self, path, p, x):
        cb, arg = p
        n = next((a[1][1] for a in cb.atoms() if isinstance(a, tuple) and a[0] == "reg" and a[1][0] == "glob"), None)
        f = self.P.fns.get(n) or next((self.P.fns[a[1]] for a in cb.atoms() if isinstance(a, tuple) and a[1] in self.P.fns), None)
        if f is None:
            raise AnalysisBroken("the answer goes to something that is not a function (%s)" % cb)
        info = self.struct(path, "cbinfo", "hg_cb_info", arg=arg, ret=NULL)
        outs = self.I.run(f, [info], path.copy())
        if len(outs) != 1:
            raise AnalysisBroken("%s: undecided" % f.name)
        q = outs[0][1]
        path.__dict__.update(q.__dict__)

    # ---- reading structures
    def ptr(self, path, p, st, field):
        return self.I.load(p + c(self.L.off(st, field)), path)

    def val(self, path, p, st, field, i=0):
        o, z, t = self.L.fields(st)[field]
        return self.I.load(p + c(o + 8 * i), path)

    def str(self, path, p):
        return None if p == NULL else self.text(path, p, "")


PROP, PUB, INFO, IPUB, META, WIRE = "_pdc_obj_prop", "pdc_obj_prop", "_pdc_obj_info", "pdc_obj_info", "pdc_metadata_t", "pdc_metadata_transfer_t"


class Given:
    """what a property list was given"""
    KEYS = ("ndim", "dims", "type", "part", "cons", "user", "ts", "app", "loc", "tags")

    def __init__(self, **k):
        self.ndim = 0; self.dims = (); self.type = None; self.part = None; self.cons = None; self.user = NULL
        self.ts = NULL; self.app = None; self.loc = None; self.tags = None
        self.__dict__.update(k)

    def with_(self, **k):
        d = dict(self.__dict__); d.update(k)
        return Given(**d)


class Client:
    def __init__(self, P, G):
        self.W = FW(P); self.G = G
        self.e = {}
        for n, e in P.enums.items():
            try:
                self.e.update({k: v for k, v in (e.items() if isinstance(e, dict) else e)})
            except (TypeError, ValueError):
                pass

    def const(self, n):
        if n not in self.e:
            raise AnalysisBroken("constant %s not found" % n)
        return c(self.e[n])

    def start(self):
        W = self.W
        p = Path(); p.extra = {}
        cls = W.struct(p, "class", "_pdc_class", name=lit(p, "pdc"), local_id=c(77))
        cont = W.struct(p, "cont", "_pdc_cont_info", cont_info_pub=W.struct(p, "contpub", "pdc_cont_info", name=lit(p, "cont"), meta_id=atom("contid"), local_id=c(1001)),
                        cont_pt=W.struct(p, "contprop", "_pdc_cont_prop", pdc=cls, cont_prop_id=c(5), cont_life=NULL))
        p.extra = {"ids": (cls, cont)}
        return p

    def do(self, op, hist, path, fn, *args):
        v, q, bad = self.W.do(path, fn, *args)
        self.G.judge(op, bad and "%s (%s)" % (bad, hist), True, "")
        return None if bad or q is None else (v, q)

    def create(self, p, hist):
        r = self.do("make a property list", hist, p, "PDCprop_create", self.const("PDC_OBJ_CREATE"), c(1000))
        if r is None:
            return None
        g = Given(type=self.const("PDC_UNKNOWN"), part=self.const("PDC_REGION_STATIC"), cons=self.const("PDC_CONSISTENCY_EVENTUAL"))
        return r[1], r[0], g

    SET = ("dims1", "dims2", "dims3", "dims4", "type", "part", "cons", "user", "ts", "app", "loc", "tags")

    def set(self, p, q, g, what, tag, hist):
        W = self.W
        if what.startswith("dims"):
            n = int(what[4:])
            d = tuple(atom("dim", tag, i) for i in range(n))
            a = W.out(p, "dims", 8 * n)
            for i, v in enumerate(d):
                p.mem[(Interp.split(a)[0], 8 * i)] = v
            fn, args, g = "PDCprop_set_obj_dims", (c(n), a), g.with_(ndim=n, dims=d)
        elif what in ("app", "loc", "tags"):
            s = "%s %s" % (what, tag)
            b = W.out(p, "text", len(s) + 1)
            for i, ch in enumerate(s.encode() + b"\0"):
                p.mem[(Interp.split(b)[0], i)] = c(ch)
            fn = {"app": "PDCprop_set_obj_app_name", "loc": "PDCprop_set_obj_data_loc", "tags": "PDCprop_set_obj_tags"}[what]
            args, g = (b,), g.with_(**{what: s})
        else:
            v = c(3 + len(tag)) if what == "ts" else atom(what, tag)
            fn = {"type": "PDCprop_set_obj_type", "part": "PDCprop_set_obj_transfer_region_type", "cons": "PDCprop_set_obj_consistency_semantics",
                  "user": "PDCprop_set_obj_user_id", "ts": "PDCprop_set_obj_time_step"}[what]
            args, g = (v,), g.with_(**{what: v})
        r = self.do("set " + what.rstrip("1234"), hist, p, fn, q, *args)
        if r is None:
            return None
        for k in [k for k in r[1].mem if k[0] in (("reg", ("arg", "text")), ("reg", ("arg", "dims")))]:
            r[1].mem[k] = atom("changed")            # the caller reuses what it passed
        return r[1], q, g

    # ---- judging
    def wrong_pub(self, p, pub, g):
        W = self.W
        f = lambda n: W.val(p, pub, PUB, n)
        if f("ndim") != c(g.ndim):
            return "it has %s dimensions instead of %d" % (f("ndim"), g.ndim)
        for i in range(g.ndim):
            if W.I.load(f("dims") + c(8 * i), p) != g.dims[i]:
                return "its dimension %d is not what was given" % i
        for k, n in (("type", "data type"), ("region_partition", "partition"), ("consistency", "consistency")):
            if f(k) != {"type": g.type, "region_partition": g.part, "consistency": g.cons}[k]:
                return "its %s is not what was given" % n
        return None

    def wrong_prop(self, p, q, g):
        W = self.W
        w = self.wrong_pub(p, W.ptr(p, q, PROP, "obj_prop_pub"), g)
        if w:
            return w
        for k, v in (("user_id", g.user), ("time_step", g.ts)):
            if W.val(p, q, PROP, k) != v:
                return "its %s is not what was given" % k
        for k, v in (("app_name", g.app), ("data_loc", g.loc), ("tags", g.tags)):
            if W.str(p, W.ptr(p, q, PROP, k)) != v:
                return "its %s is not what was given" % k
        return None

    def wrong_meta(self, p, m, want, strs, dims):
        W = self.W
        for k, v in want.items():
            if W.val(p, m, META, k) != v:
                return "its %s is not what was given" % k
        for k, v in strs.items():
            if W.metas(p, m, k) != (v or ""):
                return "its %s is %r instead of %r" % (k, W.metas(p, m, k), v)
        for i, v in enumerate(dims):
            if W.val(p, m, META, "dims", i) != v:
                return "its dimension %d is not what was given" % i
        return None

    def prop(self, p, q, g, hist):
        """the property list as the user and the library see it"""
        J = self.G.judge; W = self.W
        r = self.do("ask for a property list", hist, p, "PDCobj_prop_get_info", q)
        if r is None:
            return False
        w = self.wrong_pub(r[1], r[0], g) if r[0] != NULL else "there is no answer"
        J("property list", w and "%s (%s)" % (w, hist), True, "")
        r = self.do("ask for a property list", hist, p, "PDC_obj_prop_get_info", q)
        if r is None:
            return False
        w2 = self.wrong_prop(p, p.extra["ids"][q.const() - 1000], g)
        w2 = w2 or (self.wrong_prop(r[1], r[0], g) if r[0] != NULL else "there is no answer")
        J("property list (internal)", w2 and "%s (%s)" % (w2, hist), True, "")
        return not w and not w2

    def seen(self, p, oid, name, g, meta_id, server, hist, how):
        W = self.W; J = self.G.judge
        r = self.do("ask for the properties of an object " + how, hist, p, "PDCobj_get_info", oid)
        if r is None:
            return
        v, q = r
        if v == NULL:
            J("object " + how, "there is no answer (%s)" % hist, True, ""); return
        w = None
        if W.str(q, W.ptr(q, v, IPUB, "name")) != name:
            w = "its name is not what was given"
        elif W.val(q, v, IPUB, "meta_id") != meta_id:
            w = "its identifier is not what the server gave"
        elif W.val(q, v, IPUB, "metadata_server_id") != server:
            w = "its metadata server is another one"
        elif W.val(q, v, IPUB, "local_id") != oid:
            w = "its local identifier is another one"
        w = w or self.wrong_pub(q, W.ptr(q, v, IPUB, "obj_pt"), g)
        J("object " + how, w and "%s (%s)" % (w, hist), True, "")
        r = self.do("ask for the dimensions of an object " + how, hist, *self.dimsargs(p, oid))
        if r is None:
            return
        q = r[1]
        nd = q.mem.get((("reg", ("arg", "nd")), 0)); dp = q.mem.get((("reg", ("arg", "dp")), 0))
        ok = nd == c(g.ndim) and (g.ndim == 0 or dp is not None and all(W.I.load(dp + c(8 * i), q) == g.dims[i] for i in range(g.ndim)))
        J("dimensions of an object " + how, None if ok else "the dimensions are not what was given (%s)" % hist, True, "")

    def dimsargs(self, p, oid):
        p = p.copy()
        return p, "PDCobj_get_dims", oid, self.W.out(p, "nd", 4), self.W.out(p, "dp", 8)

    def make(self, p, q, g, hist, close=True):
        W = self.W; J = self.G.judge
        p = p.copy(); p.extra = dict(p.extra, sent=(), answer=lambda path: {W.L.off("gen_obj_id_out_t", "obj_id"): atom("newid")})
        r = self.do("create an object", hist, p, "PDCobj_create", c(1001), lit(p, "thing"), q)
        if r is None:
            return
        v, n = r
        if v == NULL or len(n.extra["sent"]) != 1:
            J("create an object", "%d requests were sent, the identifier is %s (%s)" % (len(n.extra["sent"]), v, hist), True, ""); return
        m = n.extra["sent"][0]; w = None
        d = W.L.off("gen_obj_id_in_t", "data"); F = W.L.fields(WIRE)
        want = {"cont_id": atom("contid"), "time_step": g.ts, "user_id": g.user, "ndim": c(g.ndim), "region_partition": g.part, "consistency": g.cons}
        want.update({"dims%d" % i: g.dims[i] if i < g.ndim else NULL for i in range(4)})
        for k, e in want.items():
            if m.get(d + F[k][0]) != e:
                w = w or "the server is told %s for its %s" % (m.get(d + F[k][0]), k)
        if m.get(W.L.off("gen_obj_id_in_t", "data_type")) != g.type:
            w = w or "the server is told another data type"
        for k, e in (("obj_name", "thing"), ("app_name", g.app or "Noname"), ("tags", g.tags or " "), ("data_location", g.loc or " ")):
            if m.text.get(d + F[k][0]) != e:
                w = w or "the server is told %r for its %s" % (m.text.get(d + F[k][0]), k)
        if m.get(W.L.off("gen_obj_id_in_t", "hash_value")) != c(W.hash_of("thing")):
            w = w or "the request carries another hash"
        J("creation request", w and "%s (%s)" % (w, hist), True, "")
        server = c((W.hash_of("thing") + (g.ts.const() or 0)) % 2)
        ds = m.get(d + F["data_server_id"][0])
        # the object as the library knows it
        o = n.extra["ids"][v.const() - 1000]
        md = W.ptr(n, o, INFO, "metadata")
        w = self.wrong_meta(n, md, {"obj_id": atom("newid"), "cont_id": atom("contid"), "time_step": g.ts, "user_id": g.user, "ndim": c(g.ndim), "data_type": g.type,
                                    "region_partition": g.part, "consistency": g.cons, "data_server_id": ds},
                            {"obj_name": "thing", "app_name": g.app, "tags": g.tags, "data_location": g.loc}, g.dims)
        J("metadata of a created object", w and "%s (%s)" % (w, hist), True, "")
        w = self.wrong_prop(n, W.ptr(n, o, INFO, "obj_pt"), g)
        J("properties of a created object", w and "%s (%s)" % (w, hist), True, "")
        self.seen(n, v, "thing", g, atom("newid"), server, hist, "just created")
        if close:                                    # the property list goes, the object stays as it is
            x = self.close(n, q, hist)
            if x:
                self.seen(x, v, "thing", g, atom("newid"), server, hist + ", the property list closed", "just created")

    def close(self, p, q, hist):
        f = next((k for k in self.W.P.fns if k.split("#")[0] == "pdc_prop_obj_close"), None)
        if f is None:
            raise AnalysisBroken("closing a property list not found")
        k = q.const() - 1000
        r = self.do("close the property list", hist, p.copy(), f, p.extra["ids"][k])
        if not r:
            return None
        x = r[1]; ids = list(x.extra["ids"]); ids[k] = None; x.extra = dict(x.extra, ids=tuple(ids))
        return x

    def open(self, nd, tnd, hist, call="PDCobj_open"):
        W = self.W; J = self.G.judge
        p = self.start()
        F = W.L.fields(WIRE); r0 = W.L.off("metadata_query_out_t", "ret")
        strs = {"obj_name": "thing", "app_name": "some app", "tags": "some tags", "data_location": "/there"}
        state = NULL if tnd is None else c(4)

        def ans(path):
            m = {}
            for k, (o, z, t) in F.items():
                m[r0 + o] = lit(path, strs[k]) if k in strs else c(nd) if k == "ndim" else state if k == "current_state" else \
                    c(tnd or 0) if k == "t_ndim" else c(2) if k == "time_step" else c(9) if k == "user_id" else atom("w", k)
            return m
        p.extra = dict(p.extra, sent=(), answer=ans)
        r = self.do("open an object", hist, p, call, lit(p, "thing"), c(1000))
        if r is None:
            return
        v, n = r
        if v == NULL:
            J("open an object", "it is not opened (%s)" % hist, True, ""); return
        m = n.extra["sent"][0]; I = W.L.fields("metadata_query_in_t")
        w = None
        if m.text.get(I["obj_name"][0]) != "thing" or m.get(I["hash_value"][0]) != c(W.hash_of("thing")) or m.get(I["time_step"][0]) != NULL:
            w = "another object is asked for"
        J("open request", w and "%s (%s)" % (w, hist), True, "")
        g = Given(ndim=nd, dims=tuple(atom("w", "dims%d" % i) for i in range(nd)), type=atom("w", "data_type"), part=atom("w", "region_partition"),
                  cons=atom("w", "consistency"), user=c(9), ts=c(2), app="some app", loc="/there", tags="some tags")
        o = n.extra["ids"][v.const() - 1000]
        md = W.ptr(n, o, INFO, "metadata")
        want = {"obj_id": atom("w", "obj_id"), "cont_id": atom("w", "cont_id"), "time_step": g.ts, "user_id": g.user, "ndim": c(nd), "data_type": g.type,
                "region_partition": g.part, "consistency": g.cons, "data_server_id": atom("w", "data_server_id"), "transform_state": state}
        w = self.wrong_meta(n, md, want, strs, g.dims)
        T = W.L.fields("_pdc_transform_state")
        for where, base in (("metadata", md + c(W.L.off(META, "current_state"))), ("properties", W.ptr(n, o, INFO, "obj_pt") + c(W.L.off(PROP, "transform_prop")))):
            if tnd is not None:
                for k in ("storage_order", "dtype", "ndim"):
                    e = c(tnd) if k == "ndim" else atom("w", "t_" + k)
                    if W.I.load(base + c(T[k][0]), n) != e:
                        w = w or "the %s of its transform state in its %s is another one" % (k, where)
                for i in range(tnd):
                    if W.I.load(base + c(T["dims"][0] + 8 * i), n) != atom("w", "t_dims%d" % i):
                        w = w or "a dimension of its transform state in its %s is another one" % where
        J("metadata of an opened object", w and "%s (%s)" % (w, hist), True, "")
        q = W.ptr(n, o, INFO, "obj_pt")
        w = self.wrong_prop(n, q, g.with_(loc=W.str(n, W.ptr(n, q, PROP, "data_loc")), tags=W.str(n, W.ptr(n, q, PROP, "tags"))))
        J("properties of an opened object", w and "%s (%s)" % (w, hist), True, "")
        for k, what in (("region_list_head", "list of mapped regions"), ("local_transfer_request_head", "list of transfers"), ("local_transfer_request_end", "list of transfers"),
                        ("local_transfer_request_size", "number of transfers")):
            if W.val(n, o, INFO, k) != NULL:
                w = w or "its %s does not start empty" % what
        if W.val(n, W.ptr(n, W.ptr(n, o, INFO, "cont"), "_pdc_cont_info", "cont_info_pub"), "pdc_cont_info", "meta_id") != atom("w", "cont_id"):
            w = w or "its container is another one"
        J("an opened object", w and "%s (%s)" % (w, hist), True, "")
        self.seen(n, v, "thing", g, atom("w", "obj_id"), c(W.hash_of("thing") % 2), hist, "just opened")

    def absent(self):
        W = self.W
        p = self.start()
        F = W.L.fields(WIRE); r0 = W.L.off("metadata_query_out_t", "ret")

        def ans(path):
            m = {r0 + o: lit(path, " ") if k in ("obj_name", "app_name", "tags", "data_location") else NULL for k, (o, z, t) in F.items()}
            m[r0 + F["user_id"][0]] = c(-1); m[r0 + F["time_step"][0]] = c(-1)
            return m
        p.extra = dict(p.extra, sent=(), answer=ans)
        r = self.do("open an object that is not there", "", p, "PDCobj_open", lit(p, "thing"), c(1000))
        if r:
            self.G.judge("open an object that is not there", None if r[0] == NULL else "it gets an identifier", True, "")


def props(P, G, th):
    C = Client(P, G)
    r = C.create(C.start(), "a new property list")
    if r is None:
        return
    C.prop(*r, "a new property list")
    C.make(*r, "a new property list")
    hists = [(s,) for s in C.SET]
    hists += [(a, b) for a in C.SET for b in C.SET if th or a[:4] == b[:4] or (a, b) in (("dims2", "type"), ("app", "tags"), ("loc", "app"), ("user", "ts"))]
    hists.append(("dims3", "type", "part", "cons", "user", "ts", "app", "loc", "tags"))
    hists.append(("tags", "loc", "app", "ts", "user", "cons", "part", "type", "dims4"))
    base = r
    for h in hists:
        p, q, g = base[0].copy(), base[1], base[2]
        name = "set " + ", ".join(h)
        for i, s in enumerate(h):
            r = C.set(p.copy(), q, g, s, "x" * i, name)
            if r is None:
                break
            p, q, g = r
        else:
            C.G.chk.count("histories")
            C.prop(p, q, g, name)
            C.make(p, q, g, name, close=len(h) != 2)
            if len(h) == 2:
                continue
            d = C.do("copy a property list", name, p, "PDCprop_obj_dup", q)
            if d is None:
                continue
            g2 = g.with_(type=C.const("PDC_UNKNOWN"), loc=None)
            n2 = name + ", copied"
            if C.prop(d[1], d[0], g2, n2):
                C.make(d[1], d[0], g2, n2)
                x = C.close(d[1], q, n2)
                if x:
                    C.prop(x, d[0], g2, n2 + ", the original closed")
                    C.close(x, d[0], n2 + ", both closed")
                r = C.set(d[1].copy(), d[0], g2, "dims1", "later", n2 + ", then changed")
                if r:
                    C.prop(r[0], q, g, n2 + ", the copy changed")


def opens(P, G, th):
    C = Client(P, G)
    for nd in (1, 2, 3, 4):
        for t in (None, 1, 4) if th or nd == 2 else (None, nd):
            C.open(nd, t, "%d dimensions%s" % (nd, "" if t is None else ", transformed to %d" % t))
            G.chk.count("histories")
    C.absent()


TR, LIST, RINFO, HIST, KV, QUERY, CON, XFER = ("region_info_transfer_t", "region_list_t", "pdc_region_info", "pdc_histogram_t", "pdc_kvtag_t", "pdc_query_t",
                                               "pdc_query_constraint_t", "pdc_query_xfer_t")


class Conv:
    """every conversion, from a source with a value of its own in every field"""

    def __init__(self, P, G):
        self.W = FW(P); self.G = G

    def fields(self, st, skip=()):
        return {k: v for k, v in self.W.L.fields(st).items() if k not in skip}

    def fill(self, p, tag, st, text=(), **given):
        """a structure whose every field, and element of an array field, has its own value"""
        W = self.W
        q = W.struct(p, tag, st)
        r = Interp.split(q)[0]
        for k, (o, z, t) in self.fields(st).items():
            p.mem[(r, o)] = given[k] if k in given else lit(p, "%s of it" % k) if k in text else atom("w", tag, k)
        return q, r

    def call(self, name, p, fn, *args):
        self.G.chk.count("histories")
        v, q, bad = self.W.do(p, fn, *args)
        self.G.judge(name, bad, True, "")
        return None if bad or q is None else (v, q)

    def say(self, name, w, ctx=""):
        self.G.judge(name, w and (w + (" (%s)" % ctx if ctx else "")), True, "")

    def meta(self):
        W = self.W
        WF, MF, T = W.L.fields(WIRE), W.L.fields(META), W.L.fields("_pdc_transform_state")
        strs = ("app_name", "obj_name", "tags", "data_location")
        pair = {k: ("transform_state" if k == "current_state" else k) for k in WF if k in MF or k == "current_state"}
        state = {"t_storage_order": "storage_order", "t_dtype": "dtype", "t_ndim": "ndim", "t_meta_index": "meta_index"}
        where = {}
        for k in WF:
            if k in strs:
                continue
            if k in pair:
                where[k] = MF[pair[k]][0]
            elif k in state:
                where[k] = MF["current_state"][0] + T[state[k]][0]
            elif k.startswith("t_dims") and k[6:].isdigit():
                where[k] = MF["current_state"][0] + T["dims"][0] + 8 * int(k[6:])
            elif k.startswith("dims") and k[4:].isdigit():
                where[k] = MF["dims"][0] + 8 * int(k[4:])
            else:
                raise AnalysisBroken("field %s of the wire form has no known place in the metadata" % k)
        for st in (0, 4):
            p = Path(); p.extra = {}
            q, r = self.fill(p, "wire", WIRE, strs, current_state=c(st))
            m = W.struct(p, "meta", META)
            x = self.call("metadata from the wire", p, "PDC_transfer_t_to_metadata_t", q, m)
            if x:
                v, n = x; w = None if v.const() == 1 or v.const() is not None and v.const() >= 0 else "it fails"
                for k, o in where.items():
                    e = NULL if st == 0 and k.startswith("t_") else c(st) if k == "current_state" else atom("w", "wire", k)
                    if W.I.load(m + c(o), n) != e:
                        w = w or "its %s is not what was sent" % k
                for k in strs:
                    if W.metas(n, m, k) != "%s of it" % k:
                        w = w or "its %s is not what was sent" % k
                self.say("metadata from the wire", w, "transform state %d" % st)
        p = Path(); p.extra = {}
        m = W.struct(p, "meta", META); r = Interp.split(m)[0]
        for k, o in where.items():
            p.mem[(r, o)] = atom("w", "meta", k)
        q = W.struct(p, "wire", WIRE)
        x = self.call("metadata to the wire", p, "PDC_metadata_t_to_transfer_t", m, q)
        if x:
            v, n = x; w = None
            for k, o in where.items():
                if W.I.load(q + c(WF[k][0]), n) != atom("w", "meta", k):
                    w = w or "its %s is not what is kept" % k
            for k in strs:
                if W.I.load(q + c(WF[k][0]), n) != m + c(MF[k][0]):
                    w = w or "its %s is not what is kept" % k
            self.say("metadata to the wire", w)

    def region(self, p, form, tag, n):
        """a region in one of its forms"""
        W = self.W; S = lambda i: atom("start", tag, i); C = lambda i: atom("count", tag, i)
        if form == "wire":
            q = W.struct(p, tag, TR); r = Interp.split(q)[0]; F = W.L.fields(TR)
            p.mem[(r, F["ndim"][0])] = c(n)
            for i in range(4):
                p.mem[(r, F["start_%d" % i][0])] = S(i) if i < n else NULL
                p.mem[(r, F["count_%d" % i][0])] = C(i) if i < n else NULL
        elif form == "list":
            q = W.struct(p, tag, LIST); r = Interp.split(q)[0]; F = W.L.fields(LIST)
            p.mem[(r, F["ndim"][0])] = c(n)
            for i in range(4):
                p.mem[(r, F["start"][0] + 8 * i)] = S(i)
                p.mem[(r, F["count"][0] + 8 * i)] = C(i)
        else:
            off, size = W.out(p, tag + "offset", 8 * n), W.out(p, tag + "size", 8 * n)
            for i in range(n):
                p.mem[(Interp.split(off)[0], 8 * i)] = S(i)
                p.mem[(Interp.split(size)[0], 8 * i)] = C(i)
            q = W.struct(p, tag, RINFO, ndim=c(n), offset=off, size=size)
        return q

    def at(self, p, form, q, i, what):
        W = self.W
        if what == "ndim":
            return W.I.load(q + c(W.L.off({"wire": TR, "list": LIST}.get(form, RINFO), "ndim")), p)
        if form == "wire":
            return W.I.load(q + c(W.L.off(TR, "%s_%d" % (what, i))), p)
        if form == "list":
            return W.I.load(q + c(W.L.off(LIST, what) + 8 * i), p)
        b = W.I.load(q + c(W.L.off(RINFO, "offset" if what == "start" else "size")), p)
        return W.I.load(b + c(8 * i), p)

    def regions(self):
        W = self.W; u = atom("unit")
        for fn, a, b, extra in (("PDC_region_info_t_to_transfer", "info", "wire", ()), ("PDC_region_info_t_to_transfer_unit", "info", "wire", (u,)),
                                ("PDC_region_transfer_t_to_list_t", "wire", "list", ()), ("PDC_region_info_to_list_t", "info", "list", ()),
                                ("PDC_region_transfer_t_to_region_info", "wire", "new", ()), ("PDC_region_list_t_to_transfer", "list", "wire", ())):
            name = "a region from its %s form to its %s form%s" % (a, {"new": "info"}.get(b, b), ", in bytes" if extra else "")
            for n in (1, 2, 3, 4) + ((0, 5) if a == "info" else ()):
                p = Path(); p.extra = {}
                q = self.region(p, a, "from", n)
                to = W.struct(p, "to", LIST if b == "list" else TR)
                x = self.call(name, p, fn, *((q,) if b == "new" else (q, to)), *extra)
                if not x:
                    continue
                v, m = x; to = v if b == "new" else to
                if n in (0, 5):
                    k = v.const()
                    self.say(name, None if k is not None and k < 0 or k == 0xffffffff else "%d dimensions are taken" % n); continue
                w = None if self.at(m, b, to, 0, "ndim") == c(n) else "it has another number of dimensions"
                for i in range(n):
                    for what in ("start", "count"):
                        e = atom(what, "from", i) * (u if extra else c(1))
                        if self.at(m, b, to, i, what) != e:
                            w = w or "its %s in dimension %d is another one" % (what, i)
                if b == "wire" and a == "info":
                    for i in range(n, 4):
                        if self.at(m, b, to, i, "start") != NULL or self.at(m, b, to, i, "count") != NULL:
                            w = w or "dimension %d, which it does not have, is not sent as nothing" % i
                self.say(name, w, "%d dimensions" % n)
        for n in (1, 2, 3, 4):
            p = Path(); p.extra = {}
            q, r = self.fill(p, "from", LIST, (), ndim=c(n))
            arr = {"start": 4, "count": 4, "client_ids": 3, "shm_addr": 3, "storage_location": 3, "cache_location": 3}
            F = W.L.fields(LIST); cells = {}
            for k in F:
                z = {"start": 8, "count": 8, "client_ids": 4}.get(k, 1)
                for i in range(arr.get(k, 1)):
                    cells[F[k][0] + z * i] = k
                    if (r, F[k][0] + z * i) not in p.mem or k in arr:
                        p.mem[(r, F[k][0] + z * i)] = atom("w", "from", k, i)
            src = dict(p.mem)
            to = W.struct(p, "to", LIST)
            x = self.call("copying a region", p, "PDC_region_list_t_deep_cp", q, to)
            if x:
                v, m = x; w = None
                for o, k in cells.items():
                    e = NULL if k in ("prev", "next") else src[(r, o)]
                    if W.I.load(to + c(o), m) != e:
                        w = w or "its %s is another one" % k
                self.say("copying a region", w, "%d dimensions" % n)

    def hists(self):
        W = self.W; F = W.L.fields(HIST)
        for n in (1, 2, 3, 5):
            for name, fn, mode in (("copying a histogram", "PDC_dup_hist", 0), ("copying a histogram into an empty one", "PDC_copy_hist", 1), ("copying a histogram into another", "PDC_copy_hist", 2)):
                p = Path(); p.extra = {}
                rg, bn = W.out(p, "range", 16 * n), W.out(p, "bin", 8 * n)
                for i in range(2 * n):
                    p.mem[(Interp.split(rg)[0], 8 * i)] = atom("w", "range", i)
                for i in range(n):
                    p.mem[(Interp.split(bn)[0], 8 * i)] = atom("w", "bin", i)
                q = W.struct(p, "hist", HIST, dtype=atom("w", "dtype"), nbin=c(n), incr=atom("w", "incr"), range=rg, bin=bn)
                to = W.struct(p, "to", HIST, dtype=NULL, nbin=c(n if mode == 2 else 0), incr=NULL, range=W.out(p, "oldrange", 16 * n) if mode == 2 else NULL,
                              bin=W.out(p, "oldbin", 8 * n) if mode == 2 else NULL)
                x = self.call(name, p, fn, *((to, q) if mode else (q,)))
                if not x:
                    continue
                v, m = x; to = to if mode else v
                w = None
                for k, e in (("dtype", atom("w", "dtype")), ("nbin", c(n)), ("incr", atom("w", "incr"))):
                    if W.val(m, to, HIST, k) != e:
                        w = w or "its %s is another one" % k
                for k, z in (("range", 2 * n), ("bin", n)):
                    b = W.ptr(m, to, HIST, k)
                    if b == (rg if k == "range" else bn):
                        w = w or "its %s is the other's" % k
                    for i in range(z):
                        if W.I.load(b + c(8 * i), m) != atom("w", k, i):
                            w = w or "its %s %d is another one" % (k, i)
                self.say(name, w, "%d bins" % n)

    def tags(self):
        W = self.W
        for s, n in (("a", 1), ("name", 3), ("a longer name", 8)):
            p = Path(); p.extra = {}
            b, nm = W.out(p, "value", n), W.out(p, "name", len(s) + 1)
            for i in range(n):
                p.mem[(Interp.split(b)[0], i)] = atom("w", "byte", i)
            for i, ch in enumerate(s.encode() + b"\0"):
                p.mem[(Interp.split(nm)[0], i)] = c(ch)
            q = W.struct(p, "tag", KV, name=nm, size=c(n), type=atom("w", "type"), value=b)
            to = W.out(p, "to", 8)
            x = self.call("copying a tag", p, "PDC_kvtag_dup", q, to)
            if not x:
                continue
            m = x[1]
            for k in [k for k in m.mem if k[0] in (Interp.split(b)[0], Interp.split(nm)[0])]:
                m.mem[k] = atom("changed")           # the original changes
            t = W.I.load(to, m); w = None
            for k, e in (("size", c(n)), ("type", atom("w", "type"))):
                if W.val(m, t, KV, k) != e:
                    w = w or "its %s is another one" % k
            if W.str(m, W.ptr(m, t, KV, "name")) != s:
                w = w or "its name is another one"
            v = W.ptr(m, t, KV, "value")
            if any(W.I.load(v + c(i), m) != atom("w", "byte", i) for i in range(n)):
                w = w or "its value is another one"
            self.say("copying a tag", w, "%d bytes" % n)

    # ---- queries
    def node(self, p, t, tag):
        W = self.W
        if isinstance(t, tuple):
            q = W.struct(p, "node" + tag, QUERY, constraint=NULL, left=self.node(p, t[1], tag + "l"), right=self.node(p, t[2], tag + "r"), combine_op=c(t[0]))
        else:
            k, r = self.fill(p, "con" + tag, CON)
            q = W.struct(p, "node" + tag, QUERY, constraint=k, left=NULL, right=NULL, combine_op=NULL)
        p.mem[(Interp.split(q)[0], W.L.off(QUERY, "region"))] = NULL
        return q

    def same(self, m, q, t, tag):
        W = self.W
        if q == NULL:
            return "a part of the query is missing"
        con, l, r, op = (W.ptr(m, q, QUERY, k) for k in ("constraint", "left", "right", "combine_op"))
        if isinstance(t, tuple):
            if op != c(t[0]):
                return "two parts are combined in another way"
            if con != NULL:
                return "a combination has a condition of its own"
            return self.same(m, l, t[1], tag + "l") or self.same(m, r, t[2], tag + "r")
        if l != NULL or r != NULL:
            return "a condition has parts"
        for k, (o, z, ty) in self.fields(CON).items():
            if W.I.load(con + c(o), m) != atom("w", "con" + tag, k):
                return "the %s of a condition is another one" % k
        return None

    def queries(self, th):
        W = self.W
        trees = {1: ["x"]}
        for k in range(2, 5 if th else 4):
            trees[k] = [(op, a, b) for i in range(1, k) for a in trees[i] for b in trees[k - i] for op in (1, 2)]
        for k in trees:
            for t in trees[k]:
                for nd in (0, 2) if k < 3 else (3,):
                    p = Path(); p.extra = {}
                    q = self.node(p, t, "")
                    if nd:
                        p.mem[(Interp.split(q)[0], W.L.off(QUERY, "region"))] = self.region(p, "info", "sel", nd)
                    x = self.call("a query to the wire", p, "PDC_serialize_query", q)
                    if not x:
                        continue
                    v, m = x
                    n = W.val(m, v, XFER, "n_constraints")
                    self.say("a query to the wire", None if n == c(k) else "%s conditions are sent instead of %d" % (n, k), str(t))
                    x = self.call("a query from the wire", m, "PDC_deserialize_query", v)
                    if not x:
                        continue
                    v, m = x
                    w = self.same(m, v, t, "")
                    rc = W.ptr(m, v, QUERY, "region_constraint")
                    if not w and self.at(m, "list", rc, 0, "ndim") != c(nd):
                        w = "it selects within a region of another dimension"
                    for i in range(nd):
                        for what in ("start", "count"):
                            if self.at(m, "list", rc, i, what) != atom(what, "sel", i):
                                w = w or "it selects within another region"
                    self.say("a query from the wire", w, "%s" % (t,))


def convs(P, G, th):
    C = Conv(P, G)
    C.meta(); C.regions(); C.hists(); C.tags(); C.queries(th)


def run():
    chk = Check(PID, "creating, opening and asking for an object gives the properties it was given; conversions keep every field")
    th = chk.tier == "thorough"
    P = ir.program("client")
    for name, f in (("property lists", props), ("opening", opens), ("conversions", convs)):
        if os.environ.get("F01") and os.environ["F01"] not in name:
            continue
        with Group(chk, name) as G:
            f(P, G, th)
    chk.analysed = {"parts": ["property lists", "opening", "conversions"]}
    chk.assumptions += ["the server answers a creation with the identifier it gave, and a query with what it keeps (O01)", "names, tags and locations fit the fields they are stored in"]
    if not os.environ.get("F01"):
        chk.floor("obligations", 45)
        chk.floor("histories", 120)
        chk.floor("steps", 900)
    return chk.finish("the client's calls on property lists and objects, and every conversion of metadata, regions, histograms, tags and queries, interpreted with a symbolic "
                      "value of its own in each field; each step compared with what was given")
