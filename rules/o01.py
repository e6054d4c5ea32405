"""O01: the directory of a metadata server.  Creating, finding, changing, tagging, listing and deleting objects and containers
are abstractly interpreted over every history within a bound; the sizes, types and identifiers an object is given are symbolic,
names are known only by their characters and by a hash that may or may not collide.  After every step each lookup is compared
with an abstract directory, and every Bloom filter is abstracted by the set it was given (answering yes for members only, or
yes for everything)."""
import os
import itertools
import traceback
import multiprocessing as mp
import ir
from k01 import World, Group, Sink
from report import Check
from absint import Interp, Path
from sym import Poly
from cstr import Strings, lit
from frontend import AnalysisBroken

PID = "O01"
c = Poly.c
NULL = c(0)
HT, CT = "metadata_hash_table_g", "container_hash_table_g"
FIRST = 5000


def glob(n):
    return Poly.a(("reg", ("glob", n)))


def atom(*a):
    return Poly.a(a)


def matches(s, pat):
    if len(pat) == 1 and pat == "*":
        return True
    a, b = pat.startswith("*"), pat.endswith("*")
    core = pat[1 if a else 0:len(pat) - (1 if b else 0)]
    if a and b:
        return core in s
    return s.endswith(core) if a else s.startswith(core) if b else s == core


class DW(World):
    def __init__(self, P, hashes, liar=False):
        World.__init__(self, P, None, "directory")
        self.I = Interp(P, ext=self.ext, oracle=self.oracle, cell=self.cell, no_summary=True, max_paths=64, max_steps=400000)
        self.S = Strings(self.I)
        self.h = hashes; self.liar = liar
        self.globals = {"pdc_id_seq_g": FIRST}
        self.n = 0

    def cell(self, r, o):
        if isinstance(r[1], tuple) and r[1][0] == "glob" and r[1][1] in self.P.globals:
            g = self.P.globals[r[1][1]]
            if g.get("const") or g.get("str") is not None:
                return None
            if r[1][1] in self.globals:
                return c(self.globals[r[1][1]]) if o == 0 else None
            i = g.get("init")
            if o == 0 and isinstance(i, list) and i[0] == "c":
                return c(i[1])
            if i is None or i[0] in ("n", "z"):
                return NULL
        return None

    # ---- environment
    def ext(self, f, args, path, x):
        if f is None:
            return None
        if f == "PDC_get_hash_by_name":
            s = self.S.get(args[0], path, x)
            return c(self.hash_of(s.decode())) if s is not None else atom("badstr")
        if f == "simple_matches":
            a, b = self.S.get(args[0], path, x), self.S.get(args[1], path, x)
            return c(int(a is not None and b is not None and matches(a.decode(), b.decode())))
        if "counting_bloom" in f:
            return self.bloom(f, args, path, x)
        r = self.S.call(f, args, path, x)
        if r is not None:
            return r
        if f in ("PDC_get_global_mem_usage",):
            return atom("mem")
        return World.ext(self, f, args, path, x)

    def bloom(self, f, args, path, x):
        st = dict(path.extra or {})
        if f == "new_counting_bloom":
            self.n += 1
            p = Poly.a(("reg", ("bloom", len(st) + 1)))
            st[p.key()] = (); path.extra = st
            return p
        k = args[0].key()
        if k not in st:
            path.ev("badcall", x)
            return NULL
        if f == "free_counting_bloom":
            del st[k]; path.extra = st
            return NULL
        n = args[2].const()
        s = self.S.get(args[1], path, x)
        if s is None or n is None or n > len(s):
            path.ev("badcall", x)
            return NULL
        s = s[:n]
        if f == "counting_bloom_add":
            st[k] = st[k] + (s,); path.extra = st
            return NULL
        if f == "counting_bloom_remove":
            if s not in st[k]:
                path.ev("badbloom", x)
            else:
                l = list(st[k]); l.remove(s); st[k] = tuple(l); path.extra = st
            return NULL
        if f == "counting_bloom_check":
            return c(int(self.liar or s in st[k]))
        raise AnalysisBroken("unknown Bloom filter operation %s" % f)

    def oracle(self, path, pr, a, b):
        if pr not in ("eq", "ne"):
            return None
        d = a - b
        at = d.atoms()
        if at and all(isinstance(t, tuple) and t[0] == "kt" for t in at):      # a tag's type is its own and no string
            return pr == "ne"
        if any(isinstance(t, tuple) and t[0] == "reg" for t in at):
            ra, rb = Interp.split(a)[0], Interp.split(b)[0]
            if (ra is None) != (rb is None) or (ra is not None and ra != rb):
                return pr == "ne"
        return None

    def hash_of(self, s):
        if s not in self.h:
            self.h[s] = 7000 + len(self.h)
        return self.h[s]

    # ---- one call
    def do(self, path, fn, *args):
        v, q, bad = self.run(path, fn, *args)
        if q is None:
            return None, path, "%s ends the server" % fn
        for e in q.events:
            if e[0] == "uninit":
                bad = bad or "%s: reads memory that was never set" % self.loc(e[3])
            if e[0] == "badbloom":
                bad = bad or "%s: removes from a Bloom filter what was never added to it" % self.loc(e[1])
        if v is not None and any(isinstance(a, tuple) and a[0] == "badstr" for a in v.atoms()):
            bad = bad or "uses a string it cannot read"
        return v, q, bad

    def struct(self, path, name, st, /, **kw):
        r = ("reg", ("arg", name))
        for k in [k for k in path.mem if k[0] == r]:
            del path.mem[k]
        path.size[r] = self.P.structs[st]["size"]
        path.dirty = path.dirty - {r}
        self.L.put(path, ("arg", name), st, **kw)
        return Poly.a(r)

    def out(self, path, name, size=8, val=None):
        r = ("reg", ("arg", name))
        for k in [k for k in path.mem if k[0] == r]:
            del path.mem[k]
        path.size[r] = size
        if val is not None:
            path.mem[(r, 0)] = val
        return Poly.a(r)

    def fresh(self):
        p = Path()
        p.extra = {}
        v, p, bad = self.do(p, "PDC_Server_init_hash_table")
        return p, bad

    def text(self, path, p, what):
        """a stored string, read without judging"""
        q = path.copy()
        s = self.S.get(p, q, None)
        return None if s is None else s.decode("latin1")

    # ---- fields
    def meta(self, path, p, field, i=0):
        o, z, t = self.L.fields("pdc_metadata_t")[field]
        return self.I.load(p + c(o + 8 * i), path, None)

    def metas(self, path, p, field):
        return self.text(path, p + c(self.L.off("pdc_metadata_t", field)), field)


class Obj:
    __slots__ = ("id", "name", "ts", "user", "app", "tags", "loc", "ndim", "tag", "kv", "state")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def with_(self, **k):
        d = {s: getattr(self, s) for s in self.__slots__}
        d.update(k)
        return Obj(**d)

    def key(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def __repr__(self):
        return "%s@%d(user %d, app %r)" % (self.name, self.ts, self.user, self.app)


class Dir:
    """the abstract directory"""

    def __init__(self, objs=(), conts=(), seq=0, made=0):
        self.objs = objs; self.conts = conts; self.seq = seq; self.made = made

    def key(self):
        return tuple(o.key() for o in self.objs), self.conts, self.seq


def same(a, b):
    """two objects a user cannot tell apart: name, time step, and user and application where both have one"""
    return a[0] == b[0] and a[1] == b[1] and (a[2] <= 0 or b[2] <= 0 or a[2] == b[2]) and (not a[3] or not b[3] or a[3] == b[3])


WIRE = ("cont_id", "data_server_id", "region_partition", "consistency")


class Ops:
    """each operation: run it on (path, directory) and judge; returns (path, directory) or None"""

    def __init__(self, W, G):
        self.W = W; self.G = G

    def judge(self, op, bad, holds, what, hist):
        self.G.judge(op, bad and "%s (after %s)" % (bad, hist), holds, "%s (after %s)" % (what, hist))
        return not bad and holds

    def create(self, path, d, name, ts, user, app, hist, ndim=2, tags="t"):
        W = self.W
        tag = (name, ts, user, app)
        p = path.copy()
        dm = W.L.fields("pdc_metadata_transfer_t")
        o = W.L.off("gen_obj_id_in_t", "data")
        inp = W.struct(p, "in", "gen_obj_id_in_t", hash_value=c(W.hash_of(name)), data_type=atom("type", tag))
        r = Interp.split(inp)[0]
        vals = dict(user_id=c(user), app_name=lit(p, app), obj_name=lit(p, name), time_step=c(ts), obj_id=NULL,
                    data_type=atom("type2", tag), ndim=c(ndim), tags=lit(p, tags), data_location=lit(p, "loc"),
                    current_state=NULL, **{k: atom(k, tag) for k in WIRE}, **{"dims%d" % i: atom("dim", i, tag) for i in range(4)})
        for k, v in vals.items():
            p.mem[(r, o + dm[k][0])] = v
        out = W.out(p, "out")
        v, q, bad = W.do(p, "PDC_insert_metadata_to_hash_table", inp, out)
        if bad:
            self.judge("create", bad, True, "", hist); return None
        got = q.mem.get((Interp.split(out)[0], 0))
        dup = any(same((x.name, x.ts, x.user, x.app), tag) for x in d.objs)
        if dup:
            ok = got == NULL
            if not self.judge("create of an existing object", bad, ok, "%s@%d was created although the same object exists" % (name, ts)
                              if got is not None else "the answer is not set", hist):
                return None
            return q, d
        k = got.const() if got is not None else None
        if not self.judge("create", bad, k is not None and k >= FIRST and k not in [x.id for x in d.objs]
                          and k not in [x[0] for x in d.conts] and k >= FIRST + d.seq,
                          "%s@%d gets the identifier %s" % (name, ts, "of nothing" if k in (None, 0) else "of something else"), hist):
            return None
        ob = Obj(id=k, name=name, ts=ts, user=user, app=app, tags=tags, loc="loc", ndim=ndim, tag=tag, kv=(), state=None)
        return q, Dir(d.objs + (ob,), d.conts, k - FIRST + 1, d.made + 1)

    def faithful(self, path, p, o):
        """the stored record of an object; -> what is wrong"""
        W = self.W
        f = lambda n, i=0: W.meta(path, p, n, i)
        exp = {"obj_id": c(o.id), "user_id": c(o.user), "time_step": c(o.ts), "ndim": c(o.ndim), "data_type": atom("type", o.tag)}
        exp.update({k: atom(k, o.tag) for k in WIRE})
        for k, v in exp.items():
            if f(k) != v:
                return "its %s is not what was given" % k
        for i in range(4):
            if f("dims", i) != (atom("dim", i, o.tag) if i < o.ndim else NULL):
                return "its dimension %d is not what was given" % i
        for k, v in (("obj_name", o.name), ("app_name", o.app), ("tags", o.tags), ("data_location", o.loc)):
            if W.metas(path, p, k) != v:
                return "its %s is %r instead of %r" % (k, W.metas(path, p, k), v)
        st = o.state
        if f("transform_state") != (NULL if st is None else c(st)):
            return "its transform state is not what was given"
        if st is not None:
            cs = W.L.off("pdc_metadata_t", "current_state"); t = W.L.fields("_pdc_transform_state")
            for k, v in (("dtype", atom("tdt", st)), ("ndim", atom("tnd", st)), ("meta_index", atom("tmi", st))):
                if W.I.load(p + c(cs + t[k][0]), path) != v:
                    return "the %s of its transform state is not what was given" % k
            for i in range(4):
                if W.I.load(p + c(cs + t["dims"][0] + 8 * i), path) != atom("tdim", i, st):
                    return "a dimension of its transform state is not what was given"
        return None

    # ---- lookups: every one, after every step
    def observe(self, path, d, hist, names, steps):
        W = self.W; J = self.judge
        for o in d.objs:
            p = path.copy()
            out = W.out(p, "res", 8, NULL)
            v, q, bad = W.do(p, "PDC_Server_get_local_metadata_by_id", c(o.id), out)
            m = q.mem.get((Interp.split(out)[0], 0))
            if not J("look up by identifier", bad, m is not None and m != NULL and Interp.split(m)[0] is not None,
                     "%r is not found by its identifier" % o, hist):
                return False
            w = self.faithful(q, m, o)
            if not J("what is stored", None, w is None, "%r: %s" % (o, w), hist):
                return False
            v, q, bad = W.do(path, "find_metadata_by_id", c(o.id))
            J("find by identifier", bad, v == m, "%r is not found by its identifier" % o, hist)
            J("get object metadata", *self.third(path, "PDC_Server_get_obj_metadata", o.id, m), "%r is not found" % o, hist)
        dead = [k for k in range(FIRST, FIRST + d.seq) if k not in [o.id for o in d.objs]][:3] + [FIRST + d.seq, FIRST - 1]
        for k in dead:
            p = path.copy()
            out = W.out(p, "res", 8, atom("junk"))
            v, q, bad = W.do(p, "PDC_Server_get_local_metadata_by_id", c(k), out)
            J("look up a deleted or unknown identifier", bad, q.mem.get((Interp.split(out)[0], 0)) == NULL,
              "a deleted or unknown identifier is found", hist)
            v, q, bad = W.do(path, "find_metadata_by_id", c(k))
            J("find a deleted or unknown identifier", bad, v == NULL, "a deleted or unknown identifier is found", hist)
        for n in names:
            for ts in steps:
                cand = [o for o in d.objs if o.name == n and o.ts == ts]
                for fn in ("PDC_Server_search_with_name_timestep", "PDC_Server_search_with_name_hash"):
                    if fn.endswith("hash") and ts:
                        continue
                    p = path.copy()
                    out = W.out(p, "res", 8, atom("junk"))
                    a = [lit(p, n), c(W.hash_of(n))] + ([c(ts)] if fn.endswith("step") else []) + [out]
                    v, q, bad = W.do(p, fn, *a)
                    m = q.mem.get((Interp.split(out)[0], 0))
                    if not cand:
                        J("search for a name nobody has", bad, m == NULL, "%s@%d is found although it does not exist" % (n, ts), hist)
                        continue
                    ok = m is not None and Interp.split(m)[0] is not None and m != NULL and \
                        any(self.faithful(q, m, o) is None for o in cand)
                    J("search by name and time step", bad, ok, "%s@%d is %s" % (n, ts, "not found" if m == NULL else "answered with another object"), hist)
        n = path.mem.get((("reg", ("glob", "n_metadata_g")), 0), NULL)
        J("number of objects", None, n == c(len(d.objs)), "the server counts %s objects, there are %d" % (n.const(), len(d.objs)), hist)
        self.query(path, d, "list all", lambda o: True, hist, is_list_all=c(1))
        return True

    def third(self, path, fn, k, m):
        v, q, bad = self.W.do(path, fn, c(k))
        return bad, v == m

    def query(self, path, d, op, pred, hist, **kw):
        W = self.W
        p = path.copy()
        f = dict(is_list_all=NULL, user_id=c(-1), app_name=lit(p, " "), obj_name=lit(p, " "), time_step_from=c(-1),
                 time_step_to=c(-1), ndim=NULL, tags=lit(p, " "), k_query=lit(p, ""), vfrom_query=lit(p, ""), vto_query=lit(p, ""))
        for k, v in kw.items():
            f[k] = lit(p, v) if isinstance(v, str) else v
        inp = W.struct(p, "in", "metadata_query_transfer_in_t", **f)
        n, b = W.out(p, "n", 4), W.out(p, "buf", 8)
        v, q, bad = W.do(p, "PDC_Server_get_partial_query_result", inp, n, b)
        want = {o.id for o in d.objs if pred(o)}
        got = []
        if not bad:
            k = q.mem.get((Interp.split(n)[0], 0)); a = q.mem.get((Interp.split(b)[0], 0))
            k = k.const() if k is not None else None
            if k is None or a is None or k > 1000:
                got = None
            else:
                for i in range(k):
                    m = q.mem.get((Interp.split(a)[0], 8 * i))
                    got.append(W.meta(q, m, "obj_id").const() if m is not None else None)
        self.judge(op, bad, got is not None and None not in got and sorted(got) == sorted(want),
                   "the query gives %s objects, %s match (%s)" % (len(got) if got is not None else "no count of", len(want),
                                                               ", ".join(map(repr, d.objs))), hist)

    # ---- changes
    def delete_id(self, path, d, k, hist):
        W = self.W
        p = path.copy()
        inp = W.struct(p, "in", "metadata_delete_by_id_in_t", obj_id=c(k))
        out = W.out(p, "out", 4)
        v, q, bad = W.do(p, "PDC_Server_delete_metadata_by_id", inp, out)
        r = q.mem.get((Interp.split(out)[0], 0))
        known = k in [o.id for o in d.objs] or k in [x[0] for x in d.conts]
        what = "an object" if k in [o.id for o in d.objs] else "a container" if known else "an unknown identifier"
        if not self.judge("delete %s by identifier" % what, bad, r == c(1 if known else -1),
                          "deleting %s answers %s" % (what, r), hist):
            return None
        return q, Dir(tuple(o for o in d.objs if o.id != k), tuple(x for x in d.conts if x[0] != k), d.seq, d.made)

    def delete_name(self, path, d, name, ts, hist):
        W = self.W
        p = path.copy()
        inp = W.struct(p, "in", "metadata_delete_in_t", obj_name=lit(p, name), time_step=c(ts), hash_value=c(W.hash_of(name)))
        out = W.out(p, "out", 4)
        v, q, bad = W.do(p, "PDC_delete_metadata_from_hash_table", inp, out)
        r = q.mem.get((Interp.split(out)[0], 0))
        cand = [o for o in d.objs if o.name == name and o.ts == ts]
        if not self.judge("delete by name", bad, r == c(1 if cand else -1), "deleting %s@%d answers %s" % (name, ts, r), hist):
            return None
        if not cand:
            return q, d
        gone = cand[0]
        if len(cand) > 1:                   # which of them is not specified: ask
            for o in cand:
                v, q2, bad = W.do(q, "find_metadata_by_id", c(o.id))
                if v == NULL:
                    gone = o
        return q, Dir(tuple(o for o in d.objs if o is not gone), d.conts, d.seq, d.made)

    def add_tag(self, path, d, o, tag, hist, known=True, same_hash=True):
        W = self.W
        p = path.copy()
        k = o.id if known else FIRST + d.seq + 3
        inp = W.struct(p, "in", "metadata_add_tag_in_t", obj_id=c(k), hash_value=c(W.hash_of(o.name)), new_tag=lit(p, tag))
        out = W.out(p, "out", 4)
        v, q, bad = W.do(p, "PDC_Server_add_tag_metadata", inp, out)
        r = q.mem.get((Interp.split(out)[0], 0))
        if not self.judge("add a tag", bad, r == c(1 if known else -1), "answers %s" % r, hist):
            return None
        if not known:
            return q, d
        return q, Dir(tuple(x.with_(tags=x.tags + "," + tag) if x is o else x for x in d.objs), d.conts, d.seq, d.made)

    def update(self, path, d, o, hist, ts=-1, app="", loc="", tags="", state=0, known=True):
        W = self.W
        p = path.copy()
        inp = W.struct(p, "in", "metadata_update_in_t", obj_id=c(o.id if known else FIRST + d.seq + 3), hash_value=c(W.hash_of(o.name)))
        r0 = Interp.split(inp)[0]
        dm = W.L.fields("pdc_metadata_transfer_t"); off = W.L.off("metadata_update_in_t", "new_metadata")
        for k, v in dict(time_step=c(ts), app_name=lit(p, app), obj_name=lit(p, o.name), data_location=lit(p, loc), tags=lit(p, tags),
                         current_state=c(state), t_dtype=atom("tdt", state), t_ndim=atom("tnd", state), t_meta_index=atom("tmi", state),
                         **{"t_dims%d" % i: atom("tdim", i, state) for i in range(4)}).items():
            p.mem[(r0, off + dm[k][0])] = v
        out = W.out(p, "out", 4)
        v, q, bad = W.do(p, "PDC_Server_update_metadata", inp, out)
        r = q.mem.get((Interp.split(out)[0], 0))
        if not self.judge("update", bad, r == c(1 if known else -1), "answers %s" % r, hist):
            return None
        if not known:
            return q, d
        n = o.with_(ts=o.ts if ts == -1 else ts, app=app if app.strip() else o.app, loc=loc if loc.strip() else o.loc,
                    tags=o.tags + "," + tags if tags.strip() else o.tags, state=state or o.state)
        return q, Dir(tuple(n if x is o else x for x in d.objs), d.conts, d.seq, d.made)

    # ---- key/value tags: of objects and of containers
    def kv_in(self, p, key, val, typ):
        if typ == c(getattr(self.W, "string", -1) + 1):        # a value that is not a string: exactly its bytes
            r = ("reg", ("bytes", val))
            for i, x in enumerate(val.encode()):
                p.mem[(r, i)] = c(x)
            p.size[r] = len(val)
            return dict(name=lit(p, key), size=c(len(val)), type=typ, value=Poly.a(r))
        return dict(name=lit(p, key), size=c(len(val) + 1), type=typ, value=lit(p, val))

    def kv(self, path, d, what, op, target, key, val, hist):
        """what: 'obj' or 'cont' or 'none'"""
        W = self.W
        p = path.copy()
        name = target.name if what == "obj" else target[1] if what == "cont" else "a"
        k = target.id if what == "obj" else target[0] if what == "cont" else FIRST + d.seq + 3
        if what == "none" and target is not None:
            name = target
        out = Poly.a(("reg", ("arg", "out")))
        if op == "add":
            f = W.L.fields("metadata_add_kvtag_in_t"); t = W.L.fields("pdc_kvtag_t")
            inp = W.struct(p, "in", "metadata_add_kvtag_in_t", obj_id=c(k), hash_value=c(W.hash_of(name)))
            for n, v in self.kv_in(p, key, val, atom("kt", key, val)).items():
                p.mem[(Interp.split(inp)[0], f["kvtag"][0] + t[n][0])] = v
            W.out(p, "out", 4)
            v, q, bad = W.do(p, "PDC_Server_add_kvtag", inp, out)
        else:
            inp = W.struct(p, "in", "metadata_get_kvtag_in_t", obj_id=c(k), hash_value=c(W.hash_of(name)), key=lit(p, key))
            if op == "get":
                W.struct(p, "out", "metadata_get_kvtag_out_t")
                for o in range(0, W.P.structs["metadata_get_kvtag_out_t"]["size"], 8):
                    p.mem[(Interp.split(out)[0], o)] = NULL
                p.zero = p.zero | {Interp.split(out)[0]}
                v, q, bad = W.do(p, "PDC_Server_get_kvtag", inp, out)
            else:
                W.out(p, "out", 4)
                v, q, bad = W.do(p, "PDC_Server_del_kvtag", inp, out)
        r = q.mem.get((Interp.split(out)[0], 0))
        kvs = target.kv if what == "obj" else target[3] if what == "cont" else ()
        has = [x for x in kvs if x[0] == key]
        who = {"obj": "an object", "cont": "a container", "none": "an unknown identifier"}[what]
        exp = what != "none" and (op == "add" or bool(has))
        ok = r == c(1 if exp else -1)
        if not exp and what != "none" and op != "add":      # nothing to remove, or nothing to give
            ok = r is not None
            if op == "get":
                o = W.L.off("metadata_get_kvtag_out_t", "kvtag"); t = W.L.fields("pdc_kvtag_t")
                ok = r == c(-1) or all(q.mem.get((Interp.split(out)[0], o + t[n][0]), NULL) == NULL for n in ("name", "value", "size"))
        if not self.judge("%s a tag of %s" % (op, who), bad, ok,
                          "%s the tag %s of %s that %s answers %s" % (op, key, who, "has it" if has else "has it not", r), hist):
            return None
        if op == "get" and exp:
            o = W.L.off("metadata_get_kvtag_out_t", "kvtag"); t = W.L.fields("pdc_kvtag_t")
            g = lambda n: q.mem.get((Interp.split(out)[0], o + t[n][0]), NULL)
            vals = [x[1] for x in has]
            s = W.text(q, g("value"), "value") if Interp.split(g("value"))[0] is not None else None
            nm = W.text(q, g("name"), "name") if Interp.split(g("name"))[0] is not None else None
            self.judge("get a tag of %s" % who, None, s in vals and nm == key, "the tag %s=%s is answered as %s=%s" % (key, "/".join(vals), nm, s), hist)
            if s in vals:
                self.judge("size of a tag", None, g("size") == c(len(s) + 1), "the size of a tag is not what was given", hist)
                self.judge("type of a tag", None, g("type") == atom("kt", key, s), "the type of a tag is not what was given", hist)
        if op == "get" or not exp:
            return q, d
        if op == "add":
            n = kvs + ((key, val),)
        else:
            # which of several tags with this name goes is not specified: the first
            i = kvs.index(has[0])
            n = kvs[:i] + kvs[i + 1:]
        if what == "obj":
            return q, Dir(tuple(x.with_(kv=n) if x is target else x for x in d.objs), d.conts, d.seq, d.made)
        return q, Dir(d.objs, tuple((x[0], x[1], x[2], n) if x is target else x for x in d.conts), d.seq, d.made)

    def kvquery(self, path, d, key, val, typ, hist):
        W = self.W
        p = path.copy()
        inp = W.struct(p, "in", "pdc_kvtag_t", **self.kv_in(p, key, val, typ))
        n, b = W.out(p, "n", 4), W.out(p, "buf", 8)
        v, q, bad = W.do(p, "PDC_Server_get_kvtag_query_result", inp, n, b)
        string = typ.const() == W.string

        def hit(x):
            return matches(x[0], key) and (matches(x[1], val) if string else x[1] == val)
        want = sorted(o.id for o in d.objs if any(hit(x) for x in o.kv))
        got = None
        if not bad:
            k = q.mem.get((Interp.split(n)[0], 0)); a = q.mem.get((Interp.split(b)[0], 0))
            k = k.const() if k is not None else None
            if k is not None and k < 1000:
                got = [q.mem.get((Interp.split(a)[0], 8 * i), NULL).const() for i in range(k)]
        self.judge("query tags", bad, got is not None and None not in got and sorted(set(got)) == want,
                   "the query %s=%s gives %s, %s have the tag" % (key, val, got, want), hist)

    # ---- containers
    def cont(self, path, d, name, hist):
        W = self.W
        p = path.copy()
        inp = W.struct(p, "in", "gen_cont_id_in_t", cont_name=lit(p, name), hash_value=c(W.hash_of(name)))
        out = W.out(p, "out")
        v, q, bad = W.do(p, "PDC_Server_create_container", inp, out)
        r = q.mem.get((Interp.split(out)[0], 0))
        k = r.const() if r is not None else None
        old = [x for x in d.conts if x[1] == name]
        clash = [x for x in d.conts if x[1] != name and W.hash_of(x[1]) == W.hash_of(name)]
        if old:
            return (q, d) if self.judge("create an existing container", bad, k == old[0][0], "the container %s is given another identifier" % name, hist) else None
        if clash:
            return (q, d) if self.judge("create a container whose name hashes like another's", bad, k == 0 or (k is not None and k not in [x[0] for x in d.conts]),
                                        "the container %s is given the identifier of %s" % (name, clash[0][1]), hist) else None
        if not self.judge("create a container", bad, k is not None and k >= FIRST + d.seq, "no new identifier", hist):
            return None
        return q, Dir(d.objs, d.conts + ((k, name, (), ()),), k - FIRST + 1, d.made + 1)

    def cont_objs(self, path, d, x, add, ids, hist):
        W = self.W
        p = path.copy()
        r = ("reg", ("arg", "ids"))
        for i, k in enumerate(ids):
            p.mem[(r, 8 * i)] = c(k) if isinstance(k, int) else k
        p.size[r] = 8 * len(ids)
        v, q, bad = W.do(p, "PDC_Server_container_add_objs" if add else "PDC_Server_container_del_objs", c(len(ids)), Poly.a(r),
                         c(x[0] if x else FIRST + d.seq + 2))
        ok = v is not None and v.const() is not None and (v.const() >= 0) == bool(x)
        if not self.judge("%s a container" % ("add to" if add else "remove from"), bad, ok, "answers %s" % v, hist):
            return None
        if not x:
            return q, d
        n = list(x[2])
        for k in ids:
            if add:
                n.append(k)
            elif k in n:
                n.remove(k)
        return q, Dir(d.objs, tuple((y[0], y[1], tuple(sorted(n)), y[3]) if y is x else y for y in d.conts), d.seq, d.made)

    def conts(self, path, d, names, hist):
        W = self.W
        for n in names:
            p = path.copy()
            out = W.out(p, "res", 8, NULL)
            v, q, bad = W.do(p, "PDC_Server_find_container_by_name", lit(p, n), out)
            m = q.mem.get((Interp.split(out)[0], 0))
            x = next((x for x in d.conts if x[1] == n), None)
            f = W.L.fields("pdc_cont_hash_table_entry_t")
            if x is None:
                self.judge("look up a container nobody created", bad, m == NULL, "%s is found" % n, hist)
                continue
            if not self.judge("look up a container", bad, m is not None and m != NULL and Interp.split(m)[0] is not None
                              and W.I.load(m + c(f["cont_id"][0]), q) == c(x[0]), "%s is not found" % n, hist):
                return False
            k = W.I.load(m + c(f["n_obj"][0]), q).const()
            a = W.I.load(m + c(f["obj_ids"][0]), q)
            got = None
            if k is not None and k < 2000 and (k == 0 or Interp.split(a)[0] is not None):
                got = [W.I.load(a + c(8 * i), q).const() for i in range(k)]
                bad = next(("lists more objects than it has room for" for e in q.events if e[0] == "oob"), None)
            self.judge("objects of a container", bad, got is not None and None not in got and sorted(g for g in got if g) == sorted(x[2]),
                       "%s lists %s of %s objects" % (n, len([g for g in got if g]) if got is not None else "none", len(x[2])), hist)
        return True


def shape(W, path, d):
    p = path.copy()
    extra = p.extra
    roots = [glob(g) for g in (HT, CT, "n_metadata_g", "pdc_id_seq_g", "is_hash_table_init_g")]
    n, key, leaked, _ = W.canon(p, roots, {})
    n.extra = extra
    return n, (key, tuple(sorted(extra.items(), key=repr)) if extra else (), d.key())


def explore(W, G, ops, start, depth, moves, look, cap=20000):
    """all histories of at most `depth` moves, one representative per state"""
    seen = {}
    cur = [(start, Dir(), ())]
    n = 0
    for lv in range(depth + 1):
        nx = []
        for path, d, hist in cur:
            look(path, d, ", ".join(hist) or "nothing")
            if lv == depth:
                continue
            for label, f in moves(d):
                r = f(path, d, ", ".join(hist + (label,)))
                if r is None:
                    continue
                q, d2 = r
                q, key = shape(W, q, d2)
                if key in seen:
                    continue
                seen[key] = 1
                n += 1
                if n > cap:
                    raise AnalysisBroken("more than %d directory states" % cap)
                nx.append((q, d2, hist + (label,)))
        cur = nx
        if len(G.bad) > 12:
            break
    G.chk.count("states", n)


H1 = {"a": 40, "b": 40, "d": 41}
H2 = {"a": 40, "b": 40 + 193, "d": 7}


def identity(P, G, th, hashes, combos, depth):
    W = DW(P, dict(hashes)); O = Ops(W, G)
    start, bad = W.fresh()
    G.judge("start", bad, True, "")

    def moves(d):
        if d.made < (4 if th else 3):
            for n, ts, u, a in combos:
                yield "create %s@%d user %d app %r" % (n, ts, u, a), lambda p, d, h, n=n, ts=ts, u=u, a=a: O.create(p, d, n, ts, u, a, h, ndim=1 + ts % 4)
        for o in d.objs:
            yield "delete %r" % o, lambda p, d, h, o=o: O.delete_id(p, d, o.id, h)
        yield "delete unknown", lambda p, d, h: O.delete_id(p, d, FIRST + d.seq + 7, h)
        for n, ts in sorted({(x[0], x[1]) for x in combos}):
            yield "delete %s@%d by name" % (n, ts), lambda p, d, h, n=n, ts=ts: O.delete_name(p, d, n, ts, h)
    names = sorted({x[0] for x in combos} | {"b"}); steps = sorted({x[1] for x in combos} | {0})
    explore(W, G, O, start, depth, moves, lambda p, d, h: O.observe(p, d, h, names, steps))


def p_ids1(P, G, th):
    identity(P, G, th, H1, [("a", 0, 1, "A"), ("a", 1, 1, "A"), ("b", 0, 1, "A")], 5 if th else 4)


def p_ids2(P, G, th):
    identity(P, G, th, H2, [("a", 0, 1, "A"), ("b", 2, 1, "A"), ("d", 3, 1, "A")], 5 if th else 4)


def p_ids3(P, G, th):
    identity(P, G, th, H1, [("a", 0, 1, "A"), ("a", 0, 2, "A"), ("a", 0, 1, "B"), ("a", 0, 0, "")], 4 if th else 3)


def p_change(P, G, th):
    W = DW(P, dict(H1)); O = Ops(W, G)
    start, bad = W.fresh()

    def moves(d):
        if d.made < 2:
            for n, ts in (("a", 0), ("b", 0)):
                yield "create %s" % n, lambda p, d, h, n=n, ts=ts: O.create(p, d, n, ts, 1, "A", h)
        for o in d.objs:
            yield "tag %r" % o, lambda p, d, h, o=o: O.add_tag(p, d, o, "x", h)
            for kw in (dict(ts=3), dict(app="Z"), dict(loc="L2", tags=" "), dict(tags="y", app=" "), dict(state=2), dict(ts=0, loc=" ")):
                yield "update %r %s" % (o, kw), lambda p, d, h, o=o, kw=kw: O.update(p, d, o, h, **kw)
            yield "update unknown", lambda p, d, h, o=o: O.update(p, d, o, h, ts=9, known=False)
            yield "tag unknown", lambda p, d, h, o=o: O.add_tag(p, d, o, "x", h, known=False)
            yield "delete %r" % o, lambda p, d, h, o=o: O.delete_id(p, d, o.id, h)
    explore(W, G, O, start, 5 if th else 4, moves, lambda p, d, h: O.observe(p, d, h, ["a", "b"], [0, 3]))


def p_query(P, G, th):
    W = DW(P, dict(H1)); O = Ops(W, G)
    start, bad = W.fresh()
    r = (start, Dir()); hist = "five creates"
    for n, ts, u, a, nd, tg in (("a", 1, 1, "A", 1, "xy"), ("a", 2, 2, "A", 2, "yz"), ("b", 5, 1, "B", 3, "zx"), ("d", 9, 3, "B", 4, "x"),
                                ("d", 4, 1, "A", 2, "")):
        r = O.create(r[0], r[1], n, ts, u, a, hist, ndim=nd, tags=tg)
        if r is None:
            return
    p, d = r
    Q = lambda label, pred, **kw: O.query(p, d, "query by %s" % label, pred, hist, **kw)
    for u in (1, 2, 9, 0):
        Q("user", lambda o: u <= 0 or o.user == u, user_id=c(u))
    for a in ("A", "B", "C"):
        Q("application", lambda o: o.app == a, app_name=a)
    for n in ("a", "b", "d", "e", "ab"):
        Q("name", lambda o: o.name == n, obj_name=n)
    for lo, hi in itertools.product((1, 2, 4, 5, 9, 10), (1, 2, 5, 8, 9)):
        Q("time step", lambda o: lo <= o.ts <= hi, time_step_from=c(lo), time_step_to=c(hi))
    for nd in (1, 2, 3, 4, 5):
        Q("dimensions", lambda o: o.ndim == nd, ndim=c(nd))
    for t in ("x", "y", "xy", "q", "yz"):
        Q("tags", lambda o: t in o.tags, tags=t)
    for u, a, n, lo, nd, t in itertools.product((0, 1), (" ", "A"), (" ", "a", "d"), (0, 2), (0, 2), (" ", "z")):
        Q("several", lambda o: (u == 0 or o.user == u) and (a == " " or o.app == a) and (n == " " or o.name == n) and
          (lo == 0 or lo <= o.ts <= 4) and (nd == 0 or o.ndim == nd) and (t == " " or t in o.tags),
          user_id=c(u), app_name=a, obj_name=n, time_step_from=c(lo), time_step_to=c(4), ndim=c(nd), tags=t)
    # the list shrinks with the directory
    for o in d.objs:
        r = O.delete_id(p, d, o.id, hist)
        if r:
            O.query(r[0], r[1], "list all", lambda o: True, "five creates, one delete", is_list_all=c(1))


def p_kv(P, G, th):
    W = DW(P, {"a": 40, "b": 40, "d": 41, "C": 40, "D": 41, "E": 50}); W.string = string_type(P); O = Ops(W, G)
    start, bad = W.fresh()

    def moves(d):
        if len(d.objs) < 2 and d.made < 3:
            for n in ("a", "b"):
                yield "create %s" % n, lambda p, d, h, n=n: O.create(p, d, n, 0, 1, "A", h)
        if not d.conts and d.made < 3:
            for n in ("C", "E"):
                yield "container %s" % n, lambda p, d, h, n=n: O.cont(p, d, n, h)
        for what, xs in (("obj", d.objs), ("cont", d.conts)):
            for x in xs:
                kv = x.kv if what == "obj" else x[3]
                nm = x.name if what == "obj" else x[1]
                for k, v in (("k", "1"), ("kk", "22")):
                    if (k, v) not in kv:
                        yield "put %s of %s" % (k, nm), lambda p, d, h, what=what, x=x, k=k, v=v: O.kv(p, d, what, "add", x, k, v, h)
                    yield "remove %s of %s" % (k, nm), lambda p, d, h, what=what, x=x, k=k, v=v: O.kv(p, d, what, "del", x, k, v, h)
        for op in ("add", "del"):
            for n in ("a", "z"):
                yield "%s of unknown" % op, lambda p, d, h, op=op, n=n: O.kv(p, d, "none", op, n, "k", "1", h)
        for o in d.objs[:1]:
            yield "delete %s" % o.name, lambda p, d, h, o=o: O.delete_id(p, d, o.id, h)

    def look(p, d, h):
        for what, xs in (("obj", d.objs), ("cont", d.conts), ("none", ("a", "z"))):
            for x in xs:
                for k in ("k", "kk", "j"):
                    O.kv(p, d, what, "get", x, k, "", h)
    explore(W, G, O, start, 5 if th else 4, moves, look)


def string_type(P):
    for e in P.enums.values():
        for n, v in (e.items() if isinstance(e, dict) else e):
            if n == "PDC_STRING":
                return v
    raise AnalysisBroken("PDC_STRING not found")


def p_kvq(P, G, th):
    W = DW(P, {"a": 40, "b": 40, "d": 41}); W.string = string_type(P); O = Ops(W, G)
    start, bad = W.fresh()
    r = (start, Dir()); hist = "three objects with tags"
    kvs = {"a": (("k", "1"), ("kk", "12")), "b": (("k", "12"), ("j", "1")), "d": (("kj", "2"),)}
    for typ in ("string", "other"):
        T = c(W.string if typ == "string" else W.string + 1)
        r = (start, Dir())
        for n in ("a", "b", "d"):
            r = O.create(r[0], r[1], n, 0, 1, "A", hist)
            if r is None:
                return
            for k, v in kvs[n]:
                p = r[0].copy()
                o = next(o for o in r[1].objs if o.name == n)
                f = W.L.fields("metadata_add_kvtag_in_t"); t = W.L.fields("pdc_kvtag_t")
                inp = W.struct(p, "in", "metadata_add_kvtag_in_t", obj_id=c(o.id), hash_value=c(W.hash_of(n)))
                for m, x in O.kv_in(p, k, v, T).items():
                    p.mem[(Interp.split(inp)[0], f["kvtag"][0] + t[m][0])] = x
                out = W.out(p, "out", 4)
                v0, q, bad = W.do(p, "PDC_Server_add_kvtag", inp, out)
                if bad:
                    G.no("put tags", bad); return
                r = q, Dir(tuple(x.with_(kv=x.kv + ((k, v),)) if x.id == o.id else x for x in r[1].objs), (), r[1].seq, r[1].made)
        for k in ("k", "kk", "j", "k*", "*k", "*k*", "*j", "z", "zz*"):
            for v in ("1", "12", "2", "9") + (("1*", "*2", "*1*", "x*") if typ == "string" else ()):
                O.kvquery(r[0], r[1], k, v, T, hist)
        other = c(W.string if typ == "other" else W.string + 1)
        W2 = r[1]
        O.kvquery(r[0], Dir(tuple(o.with_(kv=()) for o in W2.objs), (), W2.seq, W2.made), "k", "1", other, hist + " of another type")
        O.kvquery(start, Dir(), "k", "1", T, "nothing")


def p_cont(P, G, th):
    W = DW(P, {"C": 3, "D": 3, "E": 3 + 193, "a": 3}); O = Ops(W, G)
    start, bad = W.fresh()

    def moves(d):
        if d.made < (4 if th else 3):
            for n in ("C", "D", "E"):
                yield "container %s" % n, lambda p, d, h, n=n: O.cont(p, d, n, h)
            yield "create a", lambda p, d, h: O.create(p, d, "a", 0, 1, "A", h)
        for x in d.conts:
            yield "delete %s" % x[1], lambda p, d, h, x=x: O.delete_id(p, d, x[0], h)
            if len(x[2]) < 3:
                yield "add to %s" % x[1], lambda p, d, h, x=x: O.cont_objs(p, d, x, True, [11 + len(x[2]), 21], h)
            yield "remove from %s" % x[1], lambda p, d, h, x=x: O.cont_objs(p, d, x, False, [21, 99], h)
        yield "add to nothing", lambda p, d, h: O.cont_objs(p, d, None, True, [5], h)
        yield "remove from nothing", lambda p, d, h: O.cont_objs(p, d, None, False, [5], h)

    def look(p, d, h):
        O.conts(p, d, ["C", "D", "E", "a"], h)
        if len(d.objs):
            O.observe(p, d, h, ["a"], [0])
    explore(W, G, O, start, 5 if th else 4, moves, look)
    # growth; a negative number removes as many of the objects added first
    for sizes in ((64, -2, 1, 1), (63, -1, 1, 1, -3, 1, 1), (130, -66, 2, 64), (1, 63, 1, 1), (64, 1), (65,), (130, 1), (63, 2, 200), (1, 300, 1), (20, 20, 20, 20, 20, 20, 20)):
        r = O.cont(start, Dir(), "C", "nothing")
        k = 100
        for s in sizes:
            if r is None:
                break
            if s < 0:
                r = O.cont_objs(r[0], r[1], r[1].conts[0], False, r[1].conts[0][2][:-s], "adding and removing %s objects" % (sizes,))
            else:
                r = O.cont_objs(r[0], r[1], r[1].conts[0], True, list(range(k, k + s)), "adding %s objects" % (sizes,))
                k += s
            if r is None or not O.conts(r[0], r[1], ["C"], "adding %s objects" % (sizes,)):
                r = None
                break
        if r:
            r = O.cont_objs(r[0], r[1], r[1].conts[0], False, [r[1].conts[0][2][0], k - 1], "adding %s objects" % (sizes,))
            if r:
                O.conts(r[0], r[1], ["C"], "adding %s and removing two" % (sizes,))


def bloom(P, G, th, liar):
    """many objects under one hash: the entry gets a Bloom filter"""
    hashes = {}
    N = 64
    pre = ["o%d" % (i // 2) for i in range(N + 1)]
    names = sorted(set(pre)) + ["new", "p"]
    for n in names:
        hashes[n] = 40
    W = DW(P, hashes, liar); O = Ops(W, G)
    start, bad = W.fresh()
    r = (start, Dir())
    spots = {}
    for i, n in enumerate(pre + ["new"]):
        hist = "%d creates" % i
        r = O.create(r[0], r[1], n, i % 2, 1, "A", hist)
        if r is None:
            return
        if i + 1 in (N - 1, N, N + 1, N + 2):
            spots[i + 1] = r
    G.chk.count("states", N + 2)
    for k, (p, d) in spots.items():
        h = "%d creates" % k
        n = len(d.objs)
        who = sorted({0, 1, n // 2, n - 2, n - 1})
        for i in who:
            o = d.objs[i]
            O.create(p, d, o.name, o.ts, o.user, o.app, h + ", again object %d" % i)
            O.create(p, d, o.name, o.ts, 0, "", h + ", again object %d without user and application" % i)
            O.create(p, d, o.name, 7, 1, "A", h + ", object %d at another time step" % i)
            for how in ("id", "name"):
                r = O.delete_id(p, d, o.id, h) if how == "id" else O.delete_name(p, d, o.name, o.ts, h)
                if r is None:
                    continue
                h2 = h + ", delete object %d by %s" % (i, how)
                a = O.create(r[0], r[1], o.name, o.ts, 1, "A", h2 + ", create it")
                if a:
                    O.create(a[0], a[1], o.name, o.ts, 1, "A", h2 + ", create it twice")
                o2 = d.objs[(i + 1) % n]
                O.create(r[0], r[1], o2.name, o2.ts, 1, "A", h2 + ", again object %d" % ((i + 1) % n))
                b = O.delete_id(r[0], r[1], o2.id, h2)
                if b:
                    h3 = h2 + ", delete and create another"
                    e = O.create(b[0], b[1], o2.name, o2.ts, 1, "A", h3)
                    e2 = e and O.create(e[0], e[1], o2.name, o2.ts, 1, "A", h3 + " twice")
                    e = e2 and O.create(e2[0], e2[1], o.name, o.ts, 1, "A", h3 + ", create the first again")
                    e2 = e and O.create(e[0], e[1], o.name, o.ts, 1, "A", h3 + ", create the first again twice")
                    if e2:
                        O.create(e2[0], e2[1], o2.name, o2.ts, 1, "A", h3 + ", create both again twice")
            r = O.update(p, d, o, h, ts=5)
            if r:
                h2 = h + ", move object %d to another time step" % i
                O.create(r[0], r[1], o.name, 5, 1, "A", h2 + ", create the same")
                O.create(r[0], r[1], o.name, o.ts, 1, "A", h2 + ", create what it was before")
                x = O.delete_id(r[0], r[1], o.id, h2)
                if x:
                    O.create(x[0], x[1], o.name, 5, 1, "A", h2 + ", delete and create it")
        O.delete_id(p, d, 17, h)
        W.n += 1


def p_many(P, G, th):
    """so many objects that the hash table grows and an answer does not fit its first buffer"""
    N = 140
    hashes = {"o%d" % i: (i * 193 if i % 7 == 0 else i * 11) for i in range(N)}
    W = DW(P, hashes); W.string = string_type(P); O = Ops(W, G)
    W.I.max_steps = 2000000
    start, bad = W.fresh()
    r = (start, Dir())
    for i in range(N):
        h = "%d creates" % i
        n = "o%d" % i
        r = O.create(r[0], r[1], n, 0, 1, "A", h)
        if r is None:
            return
        if i not in (3, N - 2):
            r2 = O.kv(r[0], r[1], "obj", "add", r[1].objs[-1], "k", "1", h)
            if r2 is None:
                return
            r = r2
        if i in (62, 63, 64, 65, 66, N - 1):
            d = r[1]
            some = Dir(tuple(d.objs[j] for j in (0, 1, 7, 14, i // 2, i)), (), d.seq, d.made)
            for o in some.objs:
                p = r[0].copy()
                out = W.out(p, "res", 8, NULL)
                v, q, bad = W.do(p, "PDC_Server_search_with_name_timestep", lit(p, o.name), c(W.hash_of(o.name)), c(0), out)
                m = q.mem.get((Interp.split(out)[0], 0))
                G.judge("search by name and time step", bad, m is not None and m != NULL and W.meta(q, m, "obj_id") == c(o.id),
                        "%s is not found among %d objects" % (o.name, i + 1))
                v, q, bad = W.do(r[0], "find_metadata_by_id", c(o.id))
                G.judge("find by identifier", bad, v == m, "%s is not found by its identifier among %d objects" % (o.name, i + 1))
            O.query(r[0], d, "list all", lambda o: True, "%d creates" % (i + 1), is_list_all=c(1))
    p, d = r
    G.chk.count("states", N)
    h = "%d creates" % N
    T = atom("kt", "k", "1")
    O.kvquery(p, d, "k", "1", T, h)
    O.kvquery(p, d, "j", "1", T, h)
    for i in (0, 7, 64, N - 1):
        a = O.delete_id(p, d, d.objs[i].id, h)
        if a:
            O.query(a[0], a[1], "list all", lambda o: True, h + " and a delete", is_list_all=c(1))
            O.create(a[0], a[1], d.objs[i].name, 0, 1, "A", h + ", delete and create")


def p_bloom1(P, G, th):
    bloom(P, G, th, False)


def p_bloom2(P, G, th):
    bloom(P, G, th, True)


PARTS = [("objects under one hash", p_ids1), ("objects in one bucket", p_ids2), ("users and applications", p_ids3), ("changes", p_change),
         ("queries", p_query), ("tags", p_kv), ("tag queries", p_kvq), ("containers", p_cont), ("many objects", p_many), ("with a filter", p_bloom1),
         ("with a filter that always says yes", p_bloom2)]


def part(a):
    name, fn, th = a
    chk = Sink(); broken = None
    try:
        P = ir.program("server")
        with Group(chk, name) as G:
            fn(P, G, th)
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    return name, chk.counts, chk.obl, broken


def run():
    chk = Check(PID, "every lookup, listing and change of the metadata server agrees with an abstract directory after every history")
    th = chk.tier == "thorough"
    ir.program("server")
    parts = [(n, f, th) for n, f in PARTS if not os.environ.get("O01") or os.environ["O01"] in n]
    chk.analysed = {"parts": [p[0] for p in parts]}
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(part, parts, chunksize=1)
    for name, counts, obl, broken in res:
        for k, v in counts.items():
            chk.count(k, v)
        for o in obl:
            chk.oblige(*o)
        if broken:
            chk.broken.append("%s: %s" % (name, broken))
    chk.assumptions += ["names, tags and locations fit the fields they are stored in", "the Bloom filter never denies a member (B01)",
                        "memory is available", "one request is handled at a time"]
    chk.floor("steps", 5000); chk.floor("states", 200); chk.floor("obligations", 60)
    return chk.finish("Every operation of the metadata directory was abstractly interpreted over all histories within the bound and compared "
                      "with an abstract directory after every step.")
