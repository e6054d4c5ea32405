"""Affine copy normal form: a (possibly nested, summarised) copy loop as base addresses plus a set of
(trip, destination stride, source stride); compared after coalescing contiguous dimensions."""
from frontend import AnalysisBroken
from sym import Poly


def equalities(facts):
    """substitution implied by the 'eq' facts of a path"""
    sub = {}
    S = lambda p: p.subst(lambda a: sub.get(a))
    for (core, key), t in list(facts.items()):
        if core == "eq" and t is True or core == "ne" and t is False:
            p = S(Poly(dict(key)))
            if p.const() is not None:
                continue
            for m, c in sorted(p.t.items(), key=repr):
                if len(m) == 1 and c in (1, -1) and sum(mm.count(m[0]) for mm in p.t) == 1 and \
                        not (isinstance(m[0], tuple) and m[0][0] == "reg"):
                    rest = p - Poly({m: c})
                    v = -rest if c == 1 else rest
                    for k in list(sub):
                        sub[k] = sub[k].subst(lambda a, m=m, v=v: v if a == m[0] else None)
                    sub[m[0]] = v
                    break
    return lambda p: p.subst(lambda a: sub.get(a))


def stride(p, it):
    """p = base + it*stride; None if not linear"""
    b = {}; s = {}
    for m, c in p.t.items():
        n = m.count(it)
        if n == 0:
            b[m] = c
        elif n == 1:
            l = list(m); l.remove(it)
            s[tuple(l)] = c
        else:
            return None
    return Poly(b), Poly(s)


def neg(p):
    return p.t and all(c < 0 for c in p.t.values())


class Copy:
    """d, s: base addresses; dims: list of (trip, dstride, sstride) including the innermost byte run"""

    def __init__(self, d, s, n, loops, S=lambda p: p):
        self.dims = [(S(n), Poly.c(1), Poly.c(1))]
        self.ok = True
        for it, trip in reversed(loops):
            a = stride(d, it); b = stride(s, it)
            if a is None or b is None or trip is None:
                self.ok = False; break
            d, ds = a; s, ss = b
            t = S(trip); ds = S(ds); ss = S(ss)
            if neg(ds) or neg(ss):
                d = d + ds * (trip - Poly.c(1)); s = s + ss * (trip - Poly.c(1)); ds = -ds; ss = -ss
            self.dims.append((t, ds, ss))
        self.d = S(d); self.s = S(s)
        if self.ok:
            for at in (self.d.atoms() | self.s.atoms() | {a for t in self.dims for p in t for a in p.atoms()}):
                if isinstance(at, tuple) and at[0] in ("it", "hav", "phi", "mphi", "ldd", "trip"):
                    self.ok = False
        self._coalesce()

    def _coalesce(self):
        ds = [x for x in self.dims if x[0].const() != 1]
        ch = True
        while ch:
            ch = False
            for i, a in enumerate(ds):
                for j, b in enumerate(ds):
                    if i != j and a[1] == b[1] * b[0] and a[2] == b[2] * b[0]:
                        ds = [x for k, x in enumerate(ds) if k not in (i, j)] + [(a[0] * b[0], b[1], b[2])]
                        ch = True
                        break
                if ch:
                    break
        self.dims = ds

    def empty(self):
        return any(t.const() == 0 for t, _, _ in self.dims)

    def key(self):
        return (self.d.key(), self.s.key(), tuple(sorted((tuple(p.key() for p in x) for x in self.dims), key=repr)))

    def __repr__(self):
        return "copy %r <- %r over %s" % (self.d, self.s, " x ".join("%r(+%r/+%r)" % x for x in self.dims))


def rowmajor(shape, off, its, unit):
    """byte offset of element off+it in an array of the given shape"""
    p = Poly()
    n = len(shape)
    for k in range(n):
        t = off[k] + its[k]
        for m in range(k + 1, n):
            t = t * shape[m]
        p = p + t
    return p * unit


def block(dbase, dshape, doff, sbase, sshape, soff, size, unit, S=lambda p: p):
    """the copy of a block of 'size' elements between two row-major arrays"""
    n = len(size)
    its = [Poly.a(("spec", k)) for k in range(n)]
    d = dbase + rowmajor(dshape, doff, its, unit)
    s = sbase + rowmajor(sshape, soff, its, unit)
    # innermost: elements of unit bytes
    loops = [(("spec", k), size[k]) for k in range(n)]
    c = Copy(d, s, unit, loops, S)
    return c


def size_zero(facts, sizes, S):
    """do the path's decisions imply an empty block?"""
    for z in sizes:
        if S(z).const() == 0:
            return True
        for core in ("le", "eq"):
            if facts.get((core, z.key())) is True:
                return True
        if facts.get(("gt", z.key())) is False or facts.get(("lt", (Poly.c(0) - z).key())) is False:
            return True
    return False


def check(path, want, sizes, isdata, err):
    """path: abstract trace; want(S) -> spec Copy; err(msg) on mismatch.  isdata(dst poly) selects data copies"""
    S = equalities(path.facts)
    w = want(S)
    got = []
    for e in path.events:
        if e[0] == "memcpy" and isdata(e):
            c = Copy(e[1], e[2], e[3], e.loops, S)
            if c.empty():
                continue
            got.append(c)
    if w.empty() or size_zero(path.facts, sizes, S):
        return 0
    if len(got) != 1:
        err("%d copies instead of the one block copy" % len(got) + "".join("; %r" % g for g in got[:3]))
        return 1
    if not got[0].ok:
        err("copy whose addresses do not advance regularly: %r" % got[0])
        return 1
    if got[0].key() != w.key():
        err("%r, expected %r" % (got[0], w))
    return 1


def is_run(c):
    """one contiguous range on both sides"""
    return len(c.dims) == 0 or (len(c.dims) == 1 and c.dims[0][1].const() == 1 and c.dims[0][2].const() == 1)


def volume(c):
    v = Poly.c(1)
    for t, _, _ in c.dims:
        v = v * t
    return v


def dense_dst(c):
    """the destination is one contiguous range starting at c.d"""
    cur = Poly.c(1)
    rest = list(c.dims)
    while rest:
        for x in rest:
            if x[1] == cur:
                cur = cur * x[0]; rest.remove(x)
                break
        else:
            return False
    return True


def compose(events, S, split, istemp, err):
    """data movement between non-temporary regions, with copies through temporary buffers composed"""
    fills = {}
    out = []
    for e in events:
        if e[0] != "memcpy":
            continue
        c = Copy(e[1], e[2], e[3], e.loops, S)
        if c.empty():
            continue
        rd, _ = split(c.d); rs, _ = split(c.s)
        if rd is None or rs is None or not c.ok:
            err("unresolved copy %r" % c)
            continue
        parts = [c]
        if istemp(rs):
            fl = fills.get(rs, [])
            parts = []
            if is_run(c):
                cover = any(f.d == c.s and dense_dst(f) and volume(f) == volume(c) for f in fl)
                if not cover:
                    err("bytes taken from a temporary buffer that was not filled: %r" % c)
                for f in fl:
                    n = Copy.__new__(Copy)
                    n.ok = True; n.d = c.d + (f.d - c.s); n.s = f.s; n.dims = f.dims
                    parts.append(n)
            else:
                runs = [f for f in fl if is_run(f)]
                if len(fl) != 1 or not runs:
                    err("bytes taken from a temporary buffer that was not filled as a whole: %r" % c)
                else:
                    f = runs[0]
                    n = Copy.__new__(Copy)
                    n.ok = True; n.d = c.d; n.s = f.s + (c.s - f.d); n.dims = c.dims
                    parts.append(n)
        for p in parts:
            if istemp(rd):
                fills.setdefault(rd, []).append(p)
            elif p.d == p.s and all(a == b for _, a, b in p.dims):
                pass
            else:
                out.append(p)
    return out


POS = (("reg", "FILEPOS"), 0)


def file_ext(FILE, eof=None, fixed=None):
    """models of the POSIX file calls on one file; issued I/O succeeds"""
    def fext(f, args, path, x):
        if f in ("open", "open64"):
            path.mem[POS] = Poly.c(0)
            return Poly.a(("in", "fd"))
        if f in ("lseek", "lseek64"):
            w = args[2].const()
            if w == 0:
                path.mem[POS] = args[1]
            elif w == 1:
                path.mem[POS] = path.mem[POS] + args[1]
            elif w == 2 and eof is not None:
                path.mem[POS] = eof + args[1]
            else:
                path.mem[POS] = Poly.a(("seek?",))
            return path.mem[POS]
        if f in ("write", "read", "PDC_Server_posix_write"):
            pos = path.mem.get(POS)
            if pos is None:
                pos = Poly.a(("noseek",))
            if f == "read":
                path.ev("memcpy", args[1], FILE + pos, args[2])
            else:
                path.ev("memcpy", FILE + pos, args[1], args[2])
            path.mem[POS] = pos + args[2]
            return args[2] if f != "PDC_Server_posix_write" else Poly.c(0)
        if f in ("pwrite", "pwrite64"):
            path.ev("memcpy", FILE + args[3], args[1], args[2]); return args[2]
        if f in ("pread", "pread64"):
            path.ev("memcpy", args[1], FILE + args[3], args[2]); return args[2]
        if f in ("getenv",):
            return reg_("ENV")
        if fixed and f in fixed:
            return fixed[f]
        return None
    return fext


def reg_(n):
    return Poly.a(("reg", n))


class Layout:
    """struct layouts of a program: fill a path's memory with named cells"""

    def __init__(self, P):
        self.P = P

    def fields(self, st):
        s = self.P.structs.get(st)
        if s is None:
            raise AnalysisBroken("layout of %s not found" % st)
        return {n: (bo // 8, bs // 8, t) for n, bo, bs, t in s["m"]}

    def put(self, path, region, st, **kw):
        f = self.fields(st)
        for k, v in kw.items():
            if k not in f:
                raise AnalysisBroken("struct %s has no field %s" % (st, k))
            o, z, t = f[k]
            if isinstance(v, list):
                for i, x in enumerate(v):
                    path.mem[(("reg", region), o + 8 * i)] = x
            else:
                path.mem[(("reg", region), o)] = v

    def get(self, path, I, ptr, st, field, i=0):
        o, z, t = self.fields(st)[field]
        return I.load(ptr + Poly.c(o + 8 * i), path)

    def off(self, st, field):
        return self.fields(st)[field][0]
