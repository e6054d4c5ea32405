"""S01: no message is sent with a field its sender did not set.  For every request and reply handed to Mercury: definite assignment
of every byte the message's type encodes, on every path to the send, through the helpers that fill it in (summarised by what they
set for each value they return), through the helpers that send it, and through the local structures copied into it."""
import ir, rpc
from h01 import to_clients
from esp import ESP
from w01 import slots
from report import Check
from frontend import AnalysisBroken

PID = "S01"
SEND = {"HG_Forward": 3, "HG_Respond": 3}
NOSET = ("HG_Free_input", "HG_Free_output", "HG_Bulk_transfer", "free", "PDC_free", "printf", "fprintf", "pdc_log", "puts",
         "strlen", "strcmp", "memcmp", "HG_Error_to_string")
COPY = ("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")


ALLOC = ("malloc", "calloc", "PDC_malloc", "PDC_calloc")


NZ = ("ne", frozenset([0]))


def nonnull(f, r, ev):
    v = ev(r)
    if v is not None:
        return v[0] == "ne" and 0 in v[1] or v[0] == "i" and v[1] != 0
    b, o, var = base(f, r)
    return isinstance(b, int) and f.ins[b].op == "alloca" or isinstance(b, list) and bool(b) and b[0] == "g"


def sources(f, r, seen=()):
    b, o, var = base(f, r)
    x = f.val(b) if isinstance(b, int) else None
    if x is not None and x.op == "phi" and b not in seen:
        for q, _ in x.d["in_"]:
            yield from sources(f, q, seen + (b,))
    else:
        yield b


def bits(off, n):
    return ((1 << n) - 1) << off


def base(f, r):
    """(object, byte offset or None, first byte when the offset is variable)"""
    o = 0; var = False
    for _ in range(60):
        if isinstance(r, int):
            x = f.ins[r]
            if x.op == "getelementptr":
                if x.d.get("o") is None or x.d.get("v"):
                    var = True
                o += x.d.get("o") or 0
                r = x.d["b"]; continue
            if x.op in ("bitcast", "addrspacecast"):
                r = x.args[0]; continue
        break
    return r, o, var


def obj(r):
    return tuple(r) if isinstance(r, list) else r


class Init:
    def __init__(s, P):
        s.P = P; s.memo = {}; s.busy = set(); s.member = {}
        s.tails = {}

    def slots(s, T):
        if T not in s.member:
            s.member[T] = slots(s.P, T)
        return s.member[T]

    def need(s, T):
        """bytes of T that its serialisation routine carries whatever the other fields say"""
        if ("need", T) in s.memo:
            return s.memo["need", T]
        n = "hg_proc_" + T
        f = s.P.fns.get(n) or next((g for k, g in sorted(s.P.fns.items()) if k.split("#")[0] == n), None)
        if f is None:
            raise AnalysisBroken("no serialisation routine for %s" % T)
        res = []

        def transfer(x, us, ev):
            if x.op != "call":
                return None
            m = 0
            for a in x.args:
                b, o, var = base(f, a)
                if b == ["a", 1]:
                    m |= s.slot(T, o, x.callee)
            return [(us | m, ("i", 0) if (x.callee or "").startswith("hg_proc_") else None)] if m else None

        def at_ret(x, us, ev):
            res.append(us)
        ESP(f, [0], transfer, at_ret, limit=400000).run()
        m = -1
        for us in res:
            m &= us
        if not res or m <= 0:
            raise AnalysisBroken("%s codes nothing" % n)
        s.memo["need", T] = m
        return m

    def slot(s, T, o, callee):
        n = (callee or "").split("#")[0][len("hg_proc_"):]
        if (callee or "").startswith("hg_proc_") and n in s.P.structs and "hg_proc_" + n in {k.split("#")[0] for k in s.P.fns}:
            return s.need(n) << o
        for k, z, t, nm in s.slots(T):
            if k == o:
                return bits(k, z)
        return s.whole(T, o)

    def whole(s, T, o):
        """the outermost array or nested structure of T that byte o belongs to, for writes the place of which is not known"""
        st = s.P.structs.get(T)
        if not st:
            return 0
        for n, bo, bs, ty in st["m"]:
            if bo // 8 <= o < (bo + bs) // 8:
                if ty.startswith("struct ") and not ty.endswith("]") and not ty.endswith("*"):
                    return s.whole(ty[7:], o - bo // 8) << (bo // 8)
                return bits(bo // 8, bs // 8)
        return 0

    def run(s, f, root, T, wanted, miss, ctx=()):
        """walk f, tracking what is set of `root`; wanted: instruction -> [(offset in root, bytes needed)]; returns outcomes at returns"""
        outs = set()
        at = [0]

        def need_at(x, us):
            for k, n in wanted.get((x.b, x.pos), ()):
                m = n & ~(us >> k)
                if m:
                    miss.setdefault((x.b, x.pos), [x, 0])[1] |= m

        def transfer(x, us, ev):
            if x.op == "store":
                need_at(x, us)
                b, o, var = base(f, x.args[1])
                if obj(b) == root:
                    v = x.args[0]
                    if isinstance(v, list) and v and v[0] == "u":
                        return None
                    if var:
                        return [(us | s.whole(T, o), None)]
                    return [(us | bits(o, x.d["sz"]), None)]
                return None
            if x.op != "call":
                return None
            need_at(x, us)
            if x.i == root:
                return [(s.fresh(f, x, T), None)]
            res = [(us, None)]
            for i, a in enumerate(x.args):
                b, o, var = base(f, a)
                if obj(b) != root:
                    continue
                n = x.callee
                if n is not None and (n.startswith(COPY) or n.startswith(("llvm.memset", "memset"))):
                    if i == 0:
                        z = x.args[2]
                        m = bits(o, z[1]) if isinstance(z, list) and z[0] == "c" and not var else s.whole(T, o)
                        res = [(u | m, v) for u, v in res]
                elif n in SEND or n in NOSET or (n or "").startswith("llvm."):
                    pass
                elif n in s.P.fns and i < len(s.P.fns[n].args):
                    ctx = tuple(j for j, y in enumerate(x.args) if j == i or nonnull(f, y, ev))
                    q = s.residual(n, i, ctx)
                    if q and any(q & ~(u >> o) for u, v in res):
                        m = 0
                        for u, v in res:
                            m |= q & ~(u >> o)
                        miss.setdefault((x.b, x.pos), [x, 0])[1] |= m << o
                    new = set()
                    for u, v in res:
                        for rv, m in s.outcomes(n, i, ctx):
                            new.add((u | (m << o), rv if v is None else v))
                    res = list(new) or res
                else:
                    m = s.whole(T, o) if o else bits(0, (s.P.structs.get(T) or {"size": 8})["size"])
                    res = [(u | m, v) for u, v in res]
            return res if res != [(us, None)] else None

        def at_ret(x, us, ev):
            v = ev(x.args[0]) if x.args else None
            outs.add((v, us))
        ESP(f, [0], transfer, at_ret, limit=400000, env={("a", j): NZ for j in ctx}, also=s.passed(f)).run()
        return outs

    def fresh(s, f, x, T):
        """what is set of the object a call returns"""
        n = x.callee
        if n in ALLOC:
            return bits(0, s.P.structs[T]["size"]) if "calloc" in n else 0
        g = s.P.fns.get(n)
        if g is None:
            return bits(0, s.P.structs[T]["size"])
        k = ("f", n, T)
        if k not in s.memo:
            s.memo[k] = bits(0, s.P.structs[T]["size"])
            m = None
            for b in {obj(r) for y in g.instrs() if y.op == "ret" and y.args for r in sources(g, y.args[0])}:
                if isinstance(b, int) and g.ins[b].op == "call":
                    for v, us in s.run(g, b, T, {}, {}):
                        if v is None or v[0] == "ne":
                            m = us if m is None else m & us
            if m is not None:
                s.memo[k] = m
        return s.memo[k]

    def check(s, chk, config, f, r, wanted, names):
        T = rpc.alloca_struct(f, r)
        if T is None:
            raise AnalysisBroken("%s: the type of a message is not known" % f.where())
        need = 0
        for l in wanted.values():
            for o, m in l:
                need |= m << o
        todo = [(r, T, wanted, need)]; seen = {r}
        while todo:
            r, T, wanted, need = todo.pop()
            miss = {}
            s.run(f, r, T, wanted, miss)
            done = {}
            for k, (x, m) in miss.items():
                done[k] = m
                what = [n for o, z, t, n in s.slots(T) if m & bits(o, z)] or ["?"]
                chk.oblige(False, "%s:%s:%s" % (config, f.name, T), "%s (%s): %s is sent with %s not set on some path" % (
                    x.loc(), f.name, T, ", ".join(what[:6]) + (" and %d more" % (len(what) - 6) if len(what) > 6 else "")))
            for k in wanted:
                if k not in done:
                    chk.oblige(True, "%s:%s:%s" % (config, f.name, T), "", "%s sends %s" % (f.name, T))
            for x in f.calls():                              # copied into the message from a local structure
                if not (x.callee or "").startswith(COPY):
                    continue
                b, o, var = base(f, x.args[0])
                if obj(b) != r or var or not (isinstance(x.args[2], list) and x.args[2][0] == "c"):
                    continue
                q, k, var = base(f, x.args[1])
                if isinstance(q, int) and f.ins[q].op == "alloca" and not var and q not in seen:
                    S = rpc.alloca_struct(f, q)
                    if S:
                        seen.add(q)
                        n = (need >> o) & bits(0, x.args[2][1])
                        todo.append((q, S, {(x.b, x.pos): [(k, n)]}, n << k))

    def outcomes(s, n, i, ctx=()):
        """{(value returned, what is set of what argument i points at)}; ctx: arguments known not to be null"""
        k = ("o", n, i, ctx)
        if k not in s.memo:
            if k in s.busy:
                return {(None, 0)}
            s.busy.add(k)
            f = s.P.fns[n]
            T = rpc.alloca_struct(f, ["a", i])
            miss = {}
            w = s.sends(f, ("a", i))
            outs = s.run(f, ("a", i), T, w, miss, ctx)
            m = 0
            for x, b in miss.values():
                m |= b
            s.memo[k] = outs; s.memo["r", n, i, ctx] = m
            s.busy.discard(k)
        return s.memo[k]

    def residual(s, n, i, ctx=()):
        s.outcomes(n, i, ctx)
        return s.memo.get(("r", n, i, ctx), 0)

    def passed(s, f):
        """values handed to functions that may test them for null"""
        k = ("p", f.name)
        if k not in s.memo:
            s.memo[k] = {("a", a[1]) if isinstance(a, list) else a for x in f.calls() if x.callee in s.P.fns for a in x.args
                         if isinstance(a, int) and f.ins[a].op in ("load", "call", "phi") or isinstance(a, list) and a and a[0] == "a"}
            s.memo[k] |= {y.i for y in f.instrs() if y.op == "load" and isinstance(y.args[0], int) and f.ins[y.args[0]].op == "alloca"
                          and f.ins[y.args[0]].d["at"] == "p"}
        return s.memo[k]

    def sends(s, f, root):
        w = {}
        for x in f.calls(*SEND):
            b, o, var = base(f, x.args[SEND[x.callee]])
            if obj(b) == root and not var:
                T = rpc.alloca_struct(f, x.args[SEND[x.callee]])
                if T:
                    w.setdefault((x.b, x.pos), []).append((o, s.need(T)))
        return w


def closure(P, roots):
    """functions the given ones may reach: called, or handed on as callbacks"""
    seen = set(); todo = list(roots)
    while todo:
        n = todo.pop()
        if n in seen or n not in P.fns:
            continue
        seen.add(n)
        for x in P.fns[n].instrs():
            if x.op == "call" and x.callee:
                todo.append(x.callee)
            for a in ir.operands(x):
                if isinstance(a, list) and a and a[0] == "g" and a[1] in P.fns:
                    todo.append(a[1])
    return seen


def run():
    chk = Check(PID, "every byte a message's type carries is set on every path to the call that sends it")
    chk.assumptions += ["strings and buffers a field points at are not followed", "a write at an index sets the whole array"]
    fns = set(); sent = None
    for config in ("server", "client"):
        P = ir.program(config)
        R = rpc.Rpc(P)
        answers = closure(P, R.handlers() if config == "server" else sent)
        sent = to_clients(P, R) if config == "server" else None
        I = Init(P)
        for f in sorted(P.fns.values(), key=lambda f: f.name):
            roots = {}; names = {}
            for x in f.calls(*SEND):
                if x.callee == "HG_Respond" and f.name not in answers:
                    continue
                a = x.args[SEND[x.callee]]
                if a == ["n"]:
                    continue
                b, o, var = base(f, a)
                T = rpc.alloca_struct(f, a)
                if T is None or not (isinstance(b, int) and f.ins[b].op in ("alloca", "call") or isinstance(b, list) and b[0] == "a"):
                    chk.count("sent from elsewhere")
                    continue
                fns.add(f.name)
                kind = "requests" if x.callee == "HG_Forward" else "replies"
                chk.count("%s (%s)" % (kind, config))
                roots.setdefault(obj(b), {}).setdefault((x.b, x.pos), []).append((o, I.need(T)))
                names[x.b, x.pos] = (kind, T)
            for r in sorted((r for r in roots if isinstance(r, int))):
                I.check(chk, config, f, r, roots[r], names)
            # sent by a helper: what the helper does not set itself
            for x in f.calls():
                if x.callee not in P.fns:
                    continue
                for i, a in enumerate(x.args):
                    b, o, var = base(f, a)
                    if isinstance(b, int) and f.ins[b].op == "alloca" and b not in roots and i < len(P.fns[x.callee].args) \
                            and I.sends(P.fns[x.callee], ("a", i)):
                        roots[b] = {}
                        I.check(chk, config, f, b, {}, names)
    chk.floor("requests (client)", 45); chk.floor("requests (server)", 15)
    chk.floor("replies (server)", 90); chk.floor("replies (client)", 4)
    chk.analysed = {"functions": sorted(fns)}
    return chk.finish("")
