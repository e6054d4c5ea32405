"""W01: every RPC message type is carried completely: each hg_proc_* routine encodes and decodes every
field of its message structure exactly once, with the field's width, in the same order, and never
reports success after a field failed."""
import ir
from report import Check, main
from esp import ESP
from sym import Sym, Poly
from frontend import AnalysisBroken

PID = "W01"
PRIM = {"int8_t": 1, "uint8_t": 1, "int16_t": 2, "uint16_t": 2, "int32_t": 4, "uint32_t": 4, "int64_t": 8,
        "uint64_t": 8, "hg_int8_t": 1, "hg_uint8_t": 1, "hg_int16_t": 2, "hg_uint16_t": 2, "hg_int32_t": 4,
        "hg_uint32_t": 4, "hg_int64_t": 8, "hg_uint64_t": 8, "hg_size_t": 8, "hg_bool_t": 1, "hg_id_t": 4,
        "float": 4, "double": 8, "hg_string_t": 8, "hg_const_string_t": 8, "hg_bulk_t": 8}
RAW = {"hg_proc_raw", "hg_proc_bytes", "hg_proc_memcpy"}
ENC, DEC, FREE = 1, 2, 3
# fields carried only when another (earlier) field says so; confirmed by reading both consumers:
# message -> guard field, guard value under which everything must be carried
GUARD = {"pdc_histogram_t": ("nbin", 1), "pdc_query_xfer_t": ("n_constraints", 1),
         "update_region_loc_in_t": ("has_hist", 1), "pdc_kvtag_t": ("size", 1), "bulk_rpc_in_t": ("cnt", 1),
         "query_storage_region_transfer_t": ("has_hist", 1)}
# variable-length payloads: pointer field -> (elements per count, count field)
PAYLOAD = {("pdc_histogram_t", "range"): (2, "nbin"), ("pdc_histogram_t", "bin"): (1, "nbin"),
           ("pdc_query_xfer_t", "combine_ops"): (1, "n_combine_ops"),
           ("pdc_query_xfer_t", "constraints"): (1, "n_constraints"),
           ("pdc_kvtag_t", "value"): (1, "size")}


def slots(P, sname, base=0, pre="", out=None):
    """leaf cells of a structure: [(offset, size, type, name)]"""
    out = [] if out is None else out
    st = P.structs.get(sname)
    if not st:
        raise AnalysisBroken("no layout for struct %s" % sname)
    for n, bo, bs, ty in st["m"]:
        expand(P, ty, base + bo // 8, bs // 8, pre + n, out)
    return out


def expand(P, ty, off, size, name, out):
    if ty.endswith("]"):
        k = ty.rindex("[")
        n = ty[k + 1:-1]
        if n.isdigit() and int(n):
            es = size // int(n)
            if es == 1 and int(n) > 16:
                out.append((off, size, ty, name))
                return
            for i in range(int(n)):
                expand(P, ty[:k], off + i * es, es, "%s[%d]" % (name, i), out)
            return
    if ty.startswith("struct ") and not ty.endswith("*"):
        slots(P, ty[7:], off, name + ".", out)
        return
    out.append((off, size, ty, name))


def elem_size(P, ty):
    t = ty[:-1]
    if t.endswith("*"):
        return 8
    if t.startswith("struct "):
        return P.structs[t[7:]]["size"]
    if t.startswith("enum "):
        return 4
    if t == "void":
        return 1
    return int(t[1:]) // 8


def data_struct(P, fn):
    """struct type of the message the routine handles"""
    ts = {t for r, n, t, decl, ne, inl in fn.dbg if r == ["a", 1] and t.startswith("struct ") and t.endswith("*")
          and not t.endswith("**")}
    ts = {t[7:-1] for t in ts}
    nm = fn.name[len("hg_proc_"):]
    nm = nm.split("@")[0]
    if nm in P.structs:
        return nm
    if len(ts) == 1:
        return ts.pop()
    return None


def analyse(P, name, chk, config):
    fn = P.fn(name)
    sname = data_struct(P, fn)
    if sname is None:
        raise AnalysisBroken("message type of %s not resolved" % name)
    sl = slots(P, sname)
    idx = {}
    for k, (o, s, t, n) in enumerate(sl):
        idx[o] = k
    sym = Sym(fn, fwd=False)
    probs = []

    def payload(x, off, ln):
        """length of a variable part must be count * element size, with the documented count field"""
        o, s, ty, nm = sl[idx[off]]
        if (sname, nm) not in PAYLOAD:
            return
        mult, cf = PAYLOAD[(sname, nm)]
        co = [o2 for o2, s2, t2, n2 in sl if n2 == cf][0]
        el = elem_size(P, ty)
        want = Poly({(("ld", ("arg", 1), co),): (mult or 1) * (el if mult else 1)})
        lens.add(x.i)
        if ln != want:
            probs.append(("length", nm, "the payload of '%s' is carried with length %r, not %r" % (nm, ln, want), x))

    lens = set()
    alloc = {}
    for x in fn.instrs():
        if x.op == "store":
            b, o = ir.ptr_base(fn, x.args[1])
            if b == ["a", 1] and o in idx:
                v = fn.val(ir.strip_casts(fn, x.args[0]))
                if v is not None and v.op == "call" and v.callee in ("malloc", "calloc"):
                    p = sym.poly(v.args[0])
                    if v.callee == "calloc":
                        p = p * sym.poly(v.args[1])
                    alloc[x.i] = (o, repr(p))

    def event(x):
        """(covered slot indices, event tuple) of one primitive call"""
        c = x.callee
        base, off = ir.ptr_base(fn, x.args[1])
        if c in RAW:
            # raw(ptr, len): ptr is the value of a pointer field, or the address of a field
            if base == ["a", 1] and off is not None:
                n = sym.poly(x.args[2]).const()
                ks = [k for k, (o, s, t, nm) in enumerate(sl) if n is not None and off <= o < off + n]
                return ks, ("rawfield", off, n)
            p = sym.poly(x.args[1])
            a = list(p.atoms())
            if len(a) == 1 and p.t.get((a[0],)) == 1 and a[0][0] == "ld" and a[0][1] == ("arg", 1):
                off = a[0][2]
                ln = sym.poly(x.args[2])
                if off in idx:
                    payload(x, off, ln)
                return ([idx[off]] if off in idx else []), ("raw", off, repr(ln))
            return None, None
        if base != ["a", 1] or off is None:
            return None, None
        t = c[len("hg_proc_"):]
        if t in PRIM:
            w = PRIM[t]
            if off in idx:
                o, s, ty, nm = sl[idx[off]]
                isptr = ty.endswith("*")
                if t in ("hg_string_t", "hg_const_string_t"):
                    good = ty == "i8*"
                elif t == "hg_bulk_t":
                    good = isptr and ty != "i8*"
                else:
                    good = w == s and not isptr and (ty[0] not in "f" or t in ("float", "double") or True)
                if not good:
                    probs.append(("width", nm, "field '%s' (%s, %d bytes) is carried as %s (%d bytes)" % (nm, ty, s, t, w), x))
                return [idx[off]], (t.replace("hg_", "").replace("uint", "int"), off)
            probs.append(("width", "off%d" % off, "%s at byte %d of %s does not start a field" % (t, off, sname), x))
            return [], (t, off)
        sub = P.fns.get(c)
        if sub is not None:
            sn = data_struct(P, sub)
            size = P.structs[sn]["size"]
            ks = [k for k, (o, s, ty, nm) in enumerate(sl) if off <= o < off + size]
            # the nested routine must match the type at that offset
            inner = [(o, s, ty) for o, s, ty, nm in slots(P, sn)]
            outer = [(sl[k][0] - off, sl[k][1], sl[k][2]) for k in ks]
            if inner != outer:
                probs.append(("nested", "off%d" % off, "nested %s does not match the layout at byte %d of %s" % (c, off, sname), x))
            return ks, ("sub", sn, off)
        return None, None

    guard = None
    if sname in GUARD:
        go = [o for o, s, t, n in sl if n == GUARD[sname][0]]
        guard = (go[0], GUARD[sname][1])
    results = {}
    for op in (ENC, DEC):
        finals = []

        def transfer(x, u, ev, op=op):
            if x.op == "store" and x.i in alloc:
                return [((u[0], u[1], u[2], tuple(sorted(dict(u[3] + (alloc[x.i],)).items()))), None)]
            if x.op != "call" or not x.callee:
                return None
            c = x.callee
            if c == "hg_proc_get_op":
                return [(u, ("i", op))]
            if not c.startswith("hg_proc_"):
                return None
            ks, e = event(x)
            if ks is None:
                chk.count("opaque_calls")
                return [(u, None)]
            cov, failed, seq, al = u
            if op == DEC and e[0] == 'raw' and dict(al).get(e[1]) != e[2]:
                nm = sl[idx[e[1]]][3]
                probs.append(('buffer', nm, "decode fills '%s' with %s bytes but its buffer has %s" % (nm, e[2], dict(al).get(e[1], 'not been allocated')), x))
            cov = list(cov)
            for k in ks:
                cov[k] = min(2, cov[k] + 1)
            if seq and e in seq and e[0] in ("raw",):
                ns = seq
            else:
                ns = seq + (e,)
            if len(ns) > len(sl) * 2 + 4:
                ns = ns[:len(sl) * 2 + 4]
            return [((tuple(cov), failed, ns, al), ("i", 0)),
                    ((tuple(cov), x.i, seq, al), ("ne", frozenset([0])))]

        def at_ret(x, u, ev):
            finals.append((u, ev(x.args[0]) if x.args else None, x))

        def load_value(x, ev):
            b, o = ir.ptr_base(fn, x.args[0])
            if gv is not None and b == ["a", 1] and o == guard[0]:
                return ("i", gv)
            return None

        for gv in ([guard[1], None] if guard else [None]):
            e = ESP(fn, [((0,) * len(sl), 0, (), ())], transfer, at_ret, load_value=load_value)
            e.run()
            chk.count("dataflow_states", e.states)
            if gv is not None:
                guarded, finals = finals, []
        unguarded = finals
        finals = guarded if guard else finals
        results[op] = finals
        opn = "encode" if op == ENC else "decode"
        chk.count('payload_lengths', len(lens) if op == ENC else 0)
        okf = [f for f in finals if not f[0][1]]
        if not okf:
            probs.append(("never", opn, "%s never completes" % opn, None))
        # failures propagate
        for (cov, failed, seq, al), rv, x in unguarded:
            if failed:
                bad = rv is None or (rv[0] == "i" and rv[1] == 0)
                if bad:
                    ci = fn.ins[failed]
                    ks, ev_ = event(ci)
                    nm = sl[ks[0]][3] if ks else "?"
                    probs.append(("swallow", nm, "a failed %s of field '%s' (%s) can be reported as success" %
                                  (opn, nm, ci.callee), ci))
            elif rv is not None and not (rv[0] == "i" and rv[1] == 0):
                probs.append(("spurious", opn, "%s of every field succeeds but the routine reports an error" % opn, x))
        # coverage on success
        nfull = 0
        for k, (o, s, t, nm) in enumerate(sl):
            vals = {f[0][0][k] for f in okf}
            if 2 in vals:
                probs.append(("twice", nm, "field '%s' is %sd more than once" % (nm, opn), None))
            if vals == {0}:
                probs.append(("missing", nm, "field '%s' is never %sd" % (nm, opn), None))
            elif 0 in vals:
                probs.append(("skipped", nm, "field '%s' is not %sd on some successful path" % (nm, opn), None))
    seqs = {op: {f[0][2] for f in results[op] if not f[0][1]} for op in results}
    if seqs[ENC] != seqs[DEC]:
        d = sorted(map(str, seqs[ENC] ^ seqs[DEC]))
        probs.append(("order", "", "encode and decode carry different field sequences: %s" % d[0][:300], None))
    return fn, sname, sl, probs


def run():
    chk = Check(PID, "for both operations, every success path of hg_proc_T touches every field of T once with its "
                "width; every failing primitive makes the routine fail; encode and decode sequences coincide")
    done = set()
    for config in ("client", "server", "wire"):
        P = ir.program(config)
        for name in sorted(P.fns):
            if not name.startswith("hg_proc_"):
                continue
            if name in done:
                continue
            fn = P.fns[name]
            if len(fn.args) != 2:
                continue
            done.add(name)
            fn, sname, sl, probs = analyse(P, name, chk, config)
            chk.count("routines"); chk.count("fields", len(sl))
            by = {}
            for kind, nm, msg, x in probs:
                by.setdefault((kind, nm), (msg, x))
            bad = {nm for kind, nm in by}
            for o, s, t, nm in sl:
                if nm not in bad:
                    chk.oblige(True, "", "", "%s.%s at +%d via %s" % (sname, nm, o, name))
            for (kind, nm), (msg, x) in sorted(by.items()):
                chk.oblige(False, "%s:%s:%s" % (name, kind, nm),
                           "%s (%s): %s" % (x.loc() if x is not None else fn.where(), name, msg))
    chk.floor("routines", 95)
    chk.floor("fields", 400)
    chk.analysed = {"configurations": ["client", "server", "all headers"], "functions": chk.counts["routines"]}
    return chk.finish("Every message (de)serialisation routine of both libraries was propagated path-sensitively for the "
                      "encode and the decode operation; one obligation per field plus one per defect found.")


if __name__ == "__main__":
    main(PID, run)
