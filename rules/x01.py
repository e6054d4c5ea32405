"""X01: text patterns select exactly the strings they describe.  The string helpers, the pattern matcher, the tag-list queries
and the query generator are abstractly interpreted over all short strings of an alphabet of character classes (two ordinary
letters, the wildcard, the separators), which is all the code distinguishes; each answer is compared with the definition, and
every allocation is accounted for."""
import os
import itertools
import re
import traceback
import multiprocessing as mp
import ir
from k01 import World, Group, Sink, KI
from cstr import Strings, lit
from report import Check
from absint import Interp, Path
from sym import Poly
from frontend import AnalysisBroken

PID = "X01"
c = Poly.c
NULL = c(0)
FILES = ["/string_utils.c", "/query_utils.c"]


def words(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def matches(s, pat):
    a, b = pat.startswith("*"), pat.endswith("*")
    if pat == "*":
        return True
    core = pat[1 if a else 0:len(pat) - (1 if b else 0)]
    if a and b:
        return core in s
    return s.endswith(core) if a else s.startswith(core) if b else s == core


class TW(World):
    def __init__(self, P):
        World.__init__(self, P, None, "text")
        self.I = KI(P, ext=self.ext, oracle=self.oracle, cell=self.cell, no_summary=True, max_paths=64, max_steps=200000)
        self.S = Strings(self.I)
        self.tok = None

    def cell(self, r, o):
        if isinstance(r[1], tuple) and r[1][0] == "glob" and r[1][1] in self.P.globals:
            g = self.P.globals[r[1][1]]
            i = g.get("init")
            if i is not None and i[0] == "z":
                return NULL
            if g.get("const") or g.get("str") is not None:
                return None
            if i is None or i[0] in ("n", "z"):
                return NULL
        return None

    def ext(self, f, args, path, x):
        if f is None:
            return World.ext(self, f, args, path, x)
        if f in ("printf", "puts", "fprintf", "fputc", "fflush", "vfprintf", "putchar", "fwrite", "println", "stderr_println"):
            return NULL
        if (f == "memset" or f.startswith("llvm.memset")) and (args[1].const() or 0) & 255 and (args[2].const() or 999) <= 64:
            self.I.here = x
            self.S.put(args[0], bytes([args[1].const() & 255]) * args[2].const(), path, x, False)
            return args[0]
        if f == "dsprintf":
            s = self.S.format(args[0], args[1:], path, x)
            if s is None:
                path.ev("badcall", x); return NULL
            p = self.I.alloc(path, f, c(len(s) + 1))
            self.S.put(p, s, path, x)
            return p
        if f in ("strtok", "strtok_r"):
            return self.strtok(f, args, path, x)
        if f in ("regcomp", "regexec", "regfree"):
            return self.regex(f, args, path, x)
        if f in ("strdup", "strndup"):
            self.nalloc += 1
            if self.fail is not None and self.nalloc == self.fail:
                return NULL
        r = self.S.call(f, args, path, x)
        if r is not None:
            return r
        return World.ext(self, f, args, path, x)

    def strtok(self, f, args, path, x):
        st = dict(path.extra or {})
        p = args[0]
        d = self.S.get(args[1], path, x)
        key = "tok"
        if p == NULL:
            p = st.get(key, NULL)
            if p == NULL:
                if key not in st:
                    path.ev("badcall", x)
                return NULL
        s = self.S.get(p, path, x)
        if s is None or d is None:
            return NULL
        i = 0
        while i < len(s) and s[i] in d:
            i += 1
        if i == len(s):
            st[key] = NULL; path.extra = st
            return NULL
        j = i
        while j < len(s) and s[j] not in d:
            j += 1
        if j < len(s):
            self.I.here = x
            self.I.store(p + c(j), NULL, path)
            st[key] = p + c(j + 1)
        else:
            st[key] = NULL
        path.extra = st
        return p + c(i)

    def regex(self, f, args, path, x):
        st = dict(path.extra or {})
        k = args[0].key()
        if f == "regcomp":
            s = self.S.get(args[1], path, x)
            st[k] = s; path.extra = st
            return NULL
        if k not in st:
            path.ev("badcall", x)
            return c(1)
        if f == "regfree":
            del st[k]; path.extra = st
            return NULL
        s = self.S.get(args[1], path, x)
        if s is None:
            return c(1)
        m = re.search(st[k], s)
        if not m:
            return c(1)
        self.I.here = x
        if args[2].const():
            self.I.store(args[3], c(m.start()), path)
            self.I.store(args[3] + c(4), c(m.end()), path)
        return NULL

    # ---- one call
    def do(self, fn, *args, path=None, fail=None):
        p = path or Path()
        a = [lit(p, t) if isinstance(t, str) else c(t) if isinstance(t, int) else t for t in args]
        self.fail = fail
        try:
            v, q, bad = self.run(p, fn, *a)
        finally:
            self.fail = None
        if q is not None and not bad:
            if any(k != "tok" for k in (q.extra or {})):
                bad = "never frees a compiled pattern"
        return v, q, bad

    def text(self, v, q):
        """content of a string the code gives, or None"""
        if v is None or v == NULL or q is None:
            return None
        p = q.copy(); p.events = []
        s = self.S.get(v, p, None)
        if s is None or any(e[0] in ("oob", "uaf", "uninit") for e in p.events):
            return None
        return s.decode("latin1")

    def left(self, q, *roots):
        """what stays allocated besides the results"""
        _, _, leaked, _ = self.canon(q, [r for r in roots if r is not None and r != NULL], {})
        return leaked


def flag(v):
    return None if v is None or v.const() is None else int(v.const() != 0)


def p_compare(P, G, th):
    """prefix, suffix, substring, equality, position, pieces, reversal"""
    W = TW(P)
    ws = list(words("ab", 4 if th else 3)) + ["abab", "aab*", "*", "a*"]
    spec = [("startsWith", lambda s, t: s.startswith(t)), ("endsWith", lambda s, t: s.endswith(t)), ("contains", lambda s, t: t in s), ("equals", lambda s, t: s == t)]
    big = "ab" * 150
    odd = ["A", "aB", "AB", "Ba", " a", "a ", "1", "a1", "a\x01"]
    for s in ws + odd + [big, big + "c"]:
        for t in ws + odd + ([big, big[1:], big[:-1]] if len(s) > 100 else []):
            if len(t) > 3 and len(s) < 100:
                continue
            for fn, f in spec:
                v, q, bad = W.do(fn, s, t)
                G.judge(fn, bad, flag(v) == int(f(s, t)), "answers %s for '%s' and '%s'" % (v, s, t))
            v, q, bad = W.do("indexOfStr", s, t)
            G.judge("indexOfStr", bad, v is not None and v.const() == s.find(t), "answers %s for '%s' in '%s'" % (v, t, s))
        for ch in "abc":
            v, q, bad = W.do("indexOf", s, ord(ch))
            G.judge("indexOf", bad, v is not None and v.const() == s.find(ch), "answers %s for '%s' in '%s'" % (v, ch, s))
        v, q, bad = W.do("reverse_str", s)
        G.judge("reverse_str", bad, W.text(v, q) == s[::-1] and not W.left(q, v), "gives '%s' for '%s'" % (W.text(v, q), s))
    for s in [w for w in ws if len(w) <= 3]:
        for a in range(-1, 6):
            for b in range(-1, 6):
                v, q, bad = W.do("substring", s, a, b)
                if a < 0 or b < a or a > len(s):
                    G.judge("substring of nothing", bad, v == NULL or W.text(v, q) == "", "substring(%s, %d, %d) gives '%s'" % (s, a, b, W.text(v, q)))
                else:
                    G.judge("substring", bad, W.text(v, q) == s[a:b] and not W.left(q, v), "substring(%s, %d, %d) gives '%s'" % (s, a, b, W.text(v, q)))
            v, q, bad = W.do("substr", s, a)
            if 0 <= a <= len(s):
                G.judge("substr", bad, W.text(v, q) == s[a:] and not W.left(q, v), "substr(%s, %d) gives '%s'" % (s, a, W.text(v, q)))
            v, q, bad = W.do("subrstr", s, a)
            if 0 <= a:
                G.judge("subrstr", bad, W.text(v, q) == s[:a] and not W.left(q, v), "subrstr(%s, %d) gives '%s'" % (s, a, W.text(v, q)))
    for fn, a in (("startsWith", (NULL, "a")), ("startsWith", ("a", NULL)), ("endsWith", (NULL, "a")), ("endsWith", ("a", NULL)),
                  ("simple_matches", (NULL, "a")), ("simple_matches", ("a", NULL)), ("reverse_str", (NULL,)), ("substring", (NULL, 0, 1))):
        v, q, bad = W.do(fn, *a)
        G.judge("null arguments", bad, v == NULL, "%s answers %s without a string" % (fn, v))
    for fn, a in (("substring", ("ab", 0, 1)), ("reverse_str", ("ab",))):
        v, q, bad = W.do(fn, *a, fail=1)
        G.judge("without memory", bad, v == NULL and not W.left(q, v), "%s gives %s" % (fn, v))


def p_pattern(P, G, th):
    W = TW(P)
    n = 0
    for pat in words("ab*", 4):
        v, q, bad = W.do("determine_pattern_type", pat)
        want = {(0, 0): "EXACT", (0, 1): "PREFIX", (1, 0): "SUFFIX", (1, 1): "MIDDLE"}[int(pat.startswith("*")), int(pat.endswith("*"))]
        code = next((dict(e)["PATTERN_" + want] for e in ((e.items() if isinstance(e, dict) else e) for e in P.enums.values()) if "PATTERN_EXACT" in dict(e)), None)
        if code is None:
            raise AnalysisBroken("pattern types not found")
        G.judge("kind of a pattern", bad, v is not None and v.const() == code, "'%s' is not taken as %s" % (pat, want))
        for s in words("ab*", 3):
            if "*" in s and len(pat) > 3 and not th:
                continue
            v, q, bad = W.do("simple_matches", s, pat)
            G.judge("match a pattern", bad, flag(v) == int(matches(s, pat)), "'%s' %s '%s'" % (pat, "matches" if flag(v) else "does not match", s))
            if q is not None:
                G.judge("memory of a match", None, not W.left(q), "matching '%s' leaves memory allocated" % pat)
    big = "ab" * 150
    for s in ("A", "Ab", "aB", " a", big, big + "c"):
        for pat in ("a", "a*", "*b", "*b*", "A*", "*B", " *", big, big + "*", "*" + big, "*" + big + "*", big[2:] + "*", "*" + big[2:], "*" + big[2:-2] + "*", "a" + big + "*"):
            v, q, bad = W.do("simple_matches", s, pat)
            G.judge("match a pattern", bad, flag(v) == int(matches(s, pat)), "'%s' %s '%s'" % (pat, "matches" if flag(v) else "does not match", s))
    for s, pat in (("aa", "a*"), ("aa", "*a"), ("aa", "*a*")):
        for k in (1, 2):
            v, q, bad = W.do("simple_matches", s, pat, fail=k)
            G.judge("match without memory", bad, flag(v) is not None and not W.left(q), "answers %s" % v)


def p_split(P, G, th):
    W = TW(P)
    for s in words("ab,", 4 if th else 3):
        for d in (",", "a", "ab", ",,", "b*"):
            p = Path()
            for n, z in (("res", 8), ("len", 4)):
                p.mem[(("reg", ("arg", n)), 0)] = NULL; p.size[("reg", ("arg", n))] = z
            r, l = Poly.a(("reg", ("arg", "res"))), Poly.a(("reg", ("arg", "len")))
            v, q, bad = W.do("split_string", s, d, r, l, path=p)
            if d == "b*":           # may match nothing: what the pieces are is not specified, but it has to end
                G.judge("split at a pattern that matches nothing", bad, v is not None, "does not end")
                continue
            want = re.split(re.escape(d), s)
            got = None
            if q is not None and not bad and v is not None and v.const() == len(want):
                a = q.mem.get((("reg", ("arg", "res")), 0))
                n = q.mem.get((("reg", ("arg", "len")), 0))
                if n == c(len(want)) and Interp.split(a)[0] is not None:
                    ps = [q.mem.get((Interp.split(a)[0], 8 * i), NULL) for i in range(len(want))]
                    got = [W.text(t, q) for t in ps]
                    if W.left(q, a, *ps):
                        bad = "leaves memory allocated besides its result"
            G.judge("split a string", bad, got == want, "'%s' at '%s' gives %s" % (s, d, got if got is not None else v))
    for k in range(1, 5):
        p = Path()
        for n, z in (("res", 8), ("len", 4)):
            p.mem[(("reg", ("arg", n)), 0)] = NULL; p.size[("reg", ("arg", n))] = z
        v, q, bad = W.do("split_string", "a,b,a", ",", Poly.a(("reg", ("arg", "res"))), Poly.a(("reg", ("arg", "len"))), path=p, fail=k)
        G.judge("split without memory", bad, v is not None and v.const() == -1 and not W.left(q), "allocation %d fails: answers %s, leaves memory %s" % (k, v, bool(q and W.left(q))))


def tags(s):
    """the key-value pairs of a tag list"""
    return [(t.split("=", 1)[0], t.split("=", 1)[1], t) for t in s.split(",") if "=" in t]


def p_tags(P, G, th):
    W = TW(P)
    kvs = ["a=1", "ab=12", "b=a", "a=b=c", "=x", "c=", "x", ""]
    lists = [",".join(t) for n in (0, 1, 2) for t in itertools.product(kvs, repeat=n)] + ["a=1,ab=12,b=a", "x,x,a=1", ",,b=a,", "b=a,c=,a=2", "A=1,a=2", "a=1 ,b=2", ",".join("k%d=%d" % (i, i) for i in range(40)) + ",a=1,ab=ac"]
    for s in ["a=b", "=", "a=", "=b", "ab=ab", "a", "", "a=b=c"]:
        for fn, part in (("get_key", lambda t: t.split("=", 1)[0]), ("get_value", lambda t: t.split("=", 1)[1])):
            v, q, bad = W.do(fn, s, ord("="))
            want = part(s) if "=" in s else None
            G.judge(fn, bad, (v == NULL) if want is None else W.text(v, q) == want and not W.left(q, v), "gives '%s' for '%s'" % (W.text(v, q), s))
    for L in lists:
        T = tags(L)
        for kp in ("a", "a*", "*b", "*a*", "c", "z", "*"):
            v, q, bad = W.do("k_v_matches_p", L, kp, NULL)
            want = next((t[2] for t in T if matches(t[0], kp)), None)
            G.judge("find a tag by key", bad, (v == NULL) == (want is None) and (want is None or W.text(v, q) == want),
                    "'%s' in '%s' gives '%s'" % (kp, L, W.text(v, q)))
            if q is not None and not bad:
                G.judge("memory of a tag search", None, not W.left(q, v), "searching '%s' for '%s' leaves memory nobody can free" % (L, kp))
            for fn in ("has_tag", "has_tag_p"):
                v, q, bad = W.do(fn, L, kp)
                G.judge(fn, bad, flag(v) == int(want is not None), "'%s' in '%s' gives %s" % (kp, L, v))
                if q is not None and not bad:
                    G.judge("memory of a tag search", None, not W.left(q), "%s leaves memory allocated" % fn)
            for vp in ("1", "1*", "*c", "b*", ""):
                want = next((t[2] for t in T if matches(t[0], kp) and matches(t[1], vp)), None)
                v, q, bad = W.do("k_v_matches_p", L, kp, vp)
                G.judge("find a tag by key and value", bad, (v == NULL) == (want is None) and (want is None or W.text(v, q) == want),
                        "'%s=%s' in '%s' gives '%s'" % (kp, vp, L, W.text(v, q)))
                for fn in ("is_value_match", "is_value_match_p"):
                    v, q, bad = W.do(fn, L, kp, vp)
                    G.judge(fn, bad, flag(v) == int(want is not None), "'%s=%s' in '%s' gives %s" % (kp, vp, L, v))
                    if q is not None and not bad:
                        G.judge("memory of a tag search", None, not W.left(q), "%s leaves memory allocated" % fn)
    for L in ("a=5", "b=7,a=5", "a=-3,b=7", "b=5", "", "a=12,ab=5"):
        T = tags(L)
        for lo, hi in ((5, 5), (0, 4), (6, 9), (-5, 5), (12, 12), (9, 3)):
            v, q, bad = W.do("is_value_in_range", L, "a", lo, hi)
            want = any(k == "a" and lo <= int(x) <= hi for k, x, _ in T)
            G.judge("value in a range", bad, flag(v) == int(want), "a in [%d,%d] of '%s' gives %s" % (lo, hi, L, v))
            if q is not None and not bad:
                G.judge("memory of a tag search", None, not W.left(q), "is_value_in_range leaves memory allocated")
    for i in (0, 1, 7, 19, 20, 33):
        v, q, bad = W.do("gen_tags", i)
        want = ",".join("tag%d=%d%d" % (j, i, j) for j in range(i % 20 + 1))
        G.judge("generate tags", bad, W.text(v, q) == want and not W.left(q, v), "tags of object %d: '%s'" % (i, W.text(v, q)))


def enum(P, n):
    for e in P.enums.values():
        d = dict(e.items() if isinstance(e, dict) else e)
        if n in d:
            return d[n]
    raise AnalysisBroken("%s not found" % n)


def p_gen(P, G, th):
    """generated queries describe the tag they were made from"""
    W = TW(P)
    fin, fout, ft = W.L.fields("query_gen_input"), W.L.fields("query_gen_output"), W.L.fields("pdc_kvtag_t")
    R = lambda n: ("reg", ("arg", n))

    def affix(s, k, n):
        n = min(n, len(s))
        return [s, s[:n] + "*", "*" + s[len(s) - n:], "*" + s[len(s) - n:] + "*"][k]

    def go(name, typ, val, kq, vq, n, lo=0, hi=0):
        p = Path()
        for st, r in (("query_gen_input", "in"), ("query_gen_output", "out"), ("pdc_kvtag_t", "tag")):
            p.size[R(r)] = P.structs[st]["size"]
        p.mem[(R("tag"), ft["name"][0])] = lit(p, name)
        p.mem[(R("tag"), ft["type"][0])] = c(typ)
        if isinstance(val, int):
            p.mem[(R("num"), 0)] = c(val); p.size[R("num")] = 4
            p.mem[(R("tag"), ft["value"][0])] = Poly.a(R("num"))
            p.mem[(R("tag"), ft["size"][0])] = c(4)
        else:
            p.mem[(R("tag"), ft["value"][0])] = lit(p, val)
            p.mem[(R("tag"), ft["size"][0])] = c(len(val) + 1)
        for m, v in (("base_tag", Poly.a(R("tag"))), ("key_query_type", c(kq)), ("value_query_type", c(vq)), ("affix_len", c(n)), ("range_lo", c(lo)), ("range_hi", c(hi))):
            p.mem[(R("in"), fin[m][0])] = v
        v, q, bad = W.do("gen_query_key_value", Poly.a(R("in")), Poly.a(R("out")), path=p)
        what = "tag %s=%s, kinds %d and %d, affix %d" % (name, val, kq, vq, n)
        if q is None or bad:
            G.judge("generate a query", bad, False, what); return
        o = {m: q.mem.get((R("out"), fout[m][0])) for m in fout}
        kn, kv = name, val
        if len(name) < 3:
            kn = name[0] * 3; n = 1
        if isinstance(val, str) and len(val) < 3:
            kv = val[0] * 3; n = 1
        wk = affix(kn, kq, n)
        wv = affix(kv, vq, n) if isinstance(val, str) else "%d" % val if vq == 4 else "%d~%d" % (lo, hi)
        ok = all(o[m] is not None for m in o) and W.text(o["key_query"], q) == wk and W.text(o["value_query"], q) == wv and \
            o["key_query_len"] == c(len(wk)) and o["value_query_len"] == c(len(wv))
        G.judge("generate a query", None, ok, "%s: %s" % (what, {m: W.text(o[m], q) if "len" not in m else o[m] for m in o} if None not in o.values() else o))
        if isinstance(val, str) and ok:
            G.judge("a generated query matches its tag", None, matches(kn, wk) and matches(kv, wv), what)
        if ok:
            s, q2, bad = W.do("gen_query_str", Poly.a(R("out")), path=q)
            G.judge("query string", bad, W.text(s, q2) == wk + "=" + wv, "gives '%s'" % W.text(s, q2))
            s, q2, bad = W.do("free_query_output", Poly.a(R("out")), path=q)
            roots = [q2.mem.get((R("tag"), ft[m][0])) for m in ("name", "value")] if q2 is not None else []
            G.judge("free a query", bad, q2 is not None and not W.left(q2, *roots), "leaves memory allocated")

    S, N = enum(P, "PDC_STRING"), enum(P, "PDC_INT")
    for n in (1, 2, 3, 4, 7):
        for kq in range(4):
            for vq in range(4):
                go("abcd", S, "bcdea", kq, vq, n)
            go("ab", S, "bcdea", kq, kq, n)
            go("abcd", S, "b", kq, 3 - kq, n)
            go("abcd", N, 7, kq, 4, n)
            go("abcd", N, -12, kq, 5, n, -13, 105)


PARTS = [("text", p_compare), ("patterns", p_pattern), ("splitting", p_split), ("tag lists", p_tags), ("query generation", p_gen)]


def part(a):
    name, fn, th = a
    chk = Sink(); broken = None
    try:
        P = ir.program("commons", only=FILES)
        with Group(chk, name) as G:
            fn(P, G, th)
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    return name, chk.counts, chk.obl, broken


def run():
    chk = Check(PID, "every text helper, match and tag search gives the answer its definition gives, without touching other memory or leaking")
    th = chk.tier == "thorough"
    ir.program("commons", only=FILES)
    parts = [(n, f, th) for n, f in PARTS if not os.environ.get("X01") or os.environ["X01"] in n]
    chk.analysed = {"parts": [p[0] for p in parts]}
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(part, parts, chunksize=1)
    for name, counts, obl, broken in res:
        for k, v in counts.items():
            chk.count(k, v)
        for o in obl:
            chk.oblige(*o)
        if broken:
            chk.broken.append("%s: %s" % (name, broken))
    chk.assumptions += ["the C library's string functions and regular expressions do what their standard says",
                        "characters matter only as equal or different, as wildcard or as separator"]
    chk.floor("steps", 3000); chk.floor("obligations", 25)
    return chk.finish("Each function was abstractly interpreted over all strings within the bound and compared with its definition.")
