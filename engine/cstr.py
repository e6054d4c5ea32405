"""The C string functions over byte cells of the abstract memory: strings of known content are followed exactly, a byte that
was never set is an event, a write past a region of known size is an event."""
from sym import Poly
from absint import Interp, reg
from frontend import AnalysisBroken

c = Poly.c
NULL = c(0)


def lit(path, s):
    """a constant string; its name is its content"""
    r = ("reg", ("str", s))
    b = s.encode() if isinstance(s, str) else bytes(s)
    for i, x in enumerate(b + b"\0"):
        path.mem[(r, i)] = c(x)
    path.size[r] = len(b) + 1
    return Poly.a(r)


class Strings:
    def __init__(self, I, limit=4096):
        self.I = I; self.limit = limit

    def byte(self, p, path, x):
        I = self.I
        I.here = x
        r, o = I.split(p)
        if r is None or o.const() is None:
            path.ev("oob", r, p, 1, x)
            return None
        if r in path.freed:
            path.ev("uaf", r, x)
            return None
        if r in path.size and not 0 <= o.const() < path.size[r]:
            path.ev("oob", r, o.const(), 1, x)
            return None
        v = I.load(p, path, "i8")
        k = v.const()
        if k is None:
            if any(isinstance(a, tuple) and a[0] in ("ld", "ldx") for a in v.atoms()):
                path.ev("uninit", r, o.const(), x)
            return None
        return k & 255

    def get(self, p, path, x, n=None):
        """bytes of a string (without the terminator), None when it cannot be read"""
        out = bytearray()
        if p == NULL:
            path.ev("oob", None, 0, 1, x)
            return None
        while n is None or len(out) < n:
            b = self.byte(p + c(len(out)), path, x)
            if b is None:
                return None
            if b == 0:
                return bytes(out)
            out.append(b)
            if len(out) > self.limit:
                raise AnalysisBroken("string without end")
        return bytes(out)

    def put(self, p, s, path, x, end=True):
        I = self.I
        s = s + (b"\0" if end else b"")
        I.here = x
        I.bound(p, len(s), path)
        r, o = I.split(p)
        if r is not None and o.const() is not None:
            for k in range(1, 9):           # a wider cell that reaches into the string is no longer known
                pass
        for i, b in enumerate(s):
            I.store(p + c(i), c(b), path)


    def call(self, f, args, path, x):
        """-> Poly, or None when f is no string function"""
        I = self.I
        g = lambda i, n=None: self.get(args[i], path, x, n)
        bad = Poly.a(("badstr",))
        if f == "strlen":
            s = g(0)
            return bad if s is None else c(len(s))
        if f == "strnlen":
            s = g(0, args[1].const())
            return bad if s is None else c(len(s))
        if f in ("strcmp", "strncmp", "strcasecmp", "strncasecmp"):
            n = args[2].const() if len(args) > 2 else None
            a, b = g(0, n), g(1, n)
            if a is None or b is None:
                return bad
            if "case" in f:
                a, b = a.lower(), b.lower()
            return c((a > b) - (a < b))
        if f == "memcmp":
            n = args[2].const()
            if n is None:
                return None
            for i in range(n):
                u, v = self.cellb(args[0] + c(i), path, x), self.cellb(args[1] + c(i), path, x)
                if u is None or v is None:
                    return bad
                if u != v:
                    return c(1 if u > v else -1)
            return c(0)
        if f in ("strcpy", "stpcpy", "__strcpy_chk"):
            s = g(1)
            if s is None:
                return bad
            self.put(args[0], s, path, x)
            return args[0] + (c(len(s)) if f == "stpcpy" else NULL)
        if f in ("strncpy", "__strncpy_chk"):
            n = args[2].const()
            if n is None:
                return None
            s = g(1, n)
            if s is None:
                return bad
            self.put(args[0], (s + b"\0" * n)[:n], path, x, False)
            return args[0]
        if f in ("strcat", "strncat"):
            n = args[2].const() if f == "strncat" else None
            a, b = g(0), g(1, n)
            if a is None or b is None:
                return bad
            self.put(args[0] + c(len(a)), b, path, x)
            return args[0]
        if f in ("strdup", "strndup"):
            s = g(0, args[1].const() if f == "strndup" else None)
            if s is None:
                return bad
            p = I.alloc(path, f, c(len(s) + 1))
            self.put(p, s, path, x)
            return p
        if f in ("strchr", "strrchr", "index", "rindex"):
            s = g(0)
            k = args[1].const()
            if s is None or k is None:
                return bad
            t = s + b"\0"
            i = t.find(k & 255) if f in ("strchr", "index") else t.rfind(k & 255)
            return NULL if i < 0 else args[0] + c(i)
        if f == "strstr":
            a, b = g(0), g(1)
            if a is None or b is None:
                return bad
            i = a.find(b)
            return NULL if i < 0 else args[0] + c(i)
        if f in ("snprintf", "sprintf", "__snprintf_chk", "__sprintf_chk"):
            if f.startswith("__"):
                return None
            k = 2 if f == "snprintf" else 1
            s = self.format(args[k], args[k + 1:], path, x)
            if s is None:
                return bad
            n = args[1].const() if f == "snprintf" else None
            if f == "snprintf" and n is None:
                return None
            w = s if n is None else s[:max(n - 1, 0)]
            if n != 0:
                self.put(args[0], w, path, x)
            return c(len(s))
        if f in ("atoi", "atol", "atoll", "strtol", "strtoll", "strtoul", "strtoull"):
            s = g(0)
            if s is None:
                return bad
            import re
            m = re.match(rb"\s*([+-]?\d+)", s)
            if f.startswith("strto"):
                if args[1] != NULL:
                    I.store(args[1], args[0] + c(m.end() if m else 0), path)
            return c(int(m.group(1)) if m else 0)
        if f in ("toupper", "tolower", "isdigit", "isalpha", "isspace", "isalnum"):
            k = args[0].const()
            if k is None:
                return None
            ch = bytes([k & 255])
            if f == "toupper":
                return c(ch.upper()[0])
            if f == "tolower":
                return c(ch.lower()[0])
            return c(int(getattr(ch, f)()))
        return None

    def cellb(self, p, path, x):
        """one byte for memcmp: a constant, or a value identified by its cell"""
        I = self.I
        r, o = I.split(p)
        if r is None or o.const() is None or r in path.freed:
            path.ev("uaf" if r in path.freed else "oob", r, x) if r in path.freed else path.ev("oob", r, p, 1, x)
            return None
        if r in path.size and not 0 <= o.const() < path.size[r]:
            path.ev("oob", r, o.const(), 1, x)
            return None
        return self.byte(p, path, x)

    def format(self, fmt, args, path, x):
        f = self.get(fmt, path, x)
        if f is None:
            return None
        f = f.decode("latin1"); out = b""; i = 0; k = 0
        while i < len(f):
            if f[i] != "%":
                out += f[i].encode("latin1"); i += 1; continue
            i += 1
            if f[i] == "%":
                out += b"%"; i += 1; continue
            spec = ""
            while f[i] in "0123456789.-+ #lhzjt":
                spec += f[i]; i += 1
            conv = f[i]; i += 1
            if k >= len(args):
                path.ev("badcall", x)
                return None
            a = args[k]; k += 1
            flags = spec.rstrip("lhzjt")
            if conv == "s":
                s = self.get(a, path, x)
                if s is None:
                    return None
                out += ("%" + flags + "s").__mod__(s.decode("latin1")).encode("latin1")
            elif conv in "diuxX":
                v = a.const()
                if v is None:
                    return None
                bits = 64 if "l" in spec or "z" in spec or "j" in spec else 32
                v = int(v) & ((1 << bits) - 1)
                if conv in "di" and v >> (bits - 1):
                    v -= 1 << bits
                out += (("%" + flags + ("d" if conv in "diu" else conv)) % v).encode()
            elif conv == "c":
                out += bytes([a.const() & 255])
            else:
                return None
        return out
