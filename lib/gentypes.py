"""Generates C++ type definitions and registrations for the typed harness,
with an independent computation of every type's structure and structure hash."""
import os, random

M32 = 0xffffffff
FAM = {n: i for i, n in enumerate(
    "VOID BOOLEAN CHARACTER INTEGER FLOAT ENUM ARRAY TUPLE SEQUENCE SET MAP OPTIONAL DURATION TIME_POINT UNIQUE_PTR "
    "SHARED_PTR WEAK_PTR FUNCTION CLASS BASE_CLASS FIELD CUSTOM_SERIALIZATION SEEN".split())}


def leaf(fam, sign, size):
    return (FAM[fam] | (int(bool(sign)) << 7) | (size << 8)) & M32


def add(*xs):
    h = 0
    for x in xs:
        h = ((h * 16777619) & M32) ^ x
    return h & M32


class T:
    """cpp: how to spell it. ident: identity for recursion (equal iff same C++ type)."""
    key = False      # usable as an ordered key
    hashable = False
    copyable = True
    minw = 1         # least encoded width
    in_agg = True    # can be a member of a bindable aggregate

    def hash(self, path=()):
        if self.ident in path:
            return leaf("SEEN", False, path.index(self.ident))
        return self._hash(path + (self.ident,))

    def structure(self, path=()):
        if self.ident in path:
            return "^%d" % path.index(self.ident)
        return self._structure(path + (self.ident,))

    @property
    def ident(self):
        return self.cpp

    def zero(self):
        return False


class Scalar(T):
    key = True

    def __init__(self, cpp, fam, sign, size, real=None, hashable=True, key=True):
        self.cpp, self.fam, self.sign, self.size = cpp, fam, sign, size
        self.real = real or cpp
        self.hashable = hashable
        self.key = key
        self.minw = size

    @property
    def ident(self):
        return self.real

    def _hash(self, path):
        return leaf(self.fam, self.sign, self.size)

    def _structure(self, path):
        return "%s%s%d" % (self.fam[0], "s" if self.sign else "u", self.size)


class Seq(T):
    def __init__(self, tmpl, e):
        self.e = e
        self.cpp = tmpl if "<" not in tmpl and tmpl.startswith("std::") and tmpl.endswith("string") else "%s<%s>" % (tmpl, e.cpp)
        self.key = e.key
        self.hashable = tmpl.endswith("string")
        self.copyable = e.copyable

    def _hash(self, path):
        return add(leaf("SEQUENCE", False, 0), self.e.hash(path))

    def _structure(self, path):
        return "seq(%s)" % self.e.structure(path)


class Arr(T):
    def __init__(self, n, e):
        self.e, self.n = e, n
        self.cpp = "std::array<%s, %d>" % (e.cpp, n)
        self.key = e.key
        self.copyable = e.copyable
        self.minw = n * e.minw

    def _hash(self, path):
        return add(leaf("ARRAY", False, self.n), self.e.hash(path))

    def _structure(self, path):
        return "arr%d(%s)" % (self.n, self.e.structure(path))


class CArr(Arr):
    """T[n], only as a class field."""
    def __init__(self, n, e):
        Arr.__init__(self, n, e)
        self.cpp = "%s[%d]" % (e.cpp, n)
        self.copyable = False
        self.key = False


class Assoc(T):
    def __init__(self, tmpl, k, v=None):
        self.k, self.v, self.tmpl = k, v, tmpl
        self.multi = "multi" in tmpl
        self.cpp = "%s<%s>" % (tmpl, k.cpp) if v is None else "%s<%s, %s>" % (tmpl, k.cpp, v.cpp)
        self.copyable = v is None or v.copyable
        self.key = not tmpl.startswith("arpc") and not "unordered" in tmpl and (v is None or v.key)

    def _hash(self, path):
        if self.v is None:
            return add(leaf("SET", self.multi, 0), self.k.hash(path))
        return add(leaf("MAP", self.multi, 0), Tup([self.k, self.v], "std::pair").hash(path))

    def _structure(self, path):
        if self.v is None:
            return "set%d(%s)" % (self.multi, self.k.structure(path))
        return "map%d(%s)" % (self.multi, Tup([self.k, self.v], "std::pair").structure(path))


class Tup(T):
    def __init__(self, es, tmpl="std::tuple"):
        self.es = es
        self.cpp = "%s<%s>" % (tmpl, ", ".join(e.cpp for e in es))
        self.key = all(e.key for e in es)
        self.copyable = all(e.copyable for e in es)
        self.minw = sum(e.minw for e in es)

    def _hash(self, path):
        return add(leaf("TUPLE", False, len(self.es)), *[e.hash(path) for e in self.es])

    def _structure(self, path):
        return "tup(%s)" % ",".join(e.structure(path) for e in self.es)


class Opt(T):
    in_agg = False

    def __init__(self, e):
        self.e = e
        self.cpp = "std::optional<%s>" % e.cpp
        self.key = e.key
        self.copyable = e.copyable

    def _hash(self, path):
        return add(leaf("OPTIONAL", False, 0), self.e.hash(path))

    def _structure(self, path):
        return "opt(%s)" % self.e.structure(path)


class Ptr(T):
    def __init__(self, kind, e):
        self.e, self.kind = e, kind
        self.cpp = "std::%s_ptr<%s>" % (kind, e.cpp)
        self.copyable = kind != "unique"

    def _hash(self, path):
        return add(leaf(self.kind.upper() + "_PTR", False, 0), self.e.hash(path))

    def _structure(self, path):
        return "%s(%s)" % (self.kind, self.e.structure(path))


class Dur(T):
    key = True

    def __init__(self, rep, num, den):
        self.num, self.den = num, den
        self.cpp = "std::chrono::duration<%s, std::ratio<%d, %d>>" % (rep, num, den)
        self.minw = 8

    def _hash(self, path):
        return leaf("DURATION", self.den > self.num, abs(self.den - self.num))

    def _structure(self, path):
        return "dur(%d/%d)" % (self.num, self.den)


class TimeP(T):
    key = True

    def __init__(self, clock, d):
        self.d = d
        self.cpp = "std::chrono::time_point<%s, %s>" % (clock, d.cpp)
        self.minw = 8

    def _hash(self, path):
        return leaf("TIME_POINT", self.d.den > self.d.num, abs(self.d.den - self.d.num))

    def _structure(self, path):
        return "tp(%d/%d)" % (self.d.num, self.d.den)


class Agg(T):
    copyable = True

    def __init__(self, name, es):
        self.cpp = name
        self.es = es
        self.copyable = all(e.copyable for e in es)

    def define(self):
        self.minw = sum(e.minw for e in self.es)
        return "struct %s { %s };\n" % (self.cpp, " ".join("%s f%d;" % (e.cpp, i) for i, e in enumerate(self.es)))

    def members(self):
        return [("f%d" % i, e) for i, e in enumerate(self.es)]

    def parts(self):
        return [(e, "o.%s" % n) for n, e in self.members()]

    def _hash(self, path):
        # As the tuple of its members.
        return Tup(self.es).hash(path)

    def _structure(self, path):
        return Tup(self.es).structure(path)


class Cls(T):
    def __init__(self, name, bases=(), fields=(), custom=(), version=0, explicit=False):
        self.cpp, self.bases, self.fields, self.custom, self.version = name, list(bases), list(fields), list(custom), version
        self.explicit = explicit
        self.copyable = all(e.copyable for e in self.bases + self.fields + self.custom)
        self.minw = sum(e.minw for e in self.bases + self.fields + self.custom)

    def define(self):
        s = "struct %s : arpc::serializable<%s> {\n" % (self.cpp, ", ".join([self.cpp] + [b.cpp for b in self.bases]))
        tag = self.cpp.replace("::", "_")
        self.tag = tag
        for i, f in enumerate(self.fields):
            s += self.decl(f, "%s_f%d" % (tag, i))
        for i, f in enumerate(self.custom):
            s += self.decl(f, "%s_c%d" % (tag, i))
        if self.fields:
            if self.explicit:
                s += "  using field_descriptors = arpc::mpt::pack<%s>;\n" % ", ".join(
                    "arpc::field_descriptor<&%s::%s_f%d>" % (self.cpp, tag, i) for i in range(len(self.fields)))
            else:
                s += "  ARPC_FIELDS(%s);\n" % ", ".join("%s_f%d" % (tag, i) for i in range(len(self.fields)))
        if self.version:
            s += "  ARPC_CUSTOM_SERIALIZATION_VERSION(%d);\n" % self.version
            names = ["%s_c%d" % (tag, i) for i in range(len(self.custom))]
            s += "  template <typename S> void save(S& s) const { %s }\n" % " ".join("s(%s);" % n for n in names)
            s += "  template <typename S> void load(S& s) { %s }\n" % " ".join("s(%s);" % n for n in names)
        return s + "};\n"

    @staticmethod
    def decl(t, n):
        if isinstance(t, CArr):
            return "  %s %s[%d];\n" % (t.e.cpp, n, t.n)
        return "  %s %s;\n" % (t.cpp, n)

    def parts(self):
        r = [(b, "static_cast<%s %s&>(o)" % ("$C", b.cpp)) for b in self.bases]
        r += [(f, "o.%s_f%d" % (self.tag, i)) for i, f in enumerate(self.fields)]
        r += [(f, "o.%s_c%d" % (self.tag, i)) for i, f in enumerate(self.custom)]
        return r

    def _hash(self, path):
        nb, nf, v = len(self.bases), len(self.fields), int(bool(self.version))
        bp, fp = "pack-b:" + self.cpp, "pack-f:" + self.cpp
        def pk(ts, ident, fd):
            p = path + (ident,)
            hs = []
            for i, t in enumerate(ts):
                q = p + (("fd:%s:%d" % (self.cpp, i)),) if fd else p
                hs.append(t.hash(q))
            return add(*hs)
        return add(leaf("CLASS", False, nb + nf + v), leaf("BASE_CLASS", False, nb), pk(self.bases, bp, False),
                   leaf("FIELD", False, nf), pk(self.fields, fp, True), leaf("CUSTOM_SERIALIZATION", False, v))

    def _structure(self, path):
        p = path + ("pack-f",)
        return "cls(%s|%s|%s)" % (",".join(b.structure(path + ("pack-b:" + self.cpp,)) for b in self.bases),
                                 ",".join(f.structure(path + ("pack-f:" + self.cpp, "fd:%s:%d" % (self.cpp, i)))
                                          for i, f in enumerate(self.fields)),
                                 "v%d" % int(bool(self.version)))


def tx(t):
    """Tx specialisation of a class or aggregate."""
    parts = t.parts()
    s = "template <> struct Tx<%s> {\n" % t.cpp
    def spell(p):
        return p.cpp
    s += "  static void fill(Shape& s) { s.kind = TUPLE; s.kids = {%s}; }\n" % ", ".join("shape<%s>()" % spell(p) for p, _ in parts)
    s += "  static Val val(const %s& o) { (void)o; Val r; %s return r; }\n" % (
        t.cpp, " ".join("r.kids.push_back(ty::val<%s>(%s));" % (spell(p), e.replace("$C", "const")) for p, e in parts))
    s += "  static void gen(%s& o, G& g) { (void)o; (void)g; Deeper d(g); %s }\n};\n" % (
        t.cpp, " ".join("ty::gen<%s>(%s, g);" % (spell(p), e.replace("$C", "")) for p, e in parts))
    return s


BOOL = Scalar("bool", "BOOLEAN", False, 1)
CHAR = Scalar("char", "CHARACTER", False, 1)
INTS = [Scalar("std::int8_t", "INTEGER", 1, 1, "signed char"), Scalar("std::uint8_t", "INTEGER", 0, 1, "unsigned char"),
        Scalar("std::int16_t", "INTEGER", 1, 2, "short"), Scalar("std::uint16_t", "INTEGER", 0, 2, "unsigned short"),
        Scalar("std::int32_t", "INTEGER", 1, 4, "int"), Scalar("std::uint32_t", "INTEGER", 0, 4, "unsigned int"),
        Scalar("std::int64_t", "INTEGER", 1, 8, "long"), Scalar("std::uint64_t", "INTEGER", 0, 8, "unsigned long"),
        Scalar("long long", "INTEGER", 1, 8), Scalar("char16_t", "INTEGER", 0, 2), Scalar("char32_t", "INTEGER", 0, 4),
        Scalar("wchar_t", "INTEGER", 1, 4)]
I8, U8, I16, U16, I32, U32, I64, U64 = INTS[:8]
FLT = Scalar("float", "FLOAT", 1, 4, key=False, hashable=False)
DBL = Scalar("double", "FLOAT", 1, 8, key=False, hashable=False)
ENUMS = [Scalar("E8", "ENUM", 0, 1), Scalar("E16s", "ENUM", 1, 2), Scalar("E32", "ENUM", 0, 4), Scalar("E64s", "ENUM", 1, 8), Scalar("EB", "ENUM", 0, 1)]
ENUM_DEF = """enum class E8 : std::uint8_t { a, b };
enum class E16s : std::int16_t { a = -3, b };
enum E32 : std::uint32_t { e32_a, e32_b };
enum class E64s : std::int64_t { a, b };
enum class EB : std::uint8_t { x };
"""
STR = Seq("std::string", CHAR)
SEQ_T = ["std::vector", "std::deque", "std::list"]
SET_T = ["std::set", "std::multiset", "std::unordered_set", "std::unordered_multiset", "arpc::flat_set", "arpc::flat_multiset"]
MAP_T = ["std::map", "std::multimap", "std::unordered_map", "std::unordered_multimap", "arpc::flat_map", "arpc::flat_multimap"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.user = []
        self.n = 0

    def scalar(self):
        r = self.r.random()
        if r < .15: return BOOL
        if r < .25: return CHAR
        if r < .75: return self.r.choice(INTS)
        if r < .9: return self.r.choice(ENUMS)
        return self.r.choice([FLT, DBL])

    def keyt(self, d, hashable):
        if hashable:
            return self.r.choice(INTS[:8] + [STR, BOOL, CHAR] + ENUMS[:2])
        for _ in range(30):
            t = self.typ(d, True)
            if t.key:
                return t
        return I32

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def typ(self, d, plain=False):
        r = self.r
        if d <= 0 or r.random() < .2:
            return STR if r.random() < .2 else self.scalar()
        k = r.randrange(13)
        if k <= 1:
            return Seq(r.choice(SEQ_T), self.typ(d - 1))
        if k == 2:
            return STR if r.random() < .6 else Seq("std::u16string", INTS[9])
        if k == 3:
            return Arr(r.randint(1, 4), self.typ(d - 1))
        if k == 4:
            t = r.choice(SET_T)
            return Assoc(t, self.keyt(d - 1, "unordered" in t))
        if k == 5:
            t = r.choice(MAP_T)
            return Assoc(t, self.keyt(d - 1, "unordered" in t), self.typ(d - 1))
        if k == 6:
            return Tup([self.typ(d - 1) for _ in range(r.randint(1, 4))])
        if k == 7:
            return Tup([self.typ(d - 1), self.typ(d - 1)], "std::pair")
        if k == 8:
            return Opt(self.typ(d - 1))
        if k == 9:
            return Ptr("unique", self.typ(d - 1))
        if k == 10:
            t = Dur(r.choice(["std::int64_t", "std::int32_t"]), *r.choice([(1, 1), (1, 1000), (1, 1000000), (60, 1), (1, 1000000000)]))
            return t if r.random() < .5 else TimeP("std::chrono::system_clock", t)
        if plain:
            return self.scalar()
        if k == 11:
            return self.agg([self.typ(d - 1) for _ in range(r.randint(1, 5))])
        return self.cls(d)

    def agg(self, es):
        # Aggregates are bound when they are standard-layout.
        es = [e if isinstance(e, (Scalar, Seq, Dur, Agg)) or isinstance(e, Ptr) else I16 for e in es]
        a = Agg(self.name("A"), es)
        self.user.append(a)
        return a

    def cls(self, d, nb=None):
        r = self.r
        bases = []
        if nb is None:
            nb = r.choice([0, 0, 1, 2])
        for _ in range(nb):
            bases.append(self.cls(d - 1, nb=r.choice([0, 0, 1]) if d > 0 else 0))
        fields = [self.typ(d - 1) for _ in range(r.randint(0 if bases else 1, 5))]
        if r.random() < .25:
            fields.append(CArr(r.randint(1, 3), self.typ(0)))
        custom, version = [], 0
        if r.random() < .3:
            version = r.choice([1, 1, 2, 7])
            custom = [self.typ(d - 1) for _ in range(r.randint(1, 3))]
        c = Cls(self.name("C"), bases, fields, custom, version, explicit=r.random() < .2)
        self.user.append(c)
        return c


def fixed(g):
    """A set of types that covers every construct, whatever the seed."""
    ts = [BOOL, CHAR, FLT, DBL, STR] + INTS + ENUMS
    ts += [Seq("std::vector", BOOL), Seq("std::vector", U8), Seq("std::vector", U32), Seq("std::list", I16), Seq("std::deque", DBL),
           Seq("std::u16string", INTS[9]), Seq("std::vector", STR), Seq("std::vector", Seq("std::vector", I16)),
           Arr(3, U32), Arr(2, STR), Arr(5, BOOL), Seq("std::list", BOOL), Seq("std::deque", CHAR)]
    for s in SET_T:
        ts += [Assoc(s, I32), Assoc(s, STR)]
    for m in MAP_T:
        ts += [Assoc(m, U16, STR), Assoc(m, STR, Seq("std::vector", I16))]
    for m in MAP_T:
        ts.append(Assoc(m, I32, Ptr("unique", I64)))
    ts += [Tup([I32, STR]), Tup([I32, STR], "std::pair"), Tup([U8]), Tup([BOOL, DBL, Seq("std::vector", U16)]),
           Opt(I32), Opt(STR), Opt(Opt(U8)), Ptr("unique", I32), Ptr("unique", Seq("std::vector", STR)), Ptr("unique", Ptr("unique", U16)),
           Dur("std::int64_t", 1, 1000), Dur("std::int32_t", 60, 1), Dur("std::int64_t", 1, 1), TimeP("std::chrono::system_clock", Dur("std::int64_t", 1, 1000000000)),
           TimeP("std::chrono::steady_clock", Dur("std::int64_t", 1, 1000)), Seq("std::vector", Dur("std::int64_t", 1, 1000)),
           Seq("std::vector", Opt(U16)), Assoc("std::map", Tup([U8, STR], "std::pair"), Tup([I32, BOOL]))]
    a1 = g.agg([I32, STR]); a2 = g.agg([U8, Seq("std::vector", a1), DBL]); a3 = g.agg([I32] * 7 + [STR] * 9 + [U16] * 5)
    c1 = Cls(g.name("C"), [], [I32, STR]); g.user.append(c1)
    c2 = Cls(g.name("C"), [], [STR, I32]); g.user.append(c2)
    c3 = Cls(g.name("C"), [c1], [DBL]); g.user.append(c3)
    c1b = Cls(g.name("C"), [], [I32, STR]); g.user.append(c1b)
    c4 = Cls(g.name("C"), [c3, c2], [U8, CArr(3, I16)]); g.user.append(c4)
    c5 = Cls(g.name("C"), [], [U16], [STR, I32], 1); g.user.append(c5)
    c6 = Cls(g.name("C"), [c5], [], [Seq("std::vector", U16)], 3); g.user.append(c6)
    c7 = Cls(g.name("C"), [], [], [], 0); g.user.append(c7)
    c7.minw = 0
    c8 = Cls(g.name("C"), [c1b], [Seq("std::list", c1), Assoc("std::map", STR, c3), Ptr("unique", c5)]); g.user.append(c8)
    # Recursive: a list and a binary tree through unique pointers.
    c9 = Cls(g.name("C")); c9.fields = [I32, Ptr("unique", c9)]; c9.copyable = False; c9.minw = 5; g.user.append(c9)
    c10 = Cls(g.name("C")); c10.fields = [Ptr("unique", c10), U8, Ptr("unique", c10)]; c10.copyable = False; c10.minw = 3; g.user.append(c10)
    c10b = Cls(g.name("C")); c10b.fields = [Ptr("unique", c10b), U8, Ptr("unique", c10b)]; c10b.copyable = False; c10b.minw = 3; g.user.append(c10b)
    ts += [a1, a2, a3, c1, c2, c3, c1b, c4, c5, c6, c7, c8, c9, c10, c10b, Seq("std::vector", c4), Opt(c8), Arr(2, c1), Seq("std::vector", a1),
           Tup([c1, a1, c5])]
    return ts


def zero_width_inside(t, memo=None):
    memo = memo if memo is not None else set()
    if t.ident in memo:
        return False
    memo.add(t.ident)
    kids = []
    if isinstance(t, (Seq, Opt, Ptr)):
        kids = [t.e]
        if isinstance(t, Seq) and t.e.minw == 0:
            return True
    elif isinstance(t, Arr):
        kids = [t.e]
    elif isinstance(t, Assoc):
        kids = [t.k] + ([t.v] if t.v else [])
        if sum(k.minw for k in kids) == 0:
            return True
    elif isinstance(t, (Tup, Agg)):
        kids = t.es
    elif isinstance(t, Cls):
        kids = t.bases + t.fields + t.custom
    return any(zero_width_inside(k, memo) for k in kids)


class Fn(T):
    def __init__(self, r, args, const):
        self.r, self.args, self.const = r, args, const
        self.cpp = "%s(%s)%s" % (r.cpp if r else "void", ", ".join(a.cpp for a in args), " const" if const else "")

    def _hash(self, path):
        return add(leaf("FUNCTION", self.const, 0), self.r.hash(path) if self.r else leaf("VOID", False, 0),
                   *[a.hash(path) for a in self.args])

    def _structure(self, path):
        return "fn%d(%s;%s)" % (self.const, self.r.structure(path) if self.r else "void",
                                ",".join(a.structure(path) for a in self.args))


def hash_only(g, ts):
    """Types that are hashed but not encoded: (spelling, hash, structure)."""
    r = g.r
    out = []
    for i in range(24):
        fn = Fn(r.choice([None, g.typ(1), r.choice(ts)]), [r.choice([g.typ(0), r.choice(ts)]) for _ in range(r.randint(0, 4))], r.random() < .5)
        out.append((fn.cpp, fn.hash(), fn.structure()))
    a, b = r.choice(INTS), STR
    for f in (Fn(a, [b], False), Fn(a, [b], True), Fn(b, [a], False), Fn(None, [a, b], False), Fn(None, [b, a], False), Fn(None, [], False)):
        out.append((f.cpp, f.hash(), f.structure()))
    for t in r.sample(ts, 12):
        for k in ("unique", "shared", "weak"):
            p = Ptr(k, t)
            out.append((p.cpp, p.hash(), p.structure()))
        for q in ("const %s", "%s&", "const %s&", "%s&&"):
            out.append((q % t.cpp, t.hash(), t.structure()))
    return out


def emit(outdir, seed, nrandom, ntu=8, with_fixed=True, prune=None):
    g = Gen(seed)
    ts = fixed(g) if with_fixed else []
    if prune:
        ts = [t for i, t in enumerate(ts) if prune(i)]
    seen = {t.cpp for t in ts}
    while nrandom > 0:
        t = g.typ(3)
        if t.cpp in seen or isinstance(t, Scalar):
            continue
        seen.add(t.cpp)
        ts.append(t)
        nrandom -= 1
    ho = hash_only(g, ts)
    os.makedirs(outdir, exist_ok=True)
    hdr = os.path.join(outdir, "types_gen.h")
    with open(hdr, "w") as f:
        f.write('#pragma once\n#define VH_NO_MAIN\n#include "typed.h"\nnamespace ut {\n' + ENUM_DEF)
        for u in g.user:
            f.write(u.define())
        f.write("}\nnamespace ty {\nusing namespace ut;\n")
        for u in g.user:
            f.write(tx(u))
        f.write("}\n")
    srcs = []
    for k in range(ntu):
        p = os.path.join(outdir, "types_%d.cpp" % k)
        with open(p, "w") as f:
            f.write('#include "types_gen.h"\nnamespace ty {\nvoid reg_%d() {\n' % k)
            for t in ts[k::ntu]:
                f.write('  reg<%s>("%s", "%s", %uu, %s);\n' % (t.cpp, t.cpp, t.structure(), t.hash(),
                                                              "false" if zero_width_inside(t) or t.minw == 0 else "true"))
            f.write("}\n}\n")
        srcs.append(p)
    p = os.path.join(outdir, "types_all.cpp")
    with open(p, "w") as f:
        f.write('#include "types_gen.h"\nstruct HashOnly { const char* name; std::uint32_t hash, ref; const char* structure; };\n')
        f.write("namespace ty {\nusing namespace ut;\nextern const HashOnly* hash_only; extern std::size_t hash_only_n;\nstatic const HashOnly ho[] = {\n")
        for cpp, h, st in ho:
            f.write('{"%s", arpc::traits::type_hash_v<%s>, %uu, "%s"},\n' % (cpp, cpp, h, st))
        f.write("};\nconst HashOnly* hash_only = ho; std::size_t hash_only_n = sizeof ho / sizeof *ho;\n}\n")
        f.write("namespace ty {\n" + "".join("void reg_%d();\n" % k for k in range(ntu)) +
                "void reg_all() { %s }\n}\n" % " ".join("reg_%d();" % k for k in range(ntu)))
    srcs.append(p)
    return srcs


if __name__ == "__main__":
    import sys
    print(emit(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])))
