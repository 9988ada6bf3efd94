"""Generates C++ using arpc::mpt, the preprocessor helpers and enum/field names, with the expected results computed here."""
import os
import random

TYPES = ["int", "unsigned", "unsigned char", "signed char", "short", "unsigned short", "long", "unsigned long", "bool", "char", "double",
         "std::string", "Inc", "Abs", "NoCopy", "int&", "const int", "void", "int*", "const Inc&", "int(int)", "int[3]", "Color"]
PREFIX = {"bool": "b", "char": "c", "unsigned char": "uc", "signed char": "sc", "short": "s", "unsigned short": "us", "int": "i",
          "unsigned": "u", "long": "l", "unsigned long": "ul", "Color": "e"}
LIT = {"bool": lambda v: "true" if v else "false", "char": lambda v: "char(%d)" % v, "unsigned char": lambda v: "(unsigned char)%d" % v,
       "signed char": lambda v: "(signed char)%d" % v, "short": lambda v: "short(%d)" % v, "unsigned short": lambda v: "(unsigned short)%d" % v,
       "int": lambda v: "%d" % v, "unsigned": lambda v: "%du" % v, "long": lambda v: "%dL" % v, "unsigned long": lambda v: "%dUL" % v,
       "Color": lambda v: "Color(%d)" % v}


def lit(t, v):
    return "(" + LIT[t](v) + ")"


def show(t, v):
    return PREFIX[t] + str(v if t != "bool" else int(bool(v)))


def lst(xs):
    return "[" + ",".join(xs) + "]"


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def idx(r, n, maxlen):
    return [r.randrange(n) for _ in range(r.randrange(maxlen + 1))] if n else []


def iseq(ix):
    return "mpt::index_sequence<%s>" % ", ".join("%d" % i for i in ix)


def common(o, S, L, shown, r, cat_name):
    """Operations shared by packs, value packs and integer sequences. L: shown elements as seq() prints, shown: as one() prints."""
    n = len(L)
    c = lambda op, got, want: o.append("  check(%s, %s, %s);" % (q(cat_name + " " + op), got, want if want.startswith("std::") else q(want)))
    c("size", "std::to_string(mpt::size_v<S>) + std::to_string(mpt::size_v<const S&>)", "%d%d" % (n, n))
    for i in range(n) if n <= 12 else r.sample(range(n), 8):
        c("at", "one(mpt::at<%d>(S{}))" % i, shown[i])
    c("for_each", "walk(S{})", lst(shown))
    c("transform", "seq(mpt::transform(S{}, one_f{}))", lst(['"' + x + '"' for x in shown]))
    c("transform args", "seq(mpt::transform(S{}, one_arg_f{}, std::string(\"argument that does not fit inline\")))",
      lst(['"' + x + '/"argument that does not fit inline""' for x in shown]))
    f = "z"
    for x in shown:
        f = "(" + f + x + ")"
    c("accumulate", 'mpt::accumulate(std::string("z"), S{}, fold_f{})', f)
    f = "z"
    for x in shown:
        f = "(" + f + x + 'i7)'
    c("accumulate args", 'mpt::accumulate(std::string("z"), S{}, fold_f{}, 7)', f)
    return c


def ranges(c, n, pre, L, r):
    for _ in range(4):
        ix = idx(r, n, 9)
        c("subset", "seq(mpt::subset(S{}, %s{}))" % iseq(ix), pre + lst([L[i] for i in ix]))
    for _ in range(4):
        b = r.randrange(n + 1)
        e = r.randrange(b, n + 1)
        c("range", "seq(mpt::range<%d, %d>(S{}))" % (b, e), pre + lst(L[b:e]))
    if n:
        c("tail", "seq(mpt::tail(S{}))", pre + lst(L[1:]))


def g_pack(r, o, helpers, uid):
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 9, 12, 30])
    ts = [r.choice(TYPES) for _ in range(n)]
    P = lambda x: "mpt::pack<%s>" % ", ".join(x)
    o.append("  using S = %s;" % P(ts))
    sh = ["w<%s>" % t for t in ts]
    c = common(o, "S", ts, sh, r, "pack")
    ranges(c, n, "", ts, r)
    c("kind", "kinds<S>()", "pppp")
    if n:
        c("head", "one(mpt::head(S{}))", sh[0])
    c("as_tuple", "seq(mpt::as_tuple(S{}))", lst(sh))
    c("as_pack", "seq(mpt::as_pack(S{})) + seq(mpt::as_pack(mpt::as_tuple(S{})))", lst(ts) + lst(ts))
    c("wrap", "seq(mpt::wrap(S{}))", lst(sh))
    c("unwrap", "seq(mpt::unwrap(mpt::wrap(S{})))", lst(ts))
    others = [[r.choice(TYPES) for _ in range(r.choice([0, 0, 1, 2, 5]))] for _ in range(r.randrange(4))]
    c("cat", "seq(mpt::cat(S{}%s))" % "".join(", %s{}" % P(x) for x in others), lst(ts + sum(others, [])))
    sel = [r.random() < .5 for _ in range(n)]
    c("index_if", "seq(mpt::index_if_t<mpt::make_index_sequence<%d>%s>{})" % (n, "".join(", %s" % str(s).lower() for s in sel)),
      "unsigned long" + lst(["ul%d" % i for i in range(n) if sel[i]]))
    probe = set(r.sample(TYPES, 4) + r.sample(ts, min(n, 4)))
    for t in sorted(probe):
        w = [i for i in range(n) if ts[i] == t]
        c("find_if", "seq(mpt::find_if_t<S, mpt::is_type<%s>>{})" % t, "unsigned long" + lst(["ul%d" % i for i in w]))
        c("filter_if", "seq(mpt::filter_if_t<S, mpt::is_type<%s>>{})" % t, lst([t] * len(w)))
        c("count_if", "std::to_string(mpt::count_if_v<S, mpt::is_type<%s>>) + std::to_string(mpt::is_type_in_v<%s, S>)" % (t, t),
          "%d%d" % (len(w), len(w) > 0))
        c("insert_type_into", "seq(mpt::insert_type_into_t<%s, S>{})" % t, lst(ts if w else ts + [t]))
        if len(w) == 1:
            c("find", "std::to_string(mpt::find_v<S, mpt::is_type<%s>>)" % t, str(w[0]))
    accept = sorted(set(r.sample(TYPES, 9)))
    helpers.append("struct any_of_%d {\n%s  constexpr bool operator()(...) { return false; }\n};" % (
        uid, "".join("  constexpr bool operator()(mpt::wrap_type<%s>) { return true; }\n" % t for t in accept)))
    w = [i for i in range(n) if ts[i] in accept]
    c("find_if any", "seq(mpt::find_if_t<S, any_of_%d>{})" % uid, "unsigned long" + lst(["ul%d" % i for i in w]))
    c("filter_if any", "seq(mpt::filter_if_t<S, any_of_%d>{})" % uid, lst([ts[i] for i in w]))
    for i in range(min(n, 12)):
        c("element_type", "tn<mpt::element_type_t<%d, S>>()" % i, sh[i])


def g_value_pack(r, o, helpers, uid):
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 25])
    vs = []
    for _ in range(n):
        t = r.choice(list(LIT))
        v = {"bool": lambda: r.randrange(2), "Color": lambda: r.choice([1, 2, 7])}.get(t, lambda: r.randrange(60))()
        vs.append((t, v))
    V = lambda x: "mpt::value_pack<%s>" % ", ".join(lit(*e) for e in x)
    o.append("  using S = %s;" % V(vs))
    sh = [show(*e) for e in vs]
    c = common(o, "S", sh, sh, r, "value_pack")
    ranges(c, n, "", sh, r)
    c("kind", "kinds<S>()", "vvvv")
    if n:
        c("head", "one(mpt::head(S{}))", sh[0])
    c("as_tuple", "seq(mpt::as_tuple(S{}))", lst(sh))
    c("as_value_pack", "seq(mpt::as_value_pack(S{}))", lst(sh))
    more = []
    for _ in range(r.randrange(3)):
        more.append([("int", r.randrange(9)) for _ in range(r.randrange(4))])
    c("cat", "seq(mpt::cat(S{}%s))" % "".join(", %s{}" % V(x) for x in more), lst(sh + [show(*e) for x in more for e in x]))
    for k in range(4):
        t, v = r.choice(vs) if vs and k < 3 else ("int", r.randrange(60))
        if t == "Color":
            same = [i for i in range(n) if vs[i] == (t, v)]
        else:
            same = [i for i in range(n) if vs[i][0] != "Color" and vs[i][1] == v]
        if t == "bool":  # Everything converts to bool.
            same = [i for i in range(n) if vs[i][0] != "Color" and bool(vs[i][1]) == bool(v)]
        c("is_value", "seq(mpt::find_if_t<S, mpt::is_value<%s>>{})" % lit(t, v), "unsigned long" + lst(["ul%d" % i for i in same]))
        c("is_value_in", "std::to_string(mpt::is_value_in_v<%s, S>) + std::to_string(mpt::count_if_v<S, mpt::is_value<%s>>)" % (lit(t, v), lit(t, v)),
          "%d%d" % (len(same) > 0, len(same)))
        c("filter_if", "seq(mpt::filter_if_t<S, mpt::is_value<%s>>{})" % lit(t, v), lst([sh[i] for i in same]))
        c("insert_value_into", "seq(mpt::insert_value_into_t<%s, S>{})" % lit(t, v), lst(sh if same else sh + [show(t, v)]))
        if len(same) == 1:
            c("find", "std::to_string(mpt::find_v<S, mpt::is_value<%s>>)" % lit(t, v), str(same[0]))
    for i in range(min(n, 9)):
        c("element_type", "tn<mpt::element_type_t<%d, S>>()" % i, vs[i][0])


def arith(t):
    """Result type of integer promotion."""
    return t if t in ("long", "unsigned long", "unsigned") else "int"


BITS = {"int": 32, "long": 64, "unsigned": 32, "unsigned long": 64}


def wrap(t, v):
    b = BITS[t]
    v &= (1 << b) - 1
    return v - (1 << b) if t in ("int", "long") and v >> (b - 1) else v


def usual(a, b):
    a, b = arith(a), arith(b)
    rank = ["int", "unsigned", "long", "unsigned long"]
    return rank[max(rank.index(a), rank.index(b))]


def cdiv(a, b):
    s = abs(a) // abs(b)
    return -s if (a < 0) != (b < 0) else s


BIN = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "modulus": "%", "equal_to": "==", "not_equal_to": "!=", "greater": ">",
       "less": "<", "greater_equal": ">=", "less_equal": "<=", "logical_and": "&&", "logical_or": "||", "bit_and": "&", "bit_or": "|", "bit_xor": "^"}
PY = {"plus": lambda a, b: a + b, "minus": lambda a, b: a - b, "multiplies": lambda a, b: a * b, "divides": cdiv, "modulus": lambda a, b: a - cdiv(a, b) * b,
      "equal_to": lambda a, b: a == b, "not_equal_to": lambda a, b: a != b, "greater": lambda a, b: a > b, "less": lambda a, b: a < b,
      "greater_equal": lambda a, b: a >= b, "less_equal": lambda a, b: a <= b, "logical_and": lambda a, b: bool(a and b),
      "logical_or": lambda a, b: bool(a or b), "bit_and": lambda a, b: a & b, "bit_or": lambda a, b: a | b, "bit_xor": lambda a, b: a ^ b}


def g_int_seq(r, o, helpers, uid):
    t = r.choice(["int", "unsigned char", "signed char", "short", "unsigned short", "long", "unsigned long", "unsigned", "char"])
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 25])
    lo = -100 if t in ("int", "signed char", "short", "long") else 0
    vs = [r.randrange(lo, 101) for _ in range(n)]
    I = lambda ty, x: "mpt::integer_sequence<%s>" % ", ".join([ty] + [lit(ty, v) if ty != "bool" else str(v) for v in x])
    o.append("  using S = %s;" % I(t, vs))
    sh = [show(t, v) for v in vs]
    c = common(o, "S", sh, sh, r, "integer_sequence")
    ranges(c, n, t, sh, r)
    c("kind", "kinds<S>()", "iiii")
    c("member size", "std::to_string(S::size) + tn<S::value_type>() + seq(S::type{})", "%d%s%s" % (n, t, t + lst(sh)))
    c("as_tuple", "seq(mpt::as_tuple(S{}))", lst(sh))
    c("as_value_pack", "seq(mpt::as_value_pack(S{}))", lst(sh))
    c("as_pack", "seq(mpt::as_pack(S{}))", lst([t] * n))
    if n:
        c("head", "one(mpt::head(S{}))", sh[0])
    p = arith(t)
    c("identity", "seq(S::identity_t{})", t + lst(sh))
    for name, sym, f in (("negate", "-", lambda v: wrap(p, -v)), ("bit_not", "~", lambda v: wrap(p, ~v))):
        c(name, "seq(S::%s_t{}) + seq(%sS{})" % (name, sym), (p + lst([show(p, f(v)) for v in vs])) * 2)
    c("logical_not", "seq(S::logical_not_t{}) + seq(!S{})", ("bool" + lst([show("bool", not v) for v in vs])) * 2)
    t2 = r.choice([t, t, "int", "unsigned long"])
    lo2 = 1 if lo == 0 or t2 not in ("int", "signed char", "short", "long") else -50
    ws = [r.choice([v for v in range(lo2, 51) if v]) if r.random() < .7 or not 0 < v <= 100 else v for v in vs]
    if t2 not in BITS and t2 == "signed char":
        ws = [min(w, 100) for w in ws]
    rt = usual(t, t2)
    o.append("  using W = %s;" % I(t2, ws))
    for name, sym in BIN.items():
        boolean = name in ("equal_to", "not_equal_to", "greater", "less", "greater_equal", "less_equal", "logical_and", "logical_or")
        if boolean:
            res = "bool" + lst([show("bool", PY[name](wrap(rt, a), wrap(rt, b)) if not name.startswith("logical") else PY[name](a, b)) for a, b in zip(vs, ws)])
        else:
            res = rt + lst([show(rt, wrap(rt, PY[name](wrap(rt, a), wrap(rt, b)))) for a, b in zip(vs, ws)])
        c(name, "seq(S::%s_t<W>{}) + seq(S{} %s W{})" % (name, sym), res * 2)
    more = [[r.randrange(0, 100) for _ in range(r.randrange(5))] for _ in range(r.randrange(4))]
    c("cat", "seq(mpt::cat(S{}%s))" % "".join(", %s{}" % I(t, x) for x in more), t + lst(sh + [show(t, v) for x in more for v in x]))
    for _ in range(3):
        v = r.choice(vs) if vs and r.random() < .7 else r.randrange(100)
        same = [i for i in range(n) if vs[i] == v]
        c("find_if", "seq(mpt::find_if_t<S, mpt::is_value<%s>>{})" % lit(t, v), "unsigned long" + lst(["ul%d" % i for i in same]))
        c("filter_if", "seq(mpt::filter_if_t<S, mpt::is_value<%s>>{})" % lit(t, v), t + lst([sh[i] for i in same]))
        c("is_value_in", "std::to_string(mpt::is_value_in_v<%s, S>)" % lit(t, v), str(int(bool(same))))
    m = r.choice([0, 1, 2, 3, 4, 7, 8, 9, 31, 32, 33, 100, 127])
    ty = r.choice(["int", "unsigned long", "short", "char"])
    c("make_integer_sequence", "seq(mpt::make_integer_sequence<%s, %d>{})" % (ty, m), ty + lst([show(ty, i) for i in range(m)]))
    k = r.randrange(90)
    c("make_constant", "seq(mpt::make_constant_integer_sequence<%s, %d, %d>{})" % (ty, m, k), ty + lst([show(ty, k)] * m))
    m = r.randrange(300)
    c("make_index_sequence", "seq(mpt::make_index_sequence<%d>{})" % m, "unsigned long" + lst(["ul%d" % i for i in range(m)]))
    c("make_constant_index", "seq(mpt::make_constant_index_sequence<%d, %d>{})" % (m, k), "unsigned long" + lst(["ul%d" % k] * m))


ELEMS = ["int", "short", "bool", "double", "std::string", "std::unique_ptr<int>", "Tok", "int&", "const std::string&", "const int"]


def g_tuple(r, o, helpers, uid):
    pair = r.random() < .2
    n = 2 if pair else r.choice([0, 1, 2, 3, 4, 5, 7, 10])
    ok = ELEMS if r.random() < .5 else ELEMS[:7]
    ts = [r.choice(ok) for _ in range(n)]
    ix = idx(r, n, 6)
    b = r.randrange(n + 1)
    e = r.randrange(b, n + 1)
    o.append("  tuple_group<%s<%s>, %d, %d>(%s{});" % ("std::pair" if pair else "std::tuple", ", ".join(ts), b, e, iseq(ix)))


def g_aggregate(r, o, helpers, uid):
    n = r.choice([1, 2, 3, 31, 32] + list(range(33)))
    ts = [r.choice(["int", "double", "std::string", "Tok", "std::unique_ptr<int>", "short"]) for _ in range(n)]
    helpers.append("struct Agg%d { %s };" % (uid, " ".join("%s f%d;" % (t, i) for i, t in enumerate(ts))))
    o.append("  vh::Rng r(vh::seed() + %d); for (int rep = 0; rep < 8; rep++) {" % uid)
    o.append("  Agg%d a{%s};" % (uid, ", ".join("Make<%s>::get(r)" % t for t in ts)))
    o.append("  const Agg%d& ca = a; (void)ca;" % uid)
    o.append('  check("aggregate_arity", std::to_string(mpt::aggregate_arity_v<Agg%d>) + std::to_string(mpt::aggregate_arity_v<const Agg%d&>), "%d%d");' % (uid, uid, n, n))
    for v, cq in (("a", "&"), ("ca", "const&")):
        want = ", ".join('seen{%s, addr(a.f%d), one(a.f%d)}' % (q(cq), i, i) for i in range(n))
        o.append("  { std::vector<seen> want{%s}, got, tr;" % want)
        o.append("    auto t = mpt::as_tuple(%s); mpt::for_each(mpt::as_tuple(%s), see{&got}); check(\"aggregate as_tuple %s\", str(got, true), str(want, true));" % (v, v, v))
        o.append("    check(\"aggregate size\", std::to_string(std::tuple_size_v<decltype(t)>), %s);" % q(str(n)))
        for i in r.sample(range(n), min(n, 3)):
            o.append("    check(\"aggregate at\", ptr(addr(mpt::at<%d>(t))), ptr(&a.f%d));" % (i, i))
        o.append("  }")
    o.append("  }")


def g_prep(r, o, helpers, uid):
    c = lambda op, got, want: o.append("  check(%s, %s, %s);" % (q("preprocessor " + op), got, q(want)))
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 200, 255, 256]) if r.random() < .6 else r.randrange(257)
    words = [r.choice(["a", "b", "foo", "x%d" % r.randrange(100), "(p, q)", "1", "z()", "-7", "int", "(,)", "\\\"s, t\\\""][:10]) for _ in range(n)]
    # #x of an argument.
    helpers.append("#define EACH_%d(...) S_(#__VA_ARGS__)" % uid)
    helpers.append("#define SEP_%d() ," % uid)
    helpers.append("#define PLUS_%d() +" % uid)
    helpers.append("#define ONE_%d(...) 1" % uid)
    helpers.append("#define NUM_%d(i, ...) i" % uid)
    args = ", ".join(words)
    c("foreach %d" % (n > 0), "join({ARPC_FOREACH(EACH_%d, SEP_%d%s)})" % (uid, uid, "".join(", " + w for w in words) if n else ", "), lst(words))
    c("foreach separators", "std::to_string(0 %sARPC_FOREACH(ONE_%d, PLUS_%d, %s))" % ("+ " if n else "", uid, uid, args), str(n))
    c("arg_count", "std::to_string(ARPC_ARG_COUNT(%s))" % args, str(n))
    c("has_comma", "std::to_string(ARPC_HAS_COMMA(%s))" % args, str(int(n > 1)))
    c("is_empty", "std::to_string(ARPC_IS_EMPTY(%s))" % args, str(int(n == 0)))
    m = r.randrange(257)
    c("for", "seq_int({ARPC_FOR(%d, NUM_%d, SEP_%d)})" % (m, uid, uid), lst([str(i) for i in range(m, 0, -1)]))
    for cond in (0, 1, "x", "2"):
        t = cond != 0
        w = ["w%d" % i for i in range(r.randrange(4))]
        k = r.randrange(100)
        c("if", "join({ARPC_IF(%s)(S_(\"t\"), S_(\"u\"))})" % cond, lst(["t", "u"] if t else []))
        c("if_else", "join({ARPC_IF_ELSE(%s)(S_(\"yes\"), S_(\"%d\"))(S_(\"no\"))})" % (cond, k), lst(["yes", str(k)] if t else ["no"]))
        c("bool", "std::to_string(ARPC_BOOL(%s)) + std::to_string(ARPC_NOT(%s))" % (cond, cond), "%d%d" % (t, not t))
    c("stringize", "S_(ARPC_STRINGIZE(word%d))" % uid, "word%d" % uid)
    c("concat", "S_(ARPC_STRINGIZE(pre)) + std::to_string(ARPC_CONCAT(%d, %d))" % (r.randrange(1, 100), 55), None or "")
    o.pop()
    a, b = r.randrange(1, 99), r.randrange(10, 99)
    c("concat", "std::to_string(ARPC_CONCAT(%d, %d))" % (a, b), "%d%d" % (a, b))
    c("no_parens", "join({ARPC_NO_PARENS(EACH_%d, (a, b%d))})" % (uid, uid), lst(["a, b%d" % uid]))
    # Nested iteration through deferral.
    k = r.randrange(1, 6)
    helpers.append("#define INNER_%d(j, ...) j" % uid)
    helpers.append("#define OUTER_%d(i, ...) ARPC_DEFER_2(ARPC_FOR_AGAIN)()(i, INNER_%d, SEP_%d)" % (uid, uid, uid))
    c("nested for", "seq_int({ARPC_EXPAND(ARPC_FOR(%d, OUTER_%d, SEP_%d))})" % (k, uid, uid), lst([str(j) for i in range(k, 0, -1) for j in range(i, 0, -1)]))


def g_enum(r, o, helpers, uid, glob):
    n = r.choice([1, 2, 3, 7, 20, 60])
    base, hi = r.choice([("unsigned char", 255), ("int", 10**6), ("short", 30000), ("unsigned long", 2**40), ("signed char", 127)])
    vals = r.sample(range(0, min(hi, 10000)), n) if hi > n else list(range(n))
    if base in ("int", "short", "signed char") and n > 1:
        vals[0] = -5
    if hi > 2**31:
        vals[-1] = hi - 3
    names = ["m%d_%s" % (i, r.choice(["a", "Bee", "c_d"])) for i in range(n)]
    glob.append("ARPC_ENUM(En%d, %s, \"unknown %d\", %s);" % (uid, base, uid, ", ".join("(%s, %d)" % nv for nv in zip(names, vals))))
    c = lambda op, got, want: o.append("  check(%s, %s, %s);" % (q(op), got, q(want)))
    for nm, v in zip(names, vals):
        c("enum value", "std::to_string(static_cast<%s>(En%d::%s))" % (base, uid, nm), str(v))
        c("enum name", "S_(arpc::enum_names<En%d>::name(En%d::%s)) + arpc::enum_names<En%d>::name(static_cast<En%d>(%d))" % (uid, uid, nm, uid, uid, v), nm * 2)
    for _ in range(8):
        v = r.choice(vals) + r.choice([-1, 1, 2]) if r.random() < .7 else r.randrange(127)
        if v not in vals and (v >= 0 or base in ("int", "short", "signed char")) and v <= hi:
            c("enum unknown", "S_(arpc::enum_names<En%d>::name(static_cast<En%d>(%d)))" % (uid, uid, v), "unknown %d" % uid)


def g_fields(r, o, helpers, uid):
    n = r.choice([0, 1, 2, 3, 5, 9, 20, 40])
    names = r.sample(["f%d" % i for i in range(60)] + ["alpha", "x", "X", "value_", "_v", "class_name"], n)
    ts = [r.choice(["int", "double", "std::string", "std::vector<int>"]) for _ in range(n)]
    extra = r.randrange(3)
    decl = ["%s %s{};" % x for x in zip(ts, names)] + ["int hidden%d{};" % i for i in range(extra)]
    r.shuffle(decl)
    helpers.append("struct Fld%d : arpc::serializable<Fld%d> { %s\n ARPC_OWN_TYPE(Fld%d); ARPC_FIELDS(%s); };" % (uid, uid, " ".join(decl), uid, ", ".join(names)))
    c = lambda op, got, want: o.append("  check(%s, %s, %s);" % (q(op), got, q(want)))
    c("field names", "names_of<Fld%d>()" % uid, lst(names))
    c("field count", "std::to_string(mpt::size_v<Fld%d::field_descriptors>)" % uid, str(n))
    for i, nm in enumerate(names):
        o.append("  check(\"field descriptor\", std::to_string(std::is_same_v<decltype(mpt::at<%d>(Fld%d::field_descriptors{})), mpt::wrap_type<arpc::field_descriptor<&Fld%d::%s>>>) + "
                 "arpc::field_descriptor<&Fld%d::%s>::name(), \"1%s\");" % (i, uid, uid, nm, uid, nm, nm))


HEAD = """#define VH_NO_MAIN
#include "mpt_tuple.h"
#define S_(x) std::string(x)
%s
namespace show {
namespace {
inline std::string seq_int(std::initializer_list<int> l) { std::vector<std::string> r; for (int x : l) r.push_back(std::to_string(x)); return join(r); }
template <typename T> std::string names_of() { std::vector<std::string> r; for (auto* s : T::field_names()) r.push_back(s); return join(r); }
"""


def emit(d, seed, nfiles=7, per=6):
    os.makedirs(d, exist_ok=True)
    r = random.Random(seed * 7919 + 3)
    kinds = [g_pack, g_value_pack, g_int_seq, g_tuple, g_aggregate, g_prep, g_fields, "enum"]
    out = []
    uid = 0
    for k in range(nfiles):
        helpers, glob, body, names = [], [], [], []
        for rep in range(per):
            for g in kinds:
                uid += 1
                o = []
                if g == "enum":
                    g_enum(r, o, helpers, uid, glob)
                else:
                    g(r, o, helpers, uid)
                body.append("void group_%d() {\n%s\n}" % (uid, "\n".join(o)))
                names.append(uid)
        p = os.path.join(d, "mpt%d.cpp" % k)
        with open(p, "w") as f:
            f.write(HEAD % "\n".join(glob))
            f.write("\n".join(helpers) + "\n" + "\n".join(body) + "\nstruct Reg { Reg() { %s } } reg;\n}\n}\n" % " ".join("add_group(group_%d);" % u for u in names))
        out.append(p)
    return out


if __name__ == "__main__":
    import sys
    print(emit(sys.argv[1], int(sys.argv[2])))
