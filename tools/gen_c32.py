"""Type lists, type maps and array types for C32, with the answers worked out on Python lists.
usage: gen_c32.py OUTDIR SEED TIER PART"""
import pathlib, random, sys
out, seed, tier, part = pathlib.Path(sys.argv[1]), int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
rnd = random.Random("c32-%d-%d" % (seed, part))
OBJ = ["Tag<%d>" % k for k in range(8)] + ["char", "int", "unsigned", "long", "float", "double", "bool", "std::string", "std::vector<int>", "std::vector<Tag<1>>", "int*", "const int*", "Col", "std::tuple<int>"]
ANY = OBJ + ["const int", "volatile int", "int&", "const int&", "int&&", "int[3]", "void", "int(*)(double)", "int* const", "std::tuple<>", "double**[3]", "const Tag<2>"]
def b(x): return "true" if x else "false"
def tl(l): return "ekat::TypeList<%s>" % ",".join(l)
nlist, nmap, narr, nstd = (40, 24, 60, 30) if tier == "quick" else (120, 70, 160, 80)
F = []   # (group, description, expression giving bool or a number, expected number, non-trivial)
def fact(g, d, got, want, nt): F.append("FACT(%s, %s, (%s), %s, %s)" % (g, cstr(d), got, want, b(nt)))
def cstr(s): return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')
lists, defs = [], []
def some(pool, n, rep):
    if rep: p = rnd.sample(pool, min(len(pool), max(1, n // 2))); return [rnd.choice(p) for _ in range(n)]
    return rnd.sample(pool, min(n, len(pool)))
for k in range(nlist):
    n = rnd.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 14, 20]); pool = rnd.choice([OBJ, ANY]); l = some(pool, n, rnd.random() < 0.45); lists.append(l)
    if len(l) > 1 and rnd.random() < 0.3: l[-1] = l[rnd.randrange(len(l) - 1)]     # one repeated type, at the end
    n = len(l); L = "L%d" % k; defs.append("using %s = %s;" % (L, tl(l))); nt = n > 1
    fact("size", tl(l), "ekat::type_list_size<%s>::value" % L, n, nt)
    fact("unique", tl(l), "ekat::is_type_list_unique<%s>::value" % L, b(len(set(l)) == n), nt)
    for t in set(rnd.sample(ANY, 4) + rnd.sample(l, min(3, n)) + [l[0], l[-1]]):
        fact("first", "%s in %s" % (t, tl(l)), "ekat::FirstOf<%s,%s>::pos" % (t, L), l.index(t) if t in l else -1, nt)
    for i in set([0, n - 1, rnd.randrange(n)]):
        fact("get", "%d of %s" % (i, tl(l)), "std::is_same<ekat::type_list_get<%s,%d>,%s>::value" % (L, i, l[i]), "true", nt)
    for j in rnd.sample(range(k + 1), min(k + 1, 2)):
        fact("cat", "%s + %s" % (tl(l), tl(lists[j])), "std::is_same<ekat::type_list_cat<%s,L%d>,%s>::value" % (L, j, tl(l + lists[j])), "true", True)
        fact("cat", "%s + %s" % (tl(lists[j]), tl(l)), "std::is_same<ekat::CatTypeLists<L%d,%s>::type,%s>::value" % (j, L, tl(lists[j] + l)), "true", True)
    fact("cat", "%s + nothing" % tl(l), "std::is_same<ekat::type_list_cat<%s,ekat::TypeList<>>,%s>::value" % (L, tl(l)), "true", nt)
    fact("cat", "nothing + %s" % tl(l), "std::is_same<ekat::type_list_cat<ekat::TypeList<>,%s>,%s>::value" % (L, tl(l)), "true", nt)
    for c in ("Box", "AddConst", "Fixed"):
        if c == "Box" or rnd.random() < 0.5:
            f = {"Box": lambda t: "Box<%s>" % t, "AddConst": lambda t: "AddConst<%s>" % t, "Fixed": lambda t: "Fixed<%s>" % t}[c]
            got = rnd.choice(["typename ekat::ApplyTemplate<%s,%s>::type", "ekat::apply_template_t<%s,%s>"]) % (c, L)
            fact("apply", "%s to %s" % (c, tl(l)), "std::is_same<%s,%s>::value" % (got, tl([f(t) for t in l])), "true", nt)
# lists to iterate over
FOR = []
for k in range(nlist // 2):
    l = some(OBJ, rnd.choice([1, 2, 3, 4, 5, 7, 9, 12]), rnd.random() < 0.5); FOR.append("template<> struct For<%d> { using list=%s; static std::vector<int> ids () { return {%s}; } };" % (k, tl(l), ",".join("Id<%s>::v" % t for t in l)))
ids = ["template<> struct Id<%s> { static constexpr int v=%d; };" % (t, n) for n, t in enumerate(OBJ)]
# maps
KEYS = OBJ; VALS = ["int", "double", "std::string", "long", "Num", "bool", "char", "int", "double"]
MAPS = []
for k in range(nmap):
    n = rnd.choice([1, 2, 2, 3, 4, 5, 6, 8]); ks = rnd.sample(KEYS, n); vs = [rnd.choice(VALS) for _ in ks]
    if rnd.random() < 0.3: vs = [rnd.choice(VALS[:3])] * n
    MAPS.append("template<> struct Map<%d> { using keys=%s; using vals=%s; };" % (k, tl(ks), tl(vs))); M = "ekat::TypeMap<%s,%s>" % (tl(ks), tl(vs)); d = "{%s}" % ", ".join("%s: %s" % x for x in zip(ks, vs)); nt = n > 1
    fact("map_size", d, "%s::size" % M, n, nt)
    for t in set(rnd.sample(ANY, 3) + ks):
        fact("map_has_t", "%s in %s" % (t, d), "%s::has_t<%s>()" % (M, t), b(t in ks), nt)
        fact("map_at_t", "%s in %s" % (t, d), "std::is_same<%s::at_t<%s>,%s>::value" % (M, t, vs[ks.index(t)] if t in ks else M + "::NotFound"), "true", nt)
# array types
SC = ["int", "float", "double", "char", "Tag<3>", "const int", "const float", "const double", "const Tag<3>", "std::string", "std::vector<int>", "const std::vector<double>"]
for k in range(narr):
    s = rnd.choice(SC); dyn = rnd.randrange(6); st = [rnd.choice([1, 2, 3, 5, 16]) for _ in range(rnd.choice([0, 0, 1, 2, 3]))]
    t = s + "*" * dyn + "".join("[%d]" % x for x in st); nt = dyn + len(st) > 1
    fact("rank", t, "(int)ekat::GetRanks<%s>::rank" % t, dyn + len(st), nt)
    fact("rank_dynamic", t, "(int)ekat::GetRanks<%s>::rank_dynamic" % t, dyn, nt)
    fact("value_type", t, "std::is_same<ekat::ValueType<%s>::type,%s>::value" % (t, s), "true", nt)
    r = rnd.choice(["(&)", "(&&)"]) if st else rnd.choice(["&", "&&"])
    tr = s + "*" * dyn + (r + "".join("[%d]" % x for x in st))
    fact("value_type", tr, "std::is_same<ekat::ValueType<%s>::type,%s>::value" % (tr, s), "true", nt)
    fact("data_nd", "%s, %d" % (s, dyn), "std::is_same<ekat::DataND<%s,%d>::type,%s>::value" % (s, dyn, s + "*" * dyn), "true", dyn > 1)
    fact("pointers", s + "*" * dyn, "std::is_same<ekat::remove_all_pointers<%s>::type,%s>::value" % (s + "*" * dyn, s), "true", dyn > 1)
    for more in rnd.sample([1, 2, 3], 2):      # pointers to arrays
        tp = s + "*" * dyn + "(" + "*" * more + ")" + "".join("[%d]" % x for x in st)
        if st:
            fact("rank", tp, "(int)ekat::GetRanks<%s>::rank" % tp, dyn + len(st) + more, True)
            fact("rank_dynamic", tp, "(int)ekat::GetRanks<%s>::rank_dynamic" % tp, dyn + more, True)
    bare = s.replace("const ", "")
    fact("consts", s + "*" * dyn, "std::is_same<ekat::remove_all_consts<%s>::type,%s>::value" % (s + "*" * dyn, bare + "*" * dyn), "true", dyn > 0 and bare != s)
# single precision, vectors, same types, operators
for t in ANY + ["const float", "float*", "float&", "long double", "const double", "short", "std::vector<float>"]:
    fact("single", t, "(bool)ekat::is_single_precision<%s>::value" % t, b(t == "float"), "float" in t or t == "double")
for t in OBJ + ["std::vector<%s>" % s for s in ("int", "double", "std::string", "std::vector<float>")] + ["const int", "std::vector<int>*", "std::set<int>", "std::array<int,2>", "int[2]"]:
    fact("is_vector", t, "ekat::is_vector_v<%s>" % t, b(t.startswith("std::vector<") and t.endswith(">")), "std::" in t)
for k in range(nstd):
    n = rnd.choice([1, 2, 3, 4, 6]); t = rnd.choice(ANY); l = [t] * n
    if n > 1 and rnd.random() < 0.6: l[rnd.randrange(n)] = rnd.choice([x for x in ANY if x != t])
    fact("same_type", tl(l), "ekat::SameType<%s>::value" % ",".join(l), b(len(set(l)) == 1), n > 1)
    if len(set(l)) == 1: fact("same_type", tl(l), "std::is_same<typename ekat::SameType<%s>::type,%s>::value" % (",".join(l), l[0]), "true", n > 1)
# what can be compared and printed: classes written for each answer
for eq in (0, 1, 2):           # no ==, a member ==, a free ==
    for c in (0, 1):           # a const-correct one or not
        for st in (0, 1):
            n = "Ops<%d,%d,%d>" % (eq, c, st)
            fact("equal_exists", n, "ekat::EqualExists<%s,%s>::value" % (n, n), b(eq), True)
            fact("equal_exists", "const " + n, "ekat::EqualExists<const %s&,const %s&>::value" % (n, n), b(eq and c), True)
            fact("stream_exists", n, "ekat::StreamExists<%s>::value" % n, b(st), True)
for a, c, w in [("int", "int", 1), ("int", "double", 1), ("int", "std::string", 0), ("std::string", "const char*", 1), ("std::string", "std::vector<int>", 0), ("std::vector<int>", "std::vector<int>", 1), ("Tag<1>", "Tag<1>", 0), ("int*", "int*", 1), ("int*", "double*", 0), ("Tag<1>", "int", 0), ("Col", "Col", 1), ("Col", "int", 0)]:
    fact("equal_exists", "%s == %s" % (a, c), "ekat::EqualExists<%s,%s>::value" % (a, c), b(w), True)
for a, w in [("int", 1), ("double", 1), ("std::string", 1), ("std::set<int>", 0), ("Tag<1>", 0), ("int*", 1), ("Col", 0), ("std::tuple<int>", 0), ("bool", 1), ("std::map<int,int>", 0)]:
    fact("stream_exists", a, "ekat::StreamExists<%s>::value" % a, b(w), True)
(out / "gen_c32.hpp").write_text("\n".join(ids + defs + FOR + MAPS + ["#define N_FOR %d" % len(FOR), "#define N_MAP %d" % len(MAPS)]) + "\n")
(out / "facts_c32.hpp").write_text("\n".join(F) + "\n")
