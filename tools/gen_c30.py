"""Formulas for C30: a header with generic functions, each applied both to expressions and to plain numbers.
usage: gen_c30.py OUTDIR SEED TIER PART"""
import pathlib, random, sys
out, seed, tier, part = pathlib.Path(sys.argv[1]), int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
rnd = random.Random("%d-%d" % (seed, part))
# leaves: name -> (type, expression?)
VARS = {"a": "d", "b": "d", "f": "f", "i": "i", "j": "i", "h": "h", "u": "h"}   # views; h: narrower than int
SC = {"s": "d", "g": "f", "k": "i", "m": "h"}                                  # scalars
ARITH = ["+", "-", "*", "/"]; CMP = ["==", "!=", "<", "<=", ">", ">="]; LOG = ["&&", "||"]
M1 = ["sqrt", "exp", "log", "sin", "cos"]; M2 = ["pow", "max", "min"]   # in the harness: fm::sqrt_ and so on
# A node is (text, is_expression, integral?, is_predicate)
def leaf(expr=None):
    if expr is None: expr = rnd.random() < 0.7
    n = rnd.choice(list(VARS if expr else SC)); t = (VARS if expr else SC)[n]
    return (n, expr, t in "ih", False)
def mk(op, l, r):
    if op == "/" and l[2] and r[2]:      # whole numbers: a divisor that is never zero
        r = ("p", True, True, False) if (rnd.random() < 0.6 or not l[1]) else ("q", False, True, False)
    return ("(%s %s %s)" % (l[0], op, r[0]), l[1] or r[1], l[2] and r[2], False)
def num(d, expr=None):
    if d == 0: return leaf(expr)
    x = rnd.random()
    if x < 0.45:
        while True:
            l, r = num(d - 1 if rnd.random() < 0.8 else 0), num(d - 1 if rnd.random() < 0.6 else 0)
            if l[1] or r[1]: return mk(rnd.choice(ARITH), l, r)
    if x < 0.55:
        n = num(d - 1, True); return ("(-%s)" % n[0], True, n[2], False)
    if x < 0.65:
        n = num(d - 1, True); return ("%s(%s)" % (rnd.choice(M1), n[0]), True, False, False)
    if x < 0.80:
        while True:
            l, r = num(d - 1), num(d - 1 if rnd.random() < 0.5 else 0)
            if l[1] or r[1]: break
        f = rnd.choice(M2); return ("%s(%s, %s)" % (f, l[0], r[0]), True, f != "pow" and l[2] and r[2], False)
    while True:
        x = rnd.random()     # a comparison, or a number of any kind used as a condition
        c = pred(d - 1) if x < 0.7 else num(rnd.choice([0, 0, max(0, d - 2)]), True) if x < 0.8 else leaf(False) if x < 0.92 else ("t", False, True, True)
        l, r = num(d - 1), num(d - 1 if rnd.random() < 0.6 else 0)
        if rnd.random() < 0.15 and r[1]: return ("%s(%s, %s, %s)" % (rnd.choice(["gdiv", "ndiv"]), rnd.choice("hu"), rnd.choice("hum"), r[0]), True, r[2], False)
        if c[1] or l[1] or r[1]: return ("if_then_else(%s, %s, %s)" % (c[0], l[0], r[0]), True, l[2] and r[2], False)
def pred(d):
    if d > 0 and rnd.random() < 0.4:
        l = pred(d - 1); r = pred(d - 1) if rnd.random() < 0.85 else ("t", False, True, True)
        if rnd.random() < 0.5: l, r = r, l
        return ("(%s %s %s)" % (l[0], rnd.choice(LOG), r[0]), True, True, True)
    while True:
        l, r = num(max(0, d)), num(0 if rnd.random() < 0.6 else max(0, d - 1))
        if l[1] or r[1]: return ("(%s %s %s)" % (l[0], rnd.choice(CMP), r[0]), True, True, True)
flat = []
for op in ARITH + CMP:
    pairs = [("a", "b"), ("a", "s"), ("s", "b"), ("f", "a"), ("f", "k"), ("m", "f"), ("i", "p"), ("j", "q"), ("k", "p"), ("h", "p"), ("u", "q"), ("i", "g"), ("a", "a")]
    if op != "/": pairs += [("u", "h"), ("h", "m"), ("j", "i")]
    for l, r in rnd.sample(pairs, 7): flat.append(("(%s %s %s)" % (l, op, r), op in CMP))
for op in LOG:
    for l, r in [("(a > b)", "(i < j)"), ("(a == s)", "t"), ("t", "(f >= g)"), ("a", "j"), ("i", "(a < b)")]: flat.append(("(%s %s %s)" % (l, op, r), True))
for op in ARITH:
    if op != "/": flat.append(("((a < b) %s (i > j))" % op, False))
flat.append(("(-(a < b))", False))
for v in VARS: flat.append(("(-%s)" % v, False)); flat.append((v, False))
for f in M1:
    for v in ("a", "f", "i"): flat.append(("%s(%s)" % (f, v), False))
for f in M2:
    for l, r in [("a", "b"), ("a", "k"), ("s", "b"), ("f", "k"), ("f", "g"), ("i", "j"), ("k", "i"), ("i", "s"), ("h", "u")]: flat.append(("%s(%s, %s)" % (f, l, r), False))
for c in ("(a > b)", "t", "(i == j)", "s", "g", "k", "a", "f", "h", "(a - i)"):
    for l, r in [("a", "b"), ("a", "k"), ("s", "b"), ("i", "a"), ("i", "j"), ("h", "u")]: flat.append(("if_then_else(%s, %s, %s)" % (c, l, r), False))
flat.append(("if_then_else((a > b), s, k)", False)); flat.append(("if_then_else((a > b), h, f)", False))
for f in ("gdiv", "ndiv"):
    for d, n, e in [("u", "h", "k"), ("h", "u", "a"), ("u", "m", "h")]: flat.append(("%s(%s, %s, %s)" % (f, d, n, e), False))
rnd.shuffle(flat)
nested = []
want = 24 if tier == "quick" else 100
while len(nested) < want:
    d = rnd.choice([2, 2, 3, 3, 4]); p = rnd.random() < 0.25
    n = pred(d) if p else num(d, True)
    if not n[1] or len(n[0]) > 400: continue
    nested.append((n[0], p, rnd.choice([0, 1, 1, 2, 2, 3, 4, 5, 6] if rnd.random() < 0.7 else [1, 2, 3])))
import re
def code(x): return re.sub(r"\b(sqrt|exp|log|sin|cos|pow|max|min|if_then_else|gdiv|ndiv)\(", r"\1_(", x)
hdr = []
for n, (t, p) in enumerate(flat if part == 0 else []):
    hdr.append("FLAT(%d, (%s), %s)" % (n, code(t), '"%s"' % t))
hdr.append("static const int n_flat = %d;" % (len(flat) if part == 0 else 0))
for n, (t, p, r) in enumerate(nested):
    res = "same" if p or rnd.random() < 0.6 else rnd.choice(["double", "float"])
    hdr.append("NESTED(%d, %d, %s, (%s), %s)" % (n, r, res, code(t), '"%s"' % t))
hdr.append("static const int n_nested = %d;" % len(nested))
(out / "gen_c30.hpp").write_text("\n".join(hdr) + "\n")
