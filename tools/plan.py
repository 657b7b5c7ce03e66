"""Which explorations decide which property, per tier."""
from itertools import permutations, product

import suites as S


class Run:
    def __init__(self, exe, what, lines=None, args=(), weight=1.0, env=None):
        self.exe, self.what, self.lines = exe, what, lines
        self.args = [str(a) for a in args]
        self.weight, self.env = weight, env or {}


def hist(what, lines, mode="", iscan=0, cap=15, bgworkers=1, weight=1.0, env=None):
    a = ["--iscan", iscan, "--cap", cap, "--bgworkers", bgworkers]
    if mode:
        a += ["--mode", mode]
    return Run("hist", what, lines, a, weight, env)


def ilv(what, lines, bound=1, mode="", iscan=0, cap=15, bgworkers=1, weight=1.0, env=None):
    a = ["--bound", bound, "--iscan", iscan, "--cap", cap, "--bgworkers", bgworkers]
    if mode:
        a += ["--mode", mode]
    return Run("ilv", what + f" (schedules, at most {bound} deviations)", lines, a, weight, env)


def seq(what, lines, iscan=0, cap=15, weight=1.0, env=None, mode=""):
    return Run("seq", what + " (call sequences)", lines, ["--iscan", iscan, "--cap", cap] + (["--mode", mode] if mode else []), weight, env)


def thr(what, lines, bound=1, iscan=0, cap=15, bgworkers=1, weight=1.0, env=None, mode=""):
    return Run("thr", what + f" (schedules, at most {bound} deviations)", lines,
               ["--bound", bound, "--iscan", iscan, "--cap", cap, "--bgworkers", bgworkers] + (["--mode", mode] if mode else []), weight, env)


def life(what, lines, weight=1.0, env=None):
    return Run("life", what + " (action sequences)", lines, (), weight, env)


K3 = ("gAa", "gAb", "sA", "iAb", "dAa", "pAa")
def two_writes(rs, init="Aa Ab Ac ~Ad"):
    """the same with one range read and two or three keys written"""
    return [f":: {init} Ba || L:A gBa {w} | L:B {r} &pBa" for r in rs
            for w in [f"&pA{a} &{o}A{b}" for a, b in permutations("abcd", 2) for o in "pd"] + ["&pAb &pAa &pAc", "&pAc &dAa &pAb", "&pAb &pAc &pAa"]]


def cancelled(rs, init="Aa Ab"):
    """the same where the writer also inserts a key and deletes it again"""
    return [f":: {init} Ba || L:A gBa {' '.join(w)} | L:B {r} &pBa" for r in rs for o in ("pAa", "dAb", "iAc")
            for c in (("&iAd", "&dAd"), ("&pAd", "&dAd"), ("&iA0", "&dA0")) for w in (("&" + o, *c), (c[0], "&" + o, c[1]), (*c, "&" + o))]


RNG = ("sA[a,b]", "sA(a,c]", "sA[b,)", "sA")
PH = ("gAb", "sA", "iAb", "uAb", "dAb", "pAb", "dAa")


def c01(tier):
    r = [
        hist("three short transactions, one read and one write each", lambda: S.rw("SSS", S.RD, S.WR, "Aa Ba")),
        hist("two short transactions, three operations each, over a deleted key",
             lambda: S.perms("SS", S.KEY[:5] + ("pBa",), 3, "~Aa Ba")),
        hist("two short transactions with epoch boundaries", lambda: S.rw("SS", S.RD, S.WR, "Aa Ba", "E2")),
        hist("two short transactions, two operations, epoch boundary and background work",
             lambda: S.perms("SS", S.KEY if tier == "thorough" else S.KEY[:5], 2, "~Ab Aa Ba", "E1 G1")),
        ilv("two short transactions, one read and one write each", lambda: S.rw("SS", S.RD, S.WR, "Aa Ba")),
        ilv("commits of two short transactions", lambda: S.rw("SS", S.RD if tier == "thorough" else ("gAa", "sA", "gBa"), S.WR if tier == "thorough" else ("pAa", "iAb", "dAa", "pBa"), "Aa Ba", "H0101"), 2),
        ilv("commits of three short transactions", lambda: S.rw("SSS", ("gAa", "sA"), ("pAa", "iAb", "dAa"), "Aa", "H012012")),
    ]
    if tier == "thorough":
        r += [
            hist("two short transactions, three operations each", lambda: S.perms("SS", S.KEY, 3, "Aa Ba"), weight=2),
            hist("two short transactions, three operations each, empty table", lambda: S.perms("SS", S.KEY, 3, "Ba"), weight=2),
            hist("three short transactions, iterator scans", lambda: S.rw("SSS", S.RD, S.WR, "Aa Ba"), iscan=1),
            hist("three short transactions, reclamation", lambda: S.rw("SSS", ("gAa", "sA", "gBa"), ("pAa", "dAa", "pBa"), "~Ab Aa Ba", "E1 G1"), weight=3),
        ]
    return r


BYP = {"SHIRAKAMI_ENABLE_WAITING_BYPASS": "1"}


def four_long(xs, ys):
    """A reader waiting for a second writer, while a later writer passes the first one."""
    return [f"P012301 :: Aa Ba Ca || L:A pAa | L:C{ra} pCa | L{':B' if x[0] in 'idu' else ''} gCa {x} gAa | L:B gAa {y}"
            for x in xs for y in ys for ra in (("", "+C") if x in ("gBa", "sB") else ("",))]


def four_readers():
    return [f"P012301 :: Aa Ba Ca || L:A pAa | L:C pCa | L {' '.join(o)} | L:B {r} {w}"
            for b in ("gBa", "sB") for o in permutations(("gAa", b, "gCa")) for r in ("gAa", "gCa", "sA", "sC") for w in ("pBa", "iBb")]


def four_rings():
    """Each of four long transactions reads the table of another one and writes its own."""
    t = "ABCD"
    return ["P01230123 :: Aa Ba Ca Da || " + " | ".join(f"L:{t[i]} {'s' + t[n[i]] if i == 2 else 'g' + t[n[i]] + 'a'} p{t[i]}a" for i in range(4))
            for n in product(range(4), repeat=4) if all(n[i] != i for i in range(4))]


def two_ranges(rs, keys="abcd", init="Aa Ab Ac Ad"):
    """a long transaction reading two ranges of the table a higher priority one writes to"""
    return [f":: {init} Ba || L:A gBa &pA{k} | L:B {r} &{q} &pBa" for r in rs for q in rs if r != q for k in keys]


RNG = ("gAa", "gAc", "sA[a,b)", "sA[b,c]", "sA(a,b]", "sA(b,d)", "sA[c,)", "sA[,b)", "sA(c,d]", "sA(,a]", "sA(d,)", "gAe", "sA[b,c)", "sA(a,c)", "sA[a,c)", "sA(b,d]")


BYP4 = ["P01230122 G1 :: Aa Ba || L:A pAa | L gBa gAa | L:B gAa pBa | L gBa", "P01230122 G1 :: Aa Ba || L:A pAa | L sB gAa | L:B gAa pBa | L sB",
        "P01230122 G1 :: Aa Ba || L:A pAa | L gBb gAa | L:B gAa iBb | L gBb", "P01230122 G1 :: Aa Ba || L:A pAa | L gBa gAa | L:B gAa dBa | L gBa",
        "P01230122 G1 :: Aa Ba Ca || L:A pAa | L:C gBa gAa pCa | L:B gAa pBa | L gBa gCa"]


def bypassed(pre, mids):
    return [f"P{pre} :: Aa Ba Ca Da || L:AB pAb pBa | L:C pCa | L:D {m} | L {o}"
            for m in mids for o in ("gAa gDa gBa", "gDa gAa gBa", "sA gDa gBa", "gDa gBa")]


def c02(tier):
    r = [
        hist("two long and a short transaction", lambda: S.rw("LLS", ("gAa", "sA", "gBa"), ("pAa", "iAb", "dAa", "pBa"), "Aa Ba")),
        hist("two long and a short transaction, started in one epoch where possible",
             lambda: S.rw("LLS", ("gAa", "sA"), ("pAa", "iAb", "dAa"), "Aa", "J")),
        hist("a long and two short transactions", lambda: S.rw("LSS", ("gAa", "sA", "gBa"), ("pAa", "iAb", "dAa", "pBa"), "Aa Ba")),
        hist("two long and a read-only transaction", lambda: S.rw("LLR", ("gAa", "sA", "gBa"), ("pAa", "iAb", "dAa", "pBa"), "Aa Ba")),
        hist("three long transactions", lambda: S.rw("LLL", ("gAa", "sA", "gBa"), ("pAa", "dAa", "pBa"), "Aa Ba")),
        hist("two long and a read-only transaction, epochs", lambda: S.product([["L:A pAa"], ["L:B gAa &pBa", "L:B sA &dBa"], ["R gBa gAa", "R sA sB"]], "Aa Ba", "E1")),
        ilv("a long commit against a short transaction", lambda: S.rw("LS", ("gAa", "sA", "gBa"), ("pAa", "iAb", "dAa", "pBa"), "Aa Ba", "H00")),
        ilv("commits of two long transactions", lambda: S.rw("LL", ("gAa", "gBa"), ("pAa", "iAb", "pBa"), "Aa Ba", "H0101")),
        ilv("a long transaction starting beside a short one", lambda: S.rw("LS", ("gAa", "gBa"), ("pAa", "pBa"), "Aa Ba", "e1")),
        hist("three long transactions, waiting bypass", lambda: S.rw("LLL", ("gAa", "gBa"), ("pAa", "dAa", "pBa"), "Aa Ba"), env=BYP),
        hist("three long transactions, waiting bypass to the root (known finding)", lambda: [":: Aa Ba Ca || L:A gAa &pAa | L:B gAa &pBa | L:A gBa &pAa"],
             env=dict(BYP, SHIRAKAMI_WAITING_BYPASS_TO_ROOT="1")),
        hist("four long transactions, a reader waiting while a writer passes", lambda: four_long(("gBa", "gBb", "sB", "sB[b,)", "iBb", "dBa", "uBa"), ("pBa", "dBa", "iBb", "pBb", "uBa"))
             + four_long(("gBb", "sB[b,)", "sB[a,b)"), ("&pBa &pBb", "&pBb &pBa", "&dBa &pBc"))),
        hist("two ranges read beside a higher priority writer", lambda: two_ranges(RNG) + two_writes(RNG) + cancelled(("gAa", "gAb") + RNG)),
        hist("four long transactions, waiting bypass", lambda: bypassed("01230012", ("sA gCa pDa", "gAb gCa pDa", "sA[a,b] gCa pDa")) + BYP4, env=BYP),
    ]
    if tier == "thorough":
        r += [
            hist("long and short, three operations each", lambda: S.perms("LS", S.KEY, 3, "~Aa Ba"), weight=3),
            hist("two long, three operations each", lambda: S.perms("LL", S.KEY, 3, "Aa Ba"), weight=3),
            hist("long and short with epochs and background work", lambda: S.perms("LS", K3, 2, "Aa Ab", "E1 G1"), weight=2),
            hist("two long and a short transaction, full alphabet", lambda: S.rw("LLS", S.RD, S.WR, "Aa Ba", "J"), weight=3),
            hist("a long, a short and a read-only transaction, background work", lambda: S.rw("LSR", S.RD, S.WR, "Aa Ba", "G1"), weight=3),
            hist("four long transactions, readers in any order", four_readers, weight=2),
            hist("four long transactions in rings", four_rings, weight=2),
            hist("four long transactions in rings, waiting bypass", four_rings, weight=2, env=BYP),
            hist("four long transactions, waiting bypass, more orders", lambda: bypassed("0123001", [" ".join(m) for m in permutations(("sA", "gCa", "pDa"))]), weight=2, env=BYP),
        ]
    return r


def c03(tier):
    r = [
        hist("two short transactions over an absent key", lambda: S.perms("SS", PH, 2, "Aa Ac")),
        hist("two short transactions over an absent key, three operations", lambda: S.perms("SS", ("gAb", "sA", "iAb", "dAb", "pAb"), 3, "Aa")),
        hist("two short transactions, deleted key, epochs and reclamation", lambda: S.perms("SS", ("gAb", "sA", "iAb", "dAa", "pAb"), 2, "~Ab Aa", "E1 G1")),
        hist("long and short over an absent key", lambda: S.perms("LS", PH, 2, "Aa Ac")),
        hist("two long over ranges", lambda: S.perms("LL", RNG + ("gAb", "iAb", "dAa", "pAc"), 2, "Aa Ac", "J")),
        hist("two short over ranges, iterator scans, small index nodes", lambda: S.perms("SS", RNG + ("gAb", "iAb", "dAa", "pAc"), 2, "Aa Ac Ad"), iscan=1, cap=2),
        hist("two short over ranges, small index nodes", lambda: S.perms("SS", RNG + ("gAb", "iAb", "dAa", "pAc"), 2, "Aa Ac Ad"), cap=2),
        hist("scans stepped while others write", lambda: stepped(""), "dirty"),
        hist("scans stepped while others write, iterator scans", lambda: stepped("E1"), "dirty", iscan=1, cap=2),
        hist("entries around deleted ones, small index nodes", lambda: around_deleted(), cap=2),
        hist("entries around deleted ones, small index nodes, iterator scans", lambda: around_deleted(), iscan=1, cap=2),
        hist("empty table", lambda: S.perms("SS", ("gAb", "sA", "iAb", "dAb", "pAb"), 2, "")),
        hist("two ranges read beside a higher priority writer", lambda: two_ranges(RNG, "be", "Aa ~Ab Ac Ad") + two_ranges(RNG, "bc", "Aa ~Ab ~Ac Ad") + cancelled(("gAc",) + RNG[1:])),
        hist("four long transactions over ranges", lambda: four_long(("gBb", "sB", "sB[b,)", "sB[a,b]"), ("dBa", "iBb"))),
        ilv("two short transactions over an absent key", lambda: S.rw("SS", ("gAb", "sA", "uAb", "dAb"), ("iAb", "pAb", "dAa"), "Aa")),
        ilv("commits of two short transactions over a deleted key", lambda: S.rw("SS", ("gAb", "sA", "uAb"), ("iAb", "pAb", "dAa"), "~Ab Aa", "H0101"), 2),
        ilv("an observer against removal of a deleted key", lambda: S.rw("SS", ("gAb", "sA"), ("iAb", "pAa"), "~Ab Aa", "H01 o1")),
        ilv("long and short over an absent key", lambda: S.rw("LS", ("gAb", "sA"), ("iAb", "pAb", "dAa"), "Aa", "H00")),
    ]
    if tier == "thorough":
        r += [
            hist("two long over ranges, three operations", lambda: S.perms("LL", ("sA[a,b]", "sA(a,c]", "gAb", "iAb", "dAa", "pAc"), 3, "Aa Ac"), weight=4),
            hist("three short, one scan and one write each", lambda: S.rw("SSS", RNG, ("iAb", "dAa", "pAc"), "Aa Ac"), weight=2),
            hist("three short, one scan and one write each, iterator scans", lambda: S.rw("SSS", RNG, ("iAb", "dAa", "pAc"), "Aa Ac", ), iscan=1, cap=2, weight=2),
            hist("two long and a short over ranges", lambda: S.rw("LLS", RNG, ("iAb", "dAa", "pAc"), "Aa Ac"), weight=4),
        ]
    return r


def around_deleted():
    for init in ("~Ab Ac Ad", "~Ab ~Ac Ad", "Ab ~Ac ~Ad", "~Ab Ac ~Ad", "~Ab ~Ac ~Ad", "Ab ~Ac Ad"):
        yield from S.product([["S sA pBa", "S sA[b,d] pBa", "S oA n n n pBa", "L:B sA pBa"],
                              ["S iAa gBa", "S iAe gBa", "S pAc gBa", "S dAd gBa", "L:A iAa gBa"]], init)


W2 = ["S pAa pBa", "S dAa dBa", "S iAb pBa", "S uAa pAa pBa", "S pAb dAa"]
R2 = ["S gAa gBa", "S gBa gAa", "S sA sB", "R gAa gBa", "R sA"]


def c04(tier):
    m = "dirty,lone"
    r = [
        hist("long and short, one giving up", lambda: S.aborting(S.perms("LS", S.KEY, 2, "~Aa Ba")), m),
        hist("two short, one giving up", lambda: S.aborting(S.perms("SS", ("gAa", "iAa", "dAa", "pAa", "pBa"), 3, "~Aa Ba")), m),
        hist("two long and a short, one giving up", lambda: S.aborting(S.rw("LLS", ("gAa", "sA"), ("pAa", "iAb", "dAa"), "Aa")), m),
        hist("long, short and read-only, one giving up", lambda: S.aborting(S.rw("LSR", ("gAa", "sA"), ("pAa", "iAb", "dAa"), "Aa Ba")), m),
        ilv("a two-key writer against a reader", lambda: S.product([W2, R2], "Aa Ba"), 1, "dirty"),
        ilv("the commit of a two-key writer against a reader", lambda: S.product([W2, R2], "Aa Ba", "H00"), 2, "dirty"),
        ilv("a two-key writer giving up against a reader", lambda: S.product([[w + " x" for w in W2], R2], "Aa Ba"), 1, "dirty"),
        ilv("a long writer's commit against readers", lambda: S.product([["L:AB pAa pBa", "L:AB dAa pBa", "L:AB iAb pBa"], R2 + ["L gAa gBa"]], "Aa Ba", "H000"), 1, "dirty"),
    ]
    if tier == "thorough":
        r += [
            hist("three short, one giving up", lambda: S.aborting(S.rw("SSS", S.RD, S.WR, "Aa Ba")), m, weight=2),
            hist("two long and a short, one giving up, full alphabet", lambda: S.aborting(S.rw("LLS", S.RD, S.WR, "Aa Ba")), m, weight=4),
            hist("two long, one giving up", lambda: S.aborting(S.perms("LL", S.KEY, 2, "~Aa Ba", "G1")), m, weight=2),
        ]
    return r


def c05(tier):
    m = "rtx"
    rt = ("sA sA", "gAa sA gAa", "gAb sA gAb", "sB gAa sB", "iAa gAa pBa dAa uAa gAa", "eAa sA eAb")
    r = [
        hist("a short and a read-only transaction", lambda: S.perms("SR", K3, 2, "Aa Ba", tail=rt), m),
        hist("a short and a read-only transaction, epochs and reclamation", lambda: S.rw("SR", ("gAa", "sA"), ("pAa", "iAb", "dAa"), "Aa Ba", "E1 G2", tail=rt[:2]), m),
        hist("two short and a read-only transaction", lambda: S.rw("SSR", ("gAa", "gBa"), ("pAa", "dAa", "iAb", "pBa"), "Aa Ba", tail=("sA sB",)), m),
        hist("a short and a read-only transaction, epochs", lambda: S.rw("SR", ("gAa", "gBa"), ("pAa", "dAa", "iAb", "pBa"), "Aa Ba", "E3", tail=("sA sB",)), m),
        hist("long, short and read-only", lambda: S.rw("LSR", ("gAa", "sA"), ("pAa", "iAb", "dAa"), "Aa", tail=("sA gAa",)), m),
        hist("two long and a read-only transaction", lambda: S.rw("LLR", ("gAa", "gBa"), ("pAa", "dAa", "pBa"), "Aa Ba"), m),
        hist("two long and a read-only transaction, epochs", lambda: S.product([["L:A pAa", "L:A dAa"], ["L:B gAa &pBa", "L:B sA &dBa"], ["R gBa gBa", "R sB gAa"]] if tier == "quick" else [["L:A pAa", "L:A gBa &pAa", "L:A dAa"], ["L:B gAa &pBa", "L:B sA &dBa", "L:A gAa &iAb"], ["R gBa gAa gBa", "R sA sB sA"]], "Aa Ba", "E1"), m),
        hist("versions needed by a read-only transaction beside long ones", lambda: KEPT, m),
        hist("a key written twice, reclamation", lambda: TWICE, m),
        hist("short and read-only, iterator scans", lambda: S.perms("SR", K3, 2, "Aa Ba", tail=rt[:3]), m, iscan=1, cap=2),
        hist("scans of a read-only transaction stepped while others write", lambda: S.product([STEP[-1:], STEPW], "Aa ~Ab Ac", "E1 G1"), m),
        ilv("a short writer against a read-only transaction", lambda: S.product([W2, ["R gAa gBa gAa", "R sA sB sA", "R gAb sA gAb"]], "Aa Ba", "e1"), 1, m),
        ilv("a short writer against a read-only transaction, old versions reclaimed", lambda: S.product([W2[:3], ["R gAa gBa gAa", "R sA sA"]], "Aa Ba", "H1 o1"), 1, m),
        ilv("a long writer's commit against a read-only transaction", lambda: S.product([["L:AB pAa pBa", "L:AB dAa iAb"], ["R gAa gBa gAa", "R sA sB sA"]], "Aa Ba", "H000 e1"), 1, m),
    ]
    if tier == "thorough":
        r += [
            hist("two long and a read-only transaction, background", lambda: S.rw("LLR", ("gAa", "sA", "gBa"), ("pAa", "iAb", "dAa", "pBa"), "Aa Ba", "G1"), m, weight=4),
            hist("two short and a read-only transaction, reclamation", lambda: S.rw("SSR", ("gAa", "gBa"), ("pAa", "dAa", "pBa"), "Aa Ba", "E1 G1"), m, weight=4),
        ]
    return r


# a long transaction ends while another one, of the same epoch, is open: what the latter may still read has to stay
KEPT = ["P021100 E2 G2 :: Aa Ba Bb Ca || L:A pAa | L:C gAa &pCa | !S dBb | R gBb gBb",
        "P021100 E2 G2 :: Aa Ba Bb Ca || L:A pAa | L:C gAa &pCa | !S pBb dBa | R sB sB"]
KEPT3 = ["P2011 E1 G2 :: Aa Ba || L:A gAa &pAa | L:B gAa &pBa | L:B gBa &dBa",
         "P2011 E1 G2 :: Aa Ba || L:A gAa &pAa | L:B gAa &pBa | L:B gBa &pBa"]
TWICE = [f"E2 G1 :: Aa || !S {a} | !S {b} | {r}" for a in ("pAa", "dAa") for b in ("pAa", "dAa", "iAa") for r in ("R gAa gAa", "L gAa gAa", "R sA gAa")]

# open scans stepped while others write
STEP = ["S oA n n n n", "S oA n n n n pBa", "S oA[b,) n n n", "L:B oA n n n n pBa", "L oA(a,) n n gAb n", "R oA n n n n gAb"]
STEPW = ["S iAb pAa", "S dAa iAb", "S dAc dAa", "S pAa uAc", "S dAb", "S dAb iAb", "S iAb dAc iAd", "S iAb x", "L:A iAb",
         "L:A dAa pAc", "L:A dAc iAd", "L:A pBa pAb"]


def stepped(head=""):
    return S.product([STEP, STEPW], "Aa ~Ab Ac", head)


OPS = "gAa iAa uAa dAa pAa sA"
OPS2 = OPS + " iAb dAb gAb"


def contract(n):
    yield f"n{n} :: Aa || S | {OPS} C X"
    yield f"n{n} :: ~Aa || L:A | {OPS} C X"
    yield f"n{n} :: ~Aa || S | {OPS} C X"
    for t in ("S", "L:A"):
        yield f"n{n - 1} post=C;R :: ~Aa Ab || {t} | {OPS2} C X E G"


def oddities(n):
    yield (f"n{n} odd :: Aa Ac ~Ad || S | gAa iAa dAa gAb iAb pAb gAc iAd gAd dAc pAe gAe pAf gAf iAy gAy dAy uAy pAy eAy sA C "
           "sA[a,c] sA(b,d) sA[a,y] sA[y,a] gZa iZa uZa dZa pZa sZ eZa")
    yield (f"n{n} odd :: Aa Ac ~Ad || L:A | gAa iAa dAa gAb iAb pAb gAc iAd gAd dAc pAe gAe pAf gAf iAy gAy dAy uAy pAy eAy sA C "
           "sA[a,c] sA(b,d) sA[a,y] sA[y,a] gZa eZa sZ")
    yield f"n{n} odd :: Aa Ac ~Ad || R | gAa iAa dAa gAb iAb pAb gAc uAa eAa sA C sA[a,c] sA(b,d) sA[a,y] gAy eAy gZa sZ"


def large_sets(n):
    al = OPS2 + " pAb C X"
    yield f"n{n} pre=bC :: Ca Aa ~Ab || S | {al} bC"
    yield f"n{n} post=bC;sA;gAa;gAb :: Ca Aa ~Ab || S | {al}"
    yield f"n{n} post=bC;X :: Ca Aa ~Ab || S | {al}"
    yield f"n{n} pre=bC post=C;sA;R :: Ca Aa ~Ab || L:AC | {al}"


def cursors(n):
    for t in ("S", "L:A"):
        yield f"n{n} pre=oA :: Aa Ab Ac ~Ad || {t} | n iAb dAa dAb uAb pAc iAd k oA[b,) dAc"
        yield f"n{n} pre=iAa;oA :: Ab Ac ~Ad || {t} | n dAa uAa uAb dAb pAc iAd k oA[b,)"
        yield f"n{n} pre=oA;n :: Aa Ab Ac ~Ad || {t} | n iAb dAa dAb uAb pAc iAd E oA(a,c) oA"
    yield f"n{n} pre=oA :: Aa Ab Ac ~Ad || R | n n n n k oA[b,c) oA*2 gAa oA<*1"


def ranges(n):
    """every pair of end points and kinds, limits, over entries in every state"""
    ends_l = ["", "[a", "(a", "[b", "(b", "[c", "(c", "(d"]
    ends_r = [")", "a]", "a)", "b]", "b)", "c]", "c)", "d]"]
    al = []
    for a in ends_l:
        for b in ends_r:
            left = a if a else "["
            for m in ("", "*1", "*2"):
                al.append(f"sA{left},{b}{m}")
    al += ["sA<*1", "sA[b,)<*1", "sA(b,)<*1", "sA(d,)<*1"]
    txt = " ".join(a for a in al if "<" not in a)
    for init in ("Aa Ab Ac Ad", "~Aa Ab ~Ac Ad", "Aa ~Ab Ac ~Ad", ""):
        yield f"n1 :: {init or 'Ba'} || R | {' '.join(al)} sA"
        for t in ("S", "L:A"):
            for pre in ("", "dAa", "dAb;iAc", "pAa;pAd", "iAb;dAb", "iAa;iAc;dAd"):
                yield f"n1 {'pre=' + pre if pre else ''} :: {init or 'Ba'} || {t} | {txt} sA"
            if n > 1:
                yield f"n2 :: {init or 'Ba'} || {t} | iAa dAa iAb dAb uAc dAd {' '.join(x for x in txt.split() if '*' not in x)}"


def c06(tier):
    d = 2 if tier == "thorough" else 1
    r = [
        seq("one key, all operations, commits and aborts anywhere", lambda: contract(5 + d), weight=4 * d),
        seq("one key, all operations, iterator scans", lambda: contract(4 + d), iscan=1),
        seq("unusual keys and values, unknown table", lambda: oddities(2 + d)),
        seq("unusual keys, iterator scans, small index nodes", lambda: oddities(2 + d), iscan=1, cap=2),
        seq("write sets beyond a hundred entries", lambda: large_sets(2 + d), weight=1 + d),
        seq("operations between the steps of a scan", lambda: cursors(2 + d)),
        hist("a transaction alone between others' steps", lambda: S.perms("SS", S.KEY, 2, "Aa Ba"), "lone"),
    ]
    return r


def c07(tier):
    d = 1 if tier == "thorough" else 0
    r = []
    for iscan, cap in ((0, 15), (0, 2), (1, 15), (1, 2)):
        nm = ("iterator scans" if iscan else "vector scans") + (", small index nodes" if cap == 2 else "")
        r += [seq("every range over every entry state, " + nm, lambda: ranges(1 + d), iscan, cap, 1 + d),
              seq("operations between the steps of a scan, " + nm, lambda: cursors(3 + d), iscan, cap, 1 + d),
              hist("scans stepped while others write, " + nm, lambda: stepped("E1"), "dirty,rtx", iscan, cap)]
    r += [seq("an insertion beside an open scan that has not been read from (known finding)", lambda: ["n3 :: Aa || S gAa | oA iAb n"]),
          seq("scans with unusual keys as end points", lambda: oddities(2 + d)),
          ilv("a stepped scan against a writer", lambda: S.product([["S oA n n", "R oA n n"], ["S iAb dAa", "S dAb iAb"]], "Aa ~Ab", "H0 o1"), 1, "dirty,rtx")]
    if d:
        r += [hist("scans stepped while others write, reclamation", lambda: stepped("E1 G1"), "dirty,rtx", 0, 15, weight=2),
              hist("scans stepped while others write, reclamation, iterator scans", lambda: stepped("E1 G1"), "dirty,rtx", 1, 2, weight=2)]
    return r


def c09(tier):
    d = 2 if tier == "thorough" else 1
    return [
        life("tables, data and sequences around restarts", lambda: [
            f"n{3 + d} :: cx dx ox px qx zx wx lx n m0 s0 E G R K F N I Q u",
            f"n{4 + d} pre=cx;n :: px qx lx s0 S0 R E u Q",
            f"n{4 + d} pre=cx;wx;R :: px qx dx cx R E cy"], weight=2),
        life("parallel recovery", lambda: [f"n{3 + d} threads=2 pre=cx;wx;cy!;n :: py dx cx.5 R s0 ox qx E",
                                           f"n{2 + d} threads=3 pre=cx;wx;cy!;n;wy :: py dx cx.5 R s0 n K dy E"]),
        thr("recovery by several threads", lambda: [
            "B2 :: Aa || zS || z2 || zO", "B2 :: Aa Ab || zS || z2 || zO", "B2 :: Aa || q zS || z2 || zO q0 q L", "B2 :: Aa || q q zS || z2 || zO q0 q1 q L",
            ":: Ba || cx c.5y zS || z2 || zO rx ry cz L", ":: Aa Ab Ba || q q zS || z3 || zO q0 q1 q L",
            ":: Aa ~Ab Ba || q cx dx zS || z3 || zO q0 cx cz L", *(["B2 :: Aa ~Ab Ba || q cx zS || z3 || zO q0 cy L", "B2 :: Aa Ab Ac Ba || zS || z3 || zO"] if tier == "thorough" else [])]),
        life("long transaction's sequence update around restarts", lambda: [f"n{4 + d} pre=n;b0 :: B0 A0 s0 S0 E R K"]),
    ]


def c14(tier):
    d = 2 if tier == "thorough" else 1
    return [
        life("sequence calls of short and long transactions, restarts and crashes", lambda: [
            f"n{3 + d} pre=n :: b0 B0 A0 s0 S0 t0 x0 m0 n E G R K cx",
            f"n{5 + d} pre=n;E;b0 :: B0 A0 s0 t0 x0 E R K",
            f"n{4 + d} pre=cx;n;n :: S0 S1 s0 m1 n E R K m0",
            f"n{3 + d} pre=n;E :: j0 s0 t0 x0 E R K n"], weight=3),
        life("sequences recovered by several threads", lambda: [
            f"n{2 + d} threads=2 pre=n;s0 :: s0 S0 n cx px E R K",
            f"n{1 + d} threads=2 pre=cx;n;s0;n;px :: s0 S1 x0 n px R K E",
            f"n{1 + d} threads=3 pre=cx;wx;n;s0;R :: s0 n x0 px R K"]),
        thr("sequence calls of two threads", lambda: [
            *_threads(("q", "q0 q0", "Q0", "C1", "1+0 C1", "q Q1"), ("C0", "0+0 C0", "q", "q0 q0", "Q0", "q q1"),
                      ("q N0 N1 b0S 0+0 b1S 1+0", "q N0 N1 b0S 0+0 b1L:A E 1+0"), "X0 X1 q0 q"),
            *_threads(("b1S 1+0 C1", "b1S 1+0 X1"), ("C0", "0+0 C0", "q0 q0", "Q0"), ("q N0 N1 b0S 0+0",), "X0 X1 q0 q")], 2 if tier == "thorough" else 1),
    ]


TAB = ("cx", "cy", "c.5y", "dx", "lx", "L", "ox", "Px", "dx cx", "cx dx", "cy dy")


def c15(tier):
    d = 2 if tier == "thorough" else 1
    return [
        life("table operations on live, deleted and re-created tables", lambda: [
            f"n{4 + d} :: cx.5 cx.5! cy.5 cx dx dy px py E R K ox",
            f"n{4 + d} :: cx cx! dx ox px zx qx lx cy py dy R E",
            f"n{4 + d} pre=cx;px;cy;py :: dx dy cx cy px py G E qx zx"], weight=3),
        thr("table calls of two threads", lambda: S.unordered(TAB, ("", "cx"), "L Px rx Py ry cz L"), weight=2),
    ]


CW = ["S pAa pBa", "S gAa pBa", "S dAa pAb", "S iAb dAb pAa", "S gBa dAa"]
CL = ["L:AB pAa pBa", "L:A gBa &pAa", "L:B gAa &pBa", "L:AB dAa iAb"]


def c08(tier):
    t = tier == "thorough"
    m = "crash"
    r = [
        hist("two short transactions, epochs", lambda: S.rw("SS", ("gAa", "sA", "gBa"), ("pAa", "iAb", "dAa", "pBa"), "~Ab Aa Ba", "E2"), m),
        hist("two short transactions, epochs and background work", lambda: S.product([CW, CW], "Aa Ba", "E1 G1"), m),
        hist("three short transactions, epochs", lambda: S.product([["S pAa pBa", "S gAa pBa", "S dAa"], ["S gBa pAa", "S pAb dAa"], ["S gAb pAa", "S dAb"]], "Aa Ba", "E1"), m),
        hist("long and short, epochs and background work", lambda: S.product([CL, CW[:3]], "Aa Ba", "E1 G1"), m),
        hist("two long, epochs", lambda: S.product([CL, CL], "Aa Ba", "E1 J"), m),
        hist("long, short and one giving up", lambda: S.aborting(S.product([CL[:2], CW[:3]], "Aa Ba", "E2")), m),
        hist("two short transactions, epochs, buffered logging", lambda: S.product([CW, CW], "Aa Ba", "E2 G1"), m, env={"SHIRAKAMI_ENABLE_OCC_EPOCH_LOG_BUFFERING": "1"}),
        ilv("commits of two short transactions, epoch change and log daemon", lambda: S.product([CW[:4], CW[1:4]], "Aa Ba", "H0011 e1 o1"), 1, m),
        ilv("a short transaction reading what another one writes", lambda: S.product([["S pAa", "S dAa"], ["S gAa pBa"]], "Aa Ba", "H0 e1"), 2, m),
        ilv("commits of a long and a short transaction", lambda: S.product([CL[:2], CW[:2]], "Aa Ba", "H000 e1 o1"), 1, m),
        life("tables, data and sequences around crashes", lambda: [
            f"n{4 + t} :: cx.5 dx px qx lx n s0 E K",
            f"n{4 + t} pre=cx;n :: px dx cx E K S0 ox R cy",
            f"n{4 + t} pre=cx;px;E;E :: px qx zx lx K E G R",
            f"n{3 + t} threads=2 pre=cx;wx;cy!;n :: py dx cx.5 K S0 ox qx E"], weight=2),
    ]
    if t:
        r += [
            hist("two short transactions, three epochs", lambda: S.rw("SS", S.RD, S.WR, "~Ab Aa Ba", "E3"), m, weight=3),
            hist("two long and a short transaction", lambda: S.product([CL, CL[:2], CW[:3]], "Aa Ba", "E1"), m, weight=3),
            ilv("commits of two short transactions, two deviations", lambda: S.product([CW[:2], CW[1:2]], "Aa Ba", "H0011 e1"), 2, m, weight=2),
        ]
    return r


def STATEH(n):
    return [f"n{6 + n} ses :: Aa || S gBa | <S <L:A h y C X E", f"n{6 + n} ses pre=<S;h;C :: Aa || S gBa | <S <R h y C V N",
            f"n{6 + n} ses pre=<L:A;h :: Aa || S gBa | E h y pAa C X", f"n{5 + n} ses pre=<S;h;pAa;C;<L:A;h;E;pAa;C :: Aa || S gBa | <S h y C X E pAa"]


def c10(tier):
    t = tier == "thorough"
    m = "crash,state"
    ab = ["L:A x", "L:A gAa x", "R x", "S pAa x", "R w gAa w", "S w gAa w"]
    r = [
        hist("long and short with state queries, epochs", lambda: S.product([CL, CW[:3] + ["S gAa", "R gAa"]], "Aa Ba", "E2"), m),
        hist("two long, epochs, started in one epoch where possible", lambda: S.product([CL, CL], "Aa Ba", "E2 J"), m),
        hist("giving up before and after the start", lambda: S.product([ab, CL[:2] + CW[:2]], "Aa Ba", "E2 J"), m),
        hist("two short, epochs and background work", lambda: S.product([CW, CW[:3] + ["S gAa"]], "Aa Ba", "E1 G1"), m),
        hist("two long and a short transaction", lambda: S.product([CL[1:3], CL[1:], ["S gAa pBa", "S pAa"]], "Aa Ba"), m),
        hist("three long transactions", lambda: S.product([["L:A gBa &pAa"], ["L:B gAa &pBa", "L:A gAa pAa"], ["L:A pAa", "L:AB gBa &pAa"]], "Aa Ba"), m),
        hist("two long transactions, two background workers", lambda: S.product([CL, CL], "Aa Ba", "G1"), m, bgworkers=2),
        ilv("commits of two short transactions, epoch change and log daemon", lambda: S.product([CW[:3], CW[1:3]], "Aa Ba", "H0011 e1 o1"), 1, m),
        ilv("a commit beside state queries", lambda: S.product([["S pAa", "L:A pAa"], ["S w w"]], "Aa", "e1 H00"), 1, m),
        thr("repeated commit and abort calls on a waiting transaction", lambda: WAITC),
        seq("state handles kept over several transactions", lambda: STATEH(1 if t else 0)),
        ilv("a commit decided in the background beside another one", lambda: S.product([["L:A gBa", "L:A gBa x"], ["L:B gAa pBa"]], "Aa Ba", "H010111 o1"), 1, m),
    ]
    if t:
        r += [
            hist("two long and a short transaction, epochs", lambda: S.product([CL, CL, ["S gAa pBa", "S pAa"]], "Aa Ba", "E1"), m, weight=3),
            ilv("commits of two short transactions, two deviations", lambda: S.product([CW[:2], CW[1:2]], "Aa Ba", "H0011 e1"), 2, m, weight=2),
        ]
    return r

LA = ["L:A gAa pAa", "L:A gBa pAa", "L:AB sA pBa", "L:A+B gBa pAa", "L:A-A gBa pAa", "L:B+A gBa pBa", "L:A gBa pBa gAa",
      "L:A-B gAa sB", "L:A-A iAb", "L:A-A dAa", "L:A+A-A gAa", "L:A+AB-B gAa gBa"]
SA = ["S gAa pBa", "S gBa pAa", "S sA", "S gAa", "S pAa gBa", "S iAb gAa", "S uAa pBa", "S gBa sA"]


def c11(tier):
    t = tier == "thorough"
    m = "lone"
    r = [
        hist("three long transactions, one giving up", lambda: S.aborting(S.rw("LLL", ("gAa", "gBa"), ("pAa", "pBa"), "Aa Ba"))),
        hist("three long transactions, background work", lambda: S.product([["L:A gBa &pAa", "L:A gBa &pAa x"], ["L:B gAa &pBa", "L:A gAa &pAa"], ["L:AB gAa &pBa", "L:B gBa &pBa", "L:AB sA x"]], "Aa Ba", "G1")),
        hist("three long transactions, two background workers", lambda: S.rw("LLL", ("gAa", "gBa"), ("pAa", "pBa"), "Aa Ba", "J"), bgworkers=2),
        hist("three long transactions, waiting bypass", lambda: S.rw("LLL", ("gAa", "sA", "gBa"), ("pAa", "dAa", "pBa"), "Aa Ba"), env=BYP),
        hist("two long and a short transaction, waiting bypass", lambda: S.rw("LLS", ("gAa", "gBa"), ("pAa", "dAa", "pBa"), "Aa Ba", "J"), bgworkers=2, env=BYP),
        hist("refusals and aborts leave nothing behind", lambda: S.aborting(S.rw("LSS", ("gAa", "sA"), ("pAa", "iAb", "dAa"), "Aa ~Ab")), m),
        ilv("two short transactions locking in opposite order", lambda: S.product([["S pAa pBa", "S iAb dAa", "S dAa iBb"], ["S pBa pAa", "S dAa iAb", "S iBb dAa"]], "Aa Ba", "H0011"), 2),
        ilv("three short transactions locking in a circle", lambda: [
            "H001122 :: Aa Ba Ca || S pAa pBa | S pBa pCa | S pCa pAa",
            "H001122 :: Aa Ab Ac || S uAa uAb | S uAb uAc | S uAc uAa",
            ":: Aa Ba Ca || S pAa pBa | S pBa pCa | S pCa pAa"]),
        ilv("a long and a short transaction locking in opposite order", lambda: S.product([["L:AB pAa pBa", "L:AB dAa iAb", "L:AB pBa pAa x"], ["S pBa pAa", "S iAb dAa", "S pAa gBa"]], "Aa Ba", "H0 e1")),
        ilv("waiting commits and the background workers", lambda: S.product([["L:A gBa pAa", "L:A gBa pAa x"], ["L:B gAa pBa", "L:AB gAa pBa x"]], "Aa Ba", "H000111 o1"), bgworkers=2),
        ilv("insertion, deletion and reclamation of one key", lambda: S.product([["S iAb", "S dAb", "S pAb"], ["S iAb", "S dAb"]], "Aa ~Ab", "o1")),
        thr("waiting commits, aborts and sessions that are left", lambda: WAITC),
        thr("table and session calls", lambda: [":: Aa || cx || dx | cx || cx L", ":: Aa || cx || dx | dx || cx L", ":: Aa || || cx | cx || cx L",
                                                "keep=5 :: Aa || N0 b0L:A E || V0 | N1 b1L:A || N2 X1"]),
        life("shutdown with open and waiting transactions", lambda: [f"n{4 + t} pre=n;E;b0 :: B0 s0 t0 x0 E G F N R Q", f"n{4 + t} :: cx px dx E G F N I Q R"]),
    ]
    if t:
        r += [
            hist("three long transactions, two operations", lambda: S.rw("LLL", ("gAa", "sA", "gBa"), ("pAa", "iAb", "dAa", "pBa"), "Aa Ba", "G1"), weight=3),
            ilv("three short transactions locking in a circle, two deviations", lambda: ["H001122 :: Aa Ba Ca || S pAa pBa | S pBa pCa | S pCa pAa"], 2, weight=3),
            ilv("a long and a short transaction locking in opposite order, two deviations", lambda: S.product([["L:AB pAa pBa", "L:AB dAa iAb"], ["S pBa pAa", "S iAb dAa"]], "Aa Ba", "H000"), 2, weight=2),
        ]
    return r


WAITC = ["o1 :: Aa Ba || N0 b0L:A N1 b1L:B E 0.gBa 1.gAa 1.pBb 0.pAb || D1 | V0 || W1",
         "o1 :: Aa Ba || N0 b0L:A N1 b1L:B E 0.gBa 1.gAa 1.pBb 0.pAb || D1 D1 | C0 || W1",
         "o1 :: Aa Ba || N0 b0L:A N1 b1L:B E 0.gBa 1.gAa 1.pBb 0.pAb || D1 X1 | X0 || W1",
         "o1 :: Aa Ba || N0 b0L:A N1 b1L:B E 0.gBa 1.gAa 1.pBb 0.pAb || D1 | X0 b0S 0.gAa X0 || W1",
         "o1 :: Aa Ba || N0 b0L:A N1 b1L:B E 0.gBa 1.gAa 1.pBb 0.pAb || D1 | C0 || W1 b1S 1.gBa 1.pBa C1"]


def c12(tier):
    t = tier == "thorough"
    m = "reclaim,rtx,dirty"
    w = ("pAa", "dAa", "iAb")
    r = [
        hist("two short transactions and reclamation", lambda: S.rw("SS", ("gAa", "gAb", "sA"), w + ("pAb", "dAb"), "Aa ~Ab", "E1 G1"), m),
        hist("a short writer, a read-only transaction and reclamation", lambda: S.rw("SR", ("gAa", "sA"), w, "Aa ~Ab", "E2 G2" if t else "E1 G2", tail=("gAa gAb gAa", "sA sA")), m),
        hist("two short writers and a read-only transaction", lambda: S.product([["S pAa", "S dAa", "S iAb"], ["S pAa", "S dAa", "S dAb"], ["R gAa gAa", "R sA gAb"]], "Aa ~Ab", "G1"), m),
        hist("a long and a short transaction and reclamation", lambda: S.rw("LS", ("gAa", "sA"), w + ("dAb",), "Aa ~Ab", "E1 G1"), m),
        hist("transactions given up and reclamation", lambda: S.aborting(S.rw("LS", ("gAa", "sA"), w, "Aa ~Ab", "G1")), m),
        hist("long, short and read-only", lambda: S.rw("LSR", ("gAa",), w, "Aa", tail=("sA gAa",)), m),
        hist("versions needed by a long transaction", lambda: KEPT + KEPT3, m),
        hist("a key written twice, reclamation", lambda: TWICE, m),
        hist("stepped scans and reclamation", lambda: S.product([STEP[:2] + STEP[3:], ["S dAa", "S iAb", "S dAc"]], "Aa ~Ab Ac", "G1"), m),
        ilv("a reader against reclamation", lambda: S.product([["S gAa gAb", "S sA sA", "R gAa gAa", "R sA", "L gAa sA"], ["S dAa", "S pAa", "S iAb"]], "Aa ~Ab", "H1 o1"), 1, "dirty,rtx"),
        ilv("insertion and deletion against reclamation", lambda: S.product([["S iAb", "S dAb", "S pAb", "L:A iAb"], ["S iAb dAa", "S gAb pAa", "S dAb"]], "Aa ~Ab", "o1"), 1, "dirty"),
        ilv("a stepped scan against deletion and reclamation", lambda: S.product([["S oA n n", "R oA n n", "L oA n n"], ["S dAa", "S dAb"]], "Aa Ab", "o1"), 1, "dirty,rtx"),
        thr("deleting a table beside reclamation", lambda: ["o1 :: Aa Ab || N0 b0S 0.dAa C0 cx || dx | L || L cx rx", "o1 :: Aa ~Ab || cx E || dx cx | lx || L rx"]),
    ]
    if t:
        r += [
            hist("three short transactions and reclamation", lambda: S.product([["S gAa pAa", "S dAa", "S iAb"], ["S pAa", "S dAa", "S dAb"], ["S sA", "S gAb iAb", "R sA gAa"]], "Aa ~Ab", "E1 G2"), m, weight=3),
            hist("two long transactions and reclamation", lambda: S.rw("LL", ("gAa", "sA"), w + ("dAb",), "Aa ~Ab", "E1 G1"), m, weight=2),
            hist("reclamation not reduced", lambda: S.rw("SS", ("gAa", "gAb", "sA"), w, "Aa ~Ab", "E1 G2"), m, env={"SHIRAKAMI_REDUCE_GC": "0"}, weight=2),
            ilv("a reader against reclamation, two deviations", lambda: S.product([["S gAa", "R gAa"], ["S dAa", "S pAa"]], "Aa", "H1 o1"), 2, "dirty,rtx", weight=3),
        ]
    return r


def c13(tier):
    t = tier == "thorough"
    m = "prio,area,lone"
    n = 4 + t
    r = [
        seq("declared areas and start epochs in every state of the session", lambda: [
            f"n{n} ses pre=<L:A+B;E :: Aa Bb || S gBa | gAa pAa iAb dAa sA sB oA n pBa gBb uBb C X E",
            f"n{n} ses pre=<L:A-A;E :: Aa Bb || S gBa | gAa pAa iAb dAa sA sB eBb pBa C X E",
            f"n{n} ses :: Aa Bb || S gBa | <L:A <L:AB <L <L:A+A-A <L:B+AB-A E gAa pAa sB pBa C X V N",
            f"n{n} ses :: Aa Bb || S gBa | <L:A+A <L:B-B <R <S <U E gAa pAa oB n C X uBb"]),
        hist("a long and a short transaction, epochs", lambda: S.product([LA, SA], "Aa Ba", "E1"), m),
        hist("a long transaction giving up beside a short one", lambda: S.aborting(S.product([LA[:6], SA[:5]], "Aa Ba", "E1")), m),
        hist("a long and two short transactions", lambda: S.product([LA[:4], SA[:5], ["S gAa", "S pAa", "S gBa pAa"]], "Aa Ba"), m),
        hist("two long and a short transaction", lambda: S.product([["L:A gBa pAa", "L:AB sA pBa", "L:A+B gBa pAa"], ["L:B gAa pBa", "L:B+A gAa pBa", "L:B-B gAa pBa", "L:A-B gAa pAa"], ["S gAa pBa", "S gBa", "S pAa gBa"]], "Aa Ba"), m),
        hist("long transactions declaring the same table, one not started yet", lambda: [
            f"E2 J :: Aa Ba || {a} | {b} | {c}" for a in ("L:A pAa", "L:A gAa", "L:A x") for b in ("L:A", "L:AB") for c in ("S gAa", "S sA", "S gAa pBa", "S uAa")], m),
        hist("long transactions asking for their priority", lambda: [
            f" :: Aa Ba || {a} | {b} | {c}" for a in ("L:A", "L:A pAa", "L:A x") for b in ("L:B gAa &pBa &H", "L:AB H", "L H &gAa &H")
            for c in ("L:B H", "L H x", "S H", "R H")]
            + [f"{h} :: Aa Ba || {a} | {b}" for h in ("E2 J", "E1 G1") for a in ("L:A H pAa", "L:A x", "R H", "S H pAa") for b in ("L:B H gAa H", "L H x")], m),
        hist("a long transaction whose only table is deleted from and scanned", lambda: S.rw("LS", ("gAa", "sA", "gAb"), ("pAa", "iAb", "dAa", "dAb"), "Aa ~Ab", "E2"), m),
        ilv("a long transaction beginning and ending beside a short one", lambda: S.product([["L:AB gAa pBa", "L:AB pAa pBa", "L:BA pAa sB", "L:A+B gBa pAa"], ["S gAa pBa", "S gAa gBa", "S sB pAa", "S pAa pBa"]], "Aa Ba", "e1"), 1, "prio,area"),
        ilv("a long transaction's operations and end beside a short one", lambda: S.product([["L:AB gAa pBa", "L:AB pAa dBa"], ["S gAa pBa", "S gAa gBa", "S sB pAa", "S pAa pBa"]], "Aa Ba", "H0 e1"), 1, "prio,area"),
    ]
    if t:
        r += [
            ilv("two long transactions beginning beside a short one", lambda: S.product([["L:AB pAa pBa"], ["L:BA gAa pBa", "L:B gAa pBa", "L:AB gAa pBa x"], ["S gAa"]], "Aa Ba", "e1"), 1, "prio,area", weight=2),
            ilv("a long transaction beside a short one, two deviations", lambda: S.product([["L:AB gAa pBa"], ["S gAa pBa"]], "Aa Ba", "e1"), 2, "prio,area", weight=4),
        ]
    return r


SESC = ["B2 keep=5 :: Aa || N0 || V0 | N1 || N2 N3", "B2 keep=4 :: Aa || || N0 V0 | N1 V1 || N2 N3 N4",
        "B2 keep=5 :: Aa || || N0 V0 | N1 V1 || N2 N3 N4", "B2 keep=4 :: Aa || || N0 | N1 || N2 N3 N4",
        "B2 keep=5 :: Aa || || N0 | N1 || N2 N3 N4", "B2 keep=4 :: Aa || || N0 | N1 | N2 || N3 N4",
        "B2 keep=5 e1 :: Aa || N0 b0S 0.pAa || V0 | N1 b1S 1.gAa || X1 N2 N3",
        "B2 keep=5 e1 :: Aa || N0 b0L:A E 0.pAa || V0 | N1 b1S 1.gAa || X1 N2 N3",
        "B2 keep=4 e1 :: Aa || N0 b0L:A E 0.oA || V0 | N1 b1S 1.gAa || X1 N2 N3",
        "keep=5 e1 :: Aa || N0 || b0S 0.iAb V0 | N1 b1S 1.gAa || X1 N2 N3",
        "keep=4 o1 :: Aa || N0 b0R E || V0 | N1 b1S 1.pAa C1 || N2 N3"]


def c16(tier):
    n = 1 if tier == "thorough" else 0
    return [
        seq("sessions, begins and calls in every state", lambda: [
            "n4 ses :: Aa Bb ~Ab || S gBa | <S <L:A <R <L:A+B <L:A-A <U <W V N C X E gAa pAa dAa iAb sB oA n k h t r",
            f"n{6 + n} ses :: Aa || S gBa | <S <L:A V N E pAa C",
            f"n{6 + n} ses :: Aa || S gBa | <S <L:A V N E iAc X",
            f"n{6 + n} ses :: Aa Bb || S gBa | <L:A+B <S <L:B-A V N E gAa",
            f"n{5 + n} ses pre=<S;oA :: Aa Ab || S gBa | n V N <S <R C X oA k dAa",
            f"n{5 + n} ses pre=<L:A;E;pAa :: Aa Ab || S gBa | h t r V N <S C X gAa n",
            f"n{5 + n} ses :: Aa || S gBa | <S <L:A <R h t r C X V N E",
            f"n{5 + n} ses :: Aa || S gBa | <S <L:A <R q pAa C X V N E"], weight=2),
        seq("sessions, iterator scans", lambda: [f"n{5 + n} ses pre=<S;oA :: Aa Ab || S gBa | n V N <S <R C X oA k dAa"], iscan=1),
        seq("state handles kept over several transactions", lambda: STATEH(n)),
        thr("sessions opened and closed around the maximum", lambda: SESC),
        thr("sessions closed with waiting and open transactions", lambda: WAITC[:3]),
        hist("transactions one after the other in the same sessions", lambda: S.aborting(S.rw("LS", ("gAa", "sA"), ("pAa", "iAb", "dAa"), "Aa ~Ab", "E1")), "lone,prio"),
    ]


STR = ("gAa", "pAa", "uAa", "dAa", "iAa", "gAc", "pAc", "uAc", "dAc", "iAc", "iAd", "pAd", "sA")
STRS = ("oA y v x", "oA x y z", "oA x v x")


def _pairs(ops):
    return [f"{a} {b}" for a in ops for b in ops if a != b]


def c17(tier):
    t = tier == "thorough"
    two = _pairs(("gAa", "pAa", "dAa", "iAc", "pAc", "dAc") if t else ("gAa", "pAa", "dAa", "iAc", "pAc"))
    few = _pairs(("gAa", "pAa", "dAa", "iAc", "pAc")) if t else _pairs(("pAa", "dAa", "iAc", "pAc"))
    r = [
        thr("two threads of a short transaction, one operation each", lambda: S.strands("S", [STR, STR])),
        thr("two threads of a long transaction, one operation each", lambda: S.strands("L:A", [STR, STR])),
        thr("two threads of a short transaction, two operations each", lambda: S.strands("S", [two, two])),
        thr("two threads of a long transaction, two operations each", lambda: S.strands("L:A", [few, few])),
        thr("scans of several threads", lambda: [l for x in ("S", "L:A") for l in S.strands(x, [STRS, STRS + ("pAa dAb", "iAc", "dAa pAc", "iAd", "gAa dAb")])]
            + list(S.strands("R", [STRS + ("gAa sA",), STRS + ("gAa sA",)]))),
        thr("scans of several threads, iterator scans", lambda: [l for x in ("S", "L:A") for l in S.strands(x, [STRS, STRS + ("pAa dAb", "iAc")])], iscan=1),
        thr("three threads of one transaction", lambda: [l for x in (("S", "L:A") if t else ("S",)) for l in S.strands(x, [("gAa", "pAa", "dAa", "iAc", "pAc", "oA y")] * 3)]),
    ]
    if t:
        r += [thr("two threads of a short transaction, one operation each, two deviations", lambda: S.strands("S", [STR, STR]), 2, weight=6),
              thr("two threads of a long transaction, one operation each, two deviations", lambda: S.strands("L:A", [STR, STR]), 2, weight=6)]
    return r


LOBW = ("S pAa", "S iAb", "S uAa pBa", "S dAa iAa", "S pAa pAa", "S gBa pAa", "S iAb uAb", "S pAb dAb")
LOBL = ("L:A pAa", "L:A iAb uAb", "L:A dAa pAa", "L:AB pAa pBa", "L:A gBa pAa", "L:A pAb dAb iAb")


def c18(tier):
    t = tier == "thorough"
    m = "lobs,crash"
    buf = {"SHIRAKAMI_ENABLE_OCC_EPOCH_LOG_BUFFERING": "1"}
    r = [
        seq("writes of one or two keys, commits and aborts anywhere", lambda: contract(5 + t), weight=2 + 3 * t, mode="lobs"),
        seq("unusual keys and values", lambda: oddities(3 + t), mode="lobs"),
        seq("write sets beyond a hundred entries", lambda: large_sets(3 + t), weight=1 + t, mode="lobs"),
        hist("two short transactions, epochs", lambda: S.product([LOBW, LOBW], "Aa Ba", "E2"), m),
        hist("two short transactions, epochs and background work", lambda: S.product([LOBW, LOBW], "Aa ~Ab Ba", "E1 G1"), m),
        hist("two short transactions, buffered logging", lambda: S.product([LOBW, LOBW], "Aa Ba", "E2 G1" if t else "E1 G1"), m, env=buf),
        hist("three short transactions", lambda: S.product([LOBW[:4], LOBW[:5], LOBW[2:]], "Aa Ba"), m),
        hist("long and short, epochs", lambda: S.product([LOBL, LOBW], "Aa Ba", "E1"), m),
        hist("two long, epochs", lambda: S.product([LOBL, LOBL], "Aa Ba", "E2"), m),
        hist("long and short, one giving up", lambda: S.aborting(S.product([LOBL[:4], LOBW[:5]], "Aa Ba", "E1")), m),
        ilv("commits of two short transactions and the log daemon", lambda: S.product([LOBW[:5], LOBW[:5]], "Aa Ba", "e1 o1"), 1, m),
        ilv("commits of two short transactions, buffered logging", lambda: S.product([LOBW[:4], LOBW[:4]], "Aa Ba", "e1 o1"), 1, m, env=buf),
        ilv("commits of a long and a short transaction", lambda: S.product([LOBL[:4], LOBW[:4]], "Aa Ba", "H0 e1"), 1, m),
        thr("two threads of a short transaction writing", lambda: S.strands("S", [LOBT, LOBT]), mode="lobs"),
        thr("two threads of a long transaction writing", lambda: S.strands("L:A", [LOBT, LOBT]), mode="lobs"),
    ]
    if t:
        r += [thr("two threads of a short transaction writing, two deviations", lambda: S.strands("S", [LOBT[:4], LOBT[:4]]), 2, mode="lobs", weight=4),
              hist("three short transactions, epochs", lambda: S.product([LOBW[:4], LOBW[:5], LOBW[2:]], "Aa Ba", "E1"), m, weight=3),
              hist("two long and a short transaction", lambda: S.product([LOBL, LOBL, LOBW[:3]], "Aa Ba", "E1"), m, weight=3),
              hist("three long transactions", lambda: S.product([LOBL, LOBL[:4], LOBL[:3]], "Aa Ba", "E1"), m, weight=3)]
    return r


LOBT = ("pAa", "uAa", "dAa", "iAc", "pAc", "pAa uAa", "dAa iAa", "iAc dAc", "pAc pAa")


def _threads(a, b, setups, post, head=""):
    for x in a:
        for y in b:
            for s in setups:
                yield f"{head} :: Aa || {s} || {x} | {y} || {post}"


PLAN = {"C11": c11, "C12": c12, "C13": c13, "C16": c16, "C17": c17, "C18": c18, "C08": c08, "C10": c10, "C06": c06, "C07": c07, "C09": c09, "C14": c14, "C15": c15, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}
LEVEL = {"C08": "fault_enumeration"}
TECH = {}
_L = ("exhaustive enumeration, as a tree of forked engine processes, of all sequences of engine-level actions up to a depth "
      "(including restarts and crashes) on the real code; every node is compared with a model of the catalog, contents and sequences")
for _i in ("C09", "C14", "C15"):
    TECH[_i] = _L
for _i in ("C06", "C07"):
    TECH[_i] = ("exhaustive enumeration of call sequences up to a depth on the real code, compared call by call with a sequential "
                "model; histories and thread schedules for scans beside writers")
TECH["C08"] = ("exhaustive enumeration of crash points (every event of the log device, every durability report) in all call orders and "
               "all bounded thread schedules of small programs on the real code; what the log keeps must be explained by a closed set of "
               "transactions; crash and recovery with the real recovery code as actions of enumerated sequences")
TECH["C10"] = ("exhaustive enumeration of call orders and bounded thread schedules on the real code; every callback, state answer and "
               "durability report is compared with the outcome and with what a crash at that moment would keep")
TECH["C11"] = ("exhaustive enumeration of call orders, bounded thread schedules and action sequences on the real code with a scheduler "
               "that knows every thread: a call that cannot return or a commit that is never decided is found as a state without progress")
TECH["C12"] = ("exhaustive enumeration of call orders and bounded thread schedules of transactions and the reclamation threads on the real "
               "code with every access checked against released memory; after every history index entries and memory in use are compared")
TECH["C13"] = ("exhaustive enumeration of call sequences (model of sessions and areas), call orders and bounded thread schedules on the real "
               "code, judged by rules on declared areas and priority and by the serial reference model")
TECH["C16"] = ("exhaustive enumeration of call sequences in every session state compared with a model, and of bounded thread schedules of "
               "session calls compared with all their sequential executions, on the real code")
TECH["C17"] = ("exhaustive enumeration of bounded thread schedules of operations on one transaction on the real code; every outcome must be "
               "that of one of the sequential executions of the same calls, all of which are executed")
TECH["C18"] = ("exhaustive enumeration of call sequences, call orders, crash points and bounded thread schedules on the real code; every "
               "entry the log receives is compared with what was given with that value")
NOTE = {i: "short sequences (3-6 actions after a prepared state); bounds and counts of every family are in the evidence file; index and log library are stand-ins"
        for i in ("C06", "C07", "C09", "C14", "C15", "C16")}
_S = ("every sequence of the listed actions up to the stated depth from the stated prepared state, each judged at every step; an "
      "outcome is the final model state with the answers; non-trivial: distinct outcomes")
RULE = {i: _S for i in ("C06", "C09")}
RULE["C07"] = _S + "; scans beside writers: every ordering of the calls and every schedule within the stated bound"
RULE["C08"] = ("every ordering of the calls and every schedule within the stated bound, a crash judged at every event of the log device "
               "and every durability report; action sequences with crashes and recovery; an outcome is the tuple of all answers, decisions "
               "and the final contents; non-trivial: distinct outcomes with at least two commits")
_T = ("every schedule within the stated bound of every listed choice of calls; an outcome is the tuple of all answers and the final "
      "contents, which must be that of a sequential execution; non-trivial: distinct outcomes of choices with several sequential outcomes")
RULE["C17"] = _T
for _i in ("C14", "C15", "C16"):
    RULE[_i] = _S + "; calls of two or three threads: " + _T
RULE["C18"] = ("every call sequence up to the stated depth, every ordering of the calls and every schedule within the stated bound, each entry "
               "written to the log judged; an outcome is the tuple of all answers, decisions and the final contents; non-trivial: distinct "
               "outcomes with a commit (sequences), two commits (orderings) or several sequential outcomes (threads)")
RULE.update({"*": "every ordering of the API calls of every transaction program of the listed families, and every "
             "schedule within the stated bound; an outcome is the tuple of all answers, decisions and the final contents; "
             "non-trivial: distinct outcomes with at least two commits"})
ASSUME = [
    "ordered index and log library are replaced by stand-ins with the same interface (the originals are not installed); "
    "all other code is the code of /repo",
    "threads interleave at synchronisation and atomic operations (and at conflicting plain accesses found while running); "
    "weaker memory orders are not modelled",
]
ASSUME_FOR = {}
NOT_YET = {}
