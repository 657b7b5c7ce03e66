"""Transaction-program families.  A family is a complete product over a small alphabet of
operations, with programs that only differ by exchanging equal-typed transactions listed once."""
import itertools

WRITES = set("piud")


def tx(t, ops, glue=True, wp=None):
    """one transaction; in long ones a write directly after a read shares its history step"""
    if t == "L":
        w = wp if wp is not None else "".join(sorted({o[1] for o in ops if o[0] in WRITES}))
        out = []
        for i, o in enumerate(ops):
            if glue and i and o[0] in WRITES and ops[i - 1][0] not in WRITES:
                o = "&" + o
            out.append(o)
        return ("L:" + w if w else "L") + " " + " ".join(out)
    return t + " " + " ".join(ops)


def product(lists, init, head=""):
    """unordered product of the transaction lists (equal lists are symmetric)"""
    seen = set()
    for c in itertools.product(*lists):
        k = tuple(sorted(c))
        if k in seen:
            continue
        seen.add(k)
        yield "%s:: %s || %s" % (head + " " if head else "", init, " | ".join(c))


def rw(types, reads, writes, init, head="", glue=True, tail=()):
    """every transaction: one read, then one write"""
    d = {}
    for t in set(types) - {"R"}:
        d[t] = [tx(t, (r, w), glue) for r in reads for w in writes]
    d["R"] = ["R " + x for x in (tail or ("sA sB",))]
    return product([d[t] for t in types], init, head)


def perms(types, ops, n, init, head="", glue=False, tail=()):
    """every transaction: n different operations of the alphabet in any order"""
    d = {}
    for t in set(types) - {"R"}:
        d[t] = [tx(t, c, glue) for c in itertools.permutations(ops, n)]
    d["R"] = ["R " + x for x in (tail or ("sA gBa",))]
    return product([d[t] for t in types], init, head)


def aborting(lines):
    """each program once per choice of one transaction that gives up instead of committing"""
    seen = set()
    for l in lines:
        head, prog = l.split("::", 1)
        init, txs = prog.split("||", 1)
        t = [x.strip() for x in txs.split("|")]
        for i in range(len(t)):
            if t[i].startswith("R"):
                continue
            v = list(t)
            v[i] += " x"
            k = (init, tuple(sorted(v)))
            if k in seen:
                continue
            seen.add(k)
            yield "%s::%s|| %s" % (head, init, " | ".join(v))


def with_head(lines, head):
    for l in lines:
        yield head + " " + l


RD = ("gAa", "gAb", "sA", "gBa")
WR = ("pAa", "iAb", "dAa", "pBa")
KEY = ("gAa", "iAa", "uAa", "dAa", "pAa", "gBa", "pBa")


def strands(tx, threads, init="Aa Ab ~Ad"):
    """threads of one transaction: every unordered choice from the given lists of call lists"""
    seen = set()
    for c in itertools.product(*threads):
        k = tuple(sorted(c))
        if k in seen:
            continue
        seen.add(k)
        th = " | ".join(" ".join("0." + w for w in t.split()) for t in c)
        head = "weak" if any(w[0] in WRITES for t in c for w in t.split()) else ""
        yield f"{head} :: {init} || N0 b0{tx}{'' if tx == 'S' else ' E E E'} || {th} || C0"


def unordered(calls, setups, post):
    """two threads of table calls, every unordered choice"""
    for i, a in enumerate(calls):
        for b in calls[i:]:
            for s in setups:
                yield f":: Aa || {s} || {a} | {b} || {post}"
