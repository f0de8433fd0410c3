"""Exhaustive enumerations of patterns. Everything is deterministic."""
import itertools

GREEDY = ["*", "+", "?", "{2}", "{1,}", "{0,1}", "{0,2}", "{1,2}", "{2,}", "{2,3}"]
LAZY = [q + "?" for q in ["*", "+", "?", "{1,}", "{0,2}", "{1,2}", "{2,}", "{2,3}"]]
POSS = [q + "+" for q in ["*", "+", "?", "{1,}", "{0,2}", "{1,2}", "{2,}", "{2,3}"]]
ALLQ = [""] + GREEDY + LAZY + POSS
SIMPLEQ = ["", "*", "+", "?", "*?", "+?", "??", "*+", "++", "?+"]
BACKQ = ["", "*", "+", "?", "*?", "+?", "??"]


def items(atoms, quants):
    return [a + q for a in atoms for q in quants]


def seqs(parts, n):
    return ["".join(x) for x in itertools.product(parts, repeat=n)]


def canonical(pats):
    """Keep one of each pair of patterns that only differ by swapping a and b"""
    swap = str.maketrans("ab", "ba")
    seen, out = set(), []
    for p in pats:
        if p in seen or p.translate(swap) in seen:
            continue
        seen.add(p)
        out.append(p)
    return out


def unique(pats):
    return list(dict.fromkeys(pats))


def expressions(n, atoms, quants, groups=("(", "(?:"), gquants=None):
    """Every expression of n symbols: an atom, a quantifier, a | and a pair of
    brackets each count one. gquants are the quantifiers for groups, if others"""
    memo = {}
    gquants = quants if gquants is None else gquants

    def atom(k):
        key = ("atom", k)
        if key not in memo:
            r = list(atoms) if k == 1 else []
            if k > 1:
                for g in groups:
                    r += [g + e + ")" for e in alt(k - 1)]
            memo[key] = r
        return memo[key]

    def piece(k):
        key = ("piece", k)
        if key not in memo:
            r = list(atom(k))
            if k > 1:
                r += [a + q for a in atom(k - 1) for q in (quants if k == 2 else gquants)]
            memo[key] = r
        return memo[key]

    def seq(k):
        key = ("seq", k)
        if key not in memo:
            r = list(piece(k))
            for i in range(1, k):
                r += [a + b for a in piece(i) for b in seq(k - i)]
            memo[key] = r
        return memo[key]

    def alt(k):
        key = ("alt", k)
        if key not in memo:
            r = list(seq(k))
            for i in range(1, k - 1):
                r += [a + "|" + b for a in seq(i) for b in alt(k - i - 1)]
            memo[key] = r
        return memo[key]

    return alt(n)


def strided(l, step, offset=0):
    """A fixed, documented subset: every step-th element"""
    return l[offset::step]
