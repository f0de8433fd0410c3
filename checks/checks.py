"""What is explored for each property. Everything below is enumerated in full:
a bound is the size of a pattern, the pieces it is made of, the length of the
words it is run on."""
import itertools, json, os, re, sys
from drive import *
import custom, gen
from gen import GREEDY, LAZY, POSS, ALLQ, SIMPLEQ, BACKQ, items, seqs, canonical, unique, expressions

QUANTS9 = ["*", "+", "?", "*?", "+?", "??", "*+", "++", "?+"]
QUANTS3 = ["*", "+", "?"]

AB = {n: Fam(b"ab", n) for n in range(2, 13)}
ABC = {n: Fam(b"abc", n) for n in range(2, 9)}
ABNL = {n: Fam(b"ab\n", n) for n in range(2, 8)}


def tasks(pats, fam, mode, flags=RUN, ct=0):
    return [Task(p, fam, mode, flags, ct) for p in unique(pats)]


def x(*parts):
    """Every concatenation of one of each part"""
    return ["".join(c) for c in itertools.product(*parts)]


# Sizes at and around which something could change
EDGES = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]
# Bytes at and around those where a class could change
NEAR_EDGES = [0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 26, 27, 28, 31, 32, 33, 46, 47, 48, 49, 56, 57, 58, 64, 65, 66, 89, 90, 91, 94, 95, 96, 97, 98, 121, 122, 123, 126, 127, 128, 129, 254, 255]
SMALL_EDGES = EDGES[:15]
LONG = [32767, 32768, 65535, 65536, 65537]     # where the time a match takes does not grow faster than the query


def sized(sizes, *makers):
    """For every size, the words that the makers make"""
    return Fam(words=unique([w for n in sizes for m in makers for w in [m(n)]]))


def quantifies_group(p):
    return re.search(r"\)[*+?{]", p) is not None


# ------------------------------------------------------- a bit of everything

CLASSES = [".", "\\s", "\\S", "\\d", "\\D", "\\w", "\\W", "\\n", "\\N", "\\t", "\\r", "\\f", "\\a", "\\e"]
SETS = ["[a]", "[^a]", "[b-d]", "[^b-d]", "[0-Z]", "[!-~]", "[^!-~]", "[a-zA-Z0-9_]", "[^a-zA-Z0-9]", "[\\d\\s]", "[^\\d\\s]", "[\\w-]", "[^\\W]", "[\\]a\\\\]", "[^\\]^]", "[a^]", "[-a]", "[.*$]",
        "[qwertyuiop]", "[zyxwvutsrqponmlkjihgfedcba]", "[^9876543210]", "[a-cb-de-f]", "[\\n\\t]", "[^\\n]", "[aeiouAEIOU0-9_.,;]"]

# Where - and ^ could be taken for what they are not, and ranges at their edges
ODD_SETS = """[+--] [--/] [^--/] [^+--a] [0-9-z] [^0-9-z] [a-c-e] [^a-c-e] [!-^] [^!-^] [b^-z] [^^-z] [^b^-z] [a-a] [^a-a] [,-.] [--] [^--] [---] [^---] [.-.] [a^-] [^a^-] [\\d-] [^\\d-] [-\\d]
[^-\\d] [\\--] [^\\-\\-] [*-.] [^*-.] [a-b-c-d] [a\\-z] [^a\\-z] [\\^-] [^\\^-] [-^] [^-^] [--9a] [^a-b\\-c] [^a-z-] [^-a-z] [\\^a] [^\\^a] [?-a] [+-+] [$-&.] [a-c][d-f] [^a-c][^d-f]""".split()


def nested(inner, conts, tails, depth, kinds=("(", "(?:")):
    """Every inner at the end of groups in groups, each level and the whole followed by every choice of these"""
    out = []
    for d in range(1, depth + 1):
        for k in unique([tuple(kinds[0] for _ in range(d)), tuple(kinds[-1] for _ in range(d)), tuple(kinds[i % len(kinds)] for i in range(d))]):
            out += x(["".join(reversed(k))], inner, *([[c + ")" for c in conts]] * d + [tails]))
    return unique(out)


def begun(inner, conts, heads, depth, kinds=("(", "(?:")):
    """The same at the beginning of groups"""
    out = []
    for d in range(1, depth + 1):
        for k in unique([tuple(kinds[0] for _ in range(d)), tuple(kinds[-1] for _ in range(d)), tuple(kinds[i % len(kinds)] for i in range(d))]):
            out += x(heads, *([[g + c for c in conts] for g in k] + [inner, [")" * d]]))
    return unique(out)


# A group whose captures are to go when what it is in fails, and what is tried then
def abandoned(bodies, quants, after, others):
    return x(["(?:"], bodies, quants, after, others, [")"])


# What is tried after something that failed deep in groups: it starts where the failed one did
def retried(heads, follows, depth, alts, tails, kinds=("(", "(?:")):
    out = []
    for d in range(2, depth + 1):
        for k in unique([kinds[0] * d, kinds[-1] * d, "".join(kinds[i % len(kinds)] for i in range(d))]):
            out += x([k], heads, ["|x)"], *[[f + a + ")" for f in follows for a in alts]] * (d - 1), tails)
    return unique(out)


def byte_words(t=True):
    cs = range(256) if t else NEAR_EDGES
    return Fam(words=[b""] + [w for c in cs for z in [bytes([c])] for w in (z, z + b"a", b"a" + z)])


# What text is made of: what a library that thought in characters, lines or strings that end could treat apart
UNITS = [b"a", b"\n", b"\r", b"\0", b" ", b"\xc3\xa9", b"\xe2\x82\xac", b"\xef\xbb\xbf", b"\x80", b"\xff"]
MORE_UNITS = [b"b", b"\t", b"\v", b"\x1a", b"\x7f", b"\\", b"%", b"\xc2\x85", b"\xe2\x80\xa8", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f", b"\xbf", b"\xc0\x80", b"\xfe\xff"]


def texts(t=False):
    """Every sequence of up to 3 (4) of these, and of up to 2 (3) of more"""
    few, every = Fam(bytes(range(len(UNITS))), 4 if t else 3).all(), Fam(bytes(range(len(UNITS + MORE_UNITS))), 3 if t else 2).all()
    return Fam(words=unique([b"".join((UNITS + MORE_UNITS)[k] for k in w) for w in few + every]))


TEXTUAL = [".", ".+", "a", "a*", "[^a]", "[^a]*?a", "a?", "\\W", "\\s*", "\\S+", "\\x80", "\\xff?", "\\x00", "\\x{c3a9}", "\\xe2\\x82*", "[^\\n]+", "^.", ".$", "^a*$", "$", "^", "\\N{2}", "(.)(.)?", "(?:.|\\n)+?a", "\\D??$", ".{3}", "(a|[^a])*+"]


def broad(classes=True, escapes=True, counts=True, anchors=True, groups=True, sizes=True, every_byte=True, text=True):
    """A few patterns of every feature: (label, patterns, words)"""
    out = []
    if classes:
        cs = CLASSES + SETS
        out.append(("classes and sets", cs + ODD_SETS + x(cs, ["*", "+?"], ["a"]) + x(["(", "(?:b|"], cs[:7] + cs[14:18], [")+", ")?a"]), byte_words(every_byte)))
    if text:
        out.append(("text", TEXTUAL, texts()))
    if escapes:
        hs = ["00", "01", "09", "0a", "1f", "41", "5A", "5c", "61", "7f", "80", "9a", "aB", "Fe", "ff"]
        forms = ["\\x" + h for h in hs] + ["\\x{%s}" % h for h in hs] + ["\\%03o" % int(h, 16) for h in hs] + ["\\o%03o" % int(h, 16) for h in hs] + ["\\o{%03o}" % int(h, 16) for h in hs] + ["\\x%x" % n for n in (0, 7, 10, 15)]
        forms += ["\\" + c for c in "\\.*+?()[]{}|^$"]
        out.append(("escapes", forms + x(forms[::4], ["*a", "{2}", "g", "8"]), byte_words(every_byte)))
        strings = ["\\x{6162}", "\\o{141142}", "\\x{616261}", "\\x{00ff}", "\\x{6100}"]
        out.append(("byte strings", x(strings, ["", "*", "??", "+", "{2}"], ["", "a", "\\x61"]), Fam(b"ab\x00\xff", 4)))
    if counts:
        for n in [7, 8, 10, 12, 20, 99, 100, 101, 110, 127, 128, 255, 256, 1000]:
            lens = unique([0, 1, n // 10, n % 10, n % 100, n % 128, n - 1, n, n + 1, n + 2, 2 * n])
            out.append(("counts of %d" % n, ["a{%d}" % n, "a{%d,}" % n, "a{%d,%d}b?" % (n - 1, n), "[ab]{1,%d}?b" % n, "(a){%d}" % n, "(?:a|b){2,%d}" % n, "a{0,%d}+a" % n], Fam(words=[b"a" * k + z for k in lens for z in (b"", b"b")])))
        out.append(("counts that do not fit", x(["a", "(?:ab|a)"], [f % n for n in (2**32 - 1, 2**32, 2**32 + 2, 2**64 + 1) for f in ("{%d}", "{1,%d}", "{%d,}?")], ["", "b"]) + ["a{007}", "(a){00,002}b"], AB[6]))
        out.append(("counts", x(["a", "[ab]", "(?:a)"], x(["{0}", "{1}", "{2}", "{0,0}", "{0,1}", "{2,3}", "{1,}", "{3,}"], ["", "?", "+"]), ["", "b"]), AB[6]))
    if anchors:
        out.append(("anchors", ["^", "$", "^a", "a$", "^$", "^a*$", "^a|b", "a|b$", "(?:^|b)a", "a(?:$|b)", "(^a|b)*", "(?:b$|a)+", "^(a|b)+$", "a*?$", "(?:^)?b", "(a)?$", "^[^a]", "[^a]$", "^.*$", "(?:a$)\\n?", "b*(?:^a)"], Fam(b"ab\n", 5)))
        out.append(("bytes next to anchors", ["^a", "a$", "^[^a]", "[^a]$", "^$"], byte_words(every_byte)))
    if groups:
        out.append(("quantified groups", x(["(ab?)", "(?:a|b)", "(?:a(b)|b)", "((a)|b)", "(a*b)", "(?:a?b?)"], ["*", "+", "?", "*?", "+?", "??", "*+", "{2}", "{1,2}", "{2,}?"], ["", "a", "b"]), AB[6]))
        out.append(("long repetitions of groups", ["(?:ab)*", "^(?:a|b)+?$", "(a(b)?)*", "(?:ab){2,}a", "(ab)*+b", "(?:(a)|(b))*"], sized([31, 32, 33, 255, 256, 257, 1023, 1024], lambda n: b"ab" * (n // 2), lambda n: b"a" * n)))
    if groups:
        out.append(("quantified groups that can be empty", x(["(a?)", "(a*?b?)", "(?:(a)|b?)", "(?:(a)?b??)"], ["*", "+", "*?", "+?", "??", "{2}", "{1,2}?", "{2,}?"], ["", "b", "c"]), ABC[5]))
        out.append(("groups in groups", nested(["a*", "[ab]+?", "(?:ab|a)", "a|b", "[^a]", "(?:(a)|b)?"], ["b?"], ["", "a"], 4) + nested(["a+", "[^b]*?", "a|b|c", "(a|b)*"], ["c"], ["b", ""], 4)
                    + begun(["a*", "b??", "a|c"], ["b?", "(?:a|b)"], ["", "a*"], 3), ABC[5]))
        out.append(("abandoned groups", abandoned(["(a)", "(a|b)", "((a)b?)", "(a*b)"], ["*", "*?", "+?", "??", "?", "{2}", "{1,2}", "++"], ["ab", "c"], ["|ac", "|a?(b)c", "|"[:0] + "|[abc]"]), ABC[5]))
    if sizes:
        l = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
        for n in [9, 16, 17, 33]:
            z = l[:n]
            f = Fam(words=unique([w.encode() for w in (z, z[1:], z[:-1], z[::-1], z[n // 2:], z[-1], "x" + z + z, "a" * n, "a" * (n - 1) + "b")]))
            out.append(("%d of everything" % n, [z, "|".join(z), "[%s]+" % z, "[^%s]" % z, "(?:%s)*" % "|".join(z), "b?" * n + "a", "(?:" * n + "a" + ")" * n, "".join("(?:%s" % c for c in z) + ")" * n, "a" * n + "|b"]
                        + (["".join("(%s)" % c for c in z), "|".join("(%s)" % c for c in z), "(" * n + "a" + ")" * n, "".join("(%s)?" % c for c in z)] if n <= 9 else []), f))
        out.append(("long words", ["a", "b", "a*b", "a+?b", "[ab]+", "(a+)(b)", "[^x]*$", "x*?a", "x*+ab", "(?:a|b)c?$", "\\w+"], sized(EDGES[6:], lambda n: b"a" * n + b"b", lambda n: b"x" * n + b"ab")))
    return out


def features(lab, modes, flags=RUN, only=lambda p: True, longest=1 << 20, **which):
    """Runs these; modes: what to compare for a pattern on few words, and on (maybe) long ones"""
    ts = []
    for label, pats, fam in broad(**which):
        large = fam.words is not None and max(map(len, fam.words)) > 60
        if large:
            fam = Fam(words=[w for w in fam.words if len(w) <= longest])
        ts += [Task(p, fam, modes(p, large) if callable(modes) else modes, flags) for p in unique(pats) if only(p)]
    lab.explore(ts, "a few patterns of every feature", per_unit=48)


def numbers(t):
    """Every number of up to 4 (5) digits out of 0 1 7 9, larger ones of fewer, powers of two and ten and their neighbours, sevens"""
    out = [n for k in range(1, 6 if t else 5) for c in itertools.product("0179", repeat=k) for n in [int("".join(c))] if len(str(n)) == k]
    out += [int(a + b * k) for k in range(4, 9) for a in "147" for b in ("0", "9", "5", "7")] + [int("1234567890"[:k]) for k in range(1, 11)] + [int("987654321"[:k]) for k in range(1, 10)]
    out += [2**k + d for k in range(7, 32) for d in (-1, 0, 1)] + [10**k + d for k in range(2, 10) for d in (-1, 0, 1)] + [7**k for k in range(2, 12)] + [700000, 4294967293, 4294967294]
    return sorted(set(out))


# Counts around and over the limits of integers
HUGE = [2**31 - 1, 2**31, 2**31 + 2, 4 * 10**9, 2**32 - 2, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 3, 2**33 + 2, 9999999999, 10**10, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 2, 10**30]


# ------------------------------------------------------------------- C01

def c01(lab):
    t = lab.thorough
    crosscheck(lab, 5 if t else 4)
    two = canonical(seqs(items("ab", ALLQ), 2))
    lab.explore(tasks(two, AB[9 if t else 7], "first"), "an item with any quantifier, then another one")
    few = ["", "*", "+", "?", "*?", "??"] if not t else BACKQ + ["*+", "{2}", "{1,2}", "{1,2}?", "?+"]
    three = canonical(seqs(items("ab", few), 3))
    lab.explore(tasks(three, AB[8 if t else 7], "first"), "three quantified items")
    n = 5 if t else 4
    ex = [p for k in range(1, n + 1) for p in canonical(expressions(k, "ab", QUANTS9, gquants=[]))]
    ex += canonical(expressions(n + 1, "ab", ["*", "??"] if not t else ["*", "+?", "?"], gquants=[]))
    lab.explore(tasks(ex, AB[7], "first"), "every expression with quantifiers on characters only, up to %d symbols" % (n + 1))
    one = items("ab", ["", "*", "?", "*?"])
    part = one + seqs(one, 2)
    alts = x(part, "|", one) + x(one, "|", part)
    if t:
        alts += x(part, "|", part)
    lab.explore(tasks(canonical(alts), AB[7], "first"), "two alternatives of up to two items")
    q = ["", "*", "??"] if not t else ["", "*", "?", "*?", "+?", "++"]
    a, b = items("a", q), items("ab", q)
    heads = x(["(", "(?:"], b, ["|"], b, [")"]) + x(["("], b, a, [")"]) + x(["((?:"], b, ["|"], a, [")"], b, [")"])
    tails = ["", "a", "b", "a*b", "(?:a|b)", "$"] if not t else ["", "a", "b", "a*b", "b*a", "(?:a|b)", "(?:ab|a)", "(b)", "a?$", "$"]
    lab.explore(tasks(canonical(x(heads, tails)), AB[7], "first"), "groups that are not quantified, then something")
    lab.explore(tasks(canonical(x(["a", "b*"], heads, ["a", "b"])), AB[6], "first"), "something, a group, something")
    again = retried(items("a", SIMPLEQ + ["*+", "++", "?+", "{2}", "{1,2}", "{1,2}+", "{2,}?", "{2,}+"]) + ["a++b", "a*b", "a+?b?"], ["c", "b"], 2, ["|a", "|aa?b"], ["b", "c"])
    again += retried(["a*", "a++", "a{1,2}+", "a+", "a??", "ab"], ["c"], 3, ["|a", "|ab", ""], ["c", "b"] if t else ["c"])
    lab.explore(tasks(again, ABC[6 if t else 5], "first"), "alternatives tried after something failed deep in groups", per_unit=48)
    atoms = [".", "[ab]", "[^a]", "\\w", "\\W", "\\n", "\\x61", "\\x{6162}"]
    q = ["", "*", "+?", "?", "*+", "{2}", "{1,2}?"]
    lab.explore(tasks(x(items(atoms, q), items(["a", ".", "[^b]", "\\d", "\\x{6261}"], ["", "*", "?", "+?"] if not t else q)), Fam(b"ab1\n", 6 if t else 4), "first"),
                "items of every kind, in pairs")
    far = Fam(words=sized(EDGES + LONG, lambda n: b"x" * n + b"ab", lambda n: b"x" * n + b"aab" + b"x" * 3).words
              + sized(SMALL_EDGES, lambda n: b"a" * n + b"b", lambda n: b"a" * n, lambda n: b"b" + b"a" * n + b"cb", lambda n: b"ab" * (n // 2)).words)
    lab.explore(tasks(x(["a", "a*", "a*?", "a?", "[ab]+", "[^x]*?", "a++", "(?:a|b)", "(?:ab|a)"], ["", "b", "b*", "(?:a|b)", "c?b", "$", "ab"]), far, "first-caps"), "first matches far into long queries", per_unit=4)
    back = sized(EDGES[::2] + EDGES[-3:] + LONG[::2], lambda n: b"b" + b"a" * n, lambda n: b"b" * 3 + b"a" * n + b"c")
    lab.explore(tasks(x(["^"], ["[ab]", ".", "\\w"], ["*", "+", "{1,}", "*?", "+?"], ["b", "ba", "bac"]) + x(["[ab]*", ".+"], ["b", "ba?b?"]), back, "first-caps"), "taking back, or taking more, many times over", per_unit=2)
    last = ["ba*", "[ab]*", "a|ab", "a??", "ba+?"] if t else ["ba*", "a|ab", "a??"]
    lab.explore(tasks([k[0] * n + i + k[1] * n + z for n in list(range(1, 17)) + [20, 24, 31, 32, 33] for k in [("(", ")"), ("(?:", ")"), ("(", "b?)"), ("(?:c?", ")")] for i in last for z in (["a$", "ab", "b", "a?a"] if t else ["a$", "b"])
                       if n <= 14 or k[0] != "("] + ["[ab]*" + "b?" * n + "a" for n in (5, 9, 15, 16, 17, 33)] + [i + "b{0}" * n + "a$" for i in last for n in (5, 9, 17, 33)], AB[5], "first"), "something at the end of many groups, and what follows them", per_unit=12)
    features(lab, "first", only=lambda p: not quantifies_group(p), groups=False)
    if t:
        lab.explore(tasks(canonical(seqs(items("ab", ALLQ), 3)), AB[7], "first"), "three items with any quantifier")
        lab.explore(tasks(canonical(seqs(items("ab", SIMPLEQ), 4)), AB[7], "first"), "four items with any simple quantifier")
        lab.explore(tasks(canonical(expressions(6, "ab", QUANTS9, gquants=[])), AB[7], "first"), "every expression of 6 symbols, quantifiers on characters")


def crosscheck(lab, n):
    """The reference model against another engine (CPython's re): every
    expression of up to n symbols, all of its matches and groups"""
    exe = lab.path("refcli")
    r = call([CXX, "-std=c++23", "-O2", "-w", "-I" + LIB, os.path.join(LIB, "refcli.cpp"), "-o", exe], 300)
    if r[0] != 0:
        raise Broken("refcli: " + first_error(r[2]))
    pats = [p for k in range(1, n + 1) for p in canonical(expressions(k, "ab", QUANTS9))]
    code, out, err = call([exe, "ab", "5"], 900, stdin="".join(p.encode().hex() + "\n" for p in pats).encode())
    words = [w.decode() for w in AB[5].all()]
    lines = out.decode().splitlines()
    if code != 0 or len(lines) != len(pats):
        raise Broken("refcli ended with %s" % code)
    for p, line in zip(pats, lines):
        r = re.compile(p)
        for w, got in zip(words, line.split("|")):
            want, pos = "", 0
            while pos <= len(w):
                m = r.search(w, pos)
                if not m:
                    break
                want += ",".join("%d,%d" % m.span(g) for g in range(r.groups + 1)) + ";"
                pos = m.end() + (m.end() == m.start())
            if want != got:
                raise Broken("the reference model and CPython's re differ on /%s/ '%s': %s, %s" % (p, w, got, want))
    lab.extra["reference_model_crosschecked"] = "%d patterns x %d words equal to CPython's re, all matches and groups" % (len(pats), len(words))


# ------------------------------------------------------------------- C02

BODIES = ["a", "ab", "a|b", "ab|a", "a|ab", "a?b", "a*b", "ba*", "a?", "a*", "a+?b?", "a??b", "b|ab?"]
GQ = ["*", "+", "?", "*?", "+?", "??", "*+", "++", "?+", "{2}", "{0,2}", "{1,2}?", "{2,}", "{2,}+"]


def c02(lab):
    t = lab.thorough
    ex = [p for k in range(1, 5) for p in canonical(expressions(k, "ab", QUANTS9))]
    ex += canonical(expressions(5, "ab", QUANTS9 if t else ["*", "+?", "?"]))
    if t:
        ex += canonical(expressions(6, "ab", ["*", "+", "??", "?+"]))
    lab.explore(tasks(filter(quantifies_group, ex), AB[7], "first-rep"), "every expression with a quantified group, up to %d symbols" % (6 if t else 5))
    pre = ["", "a*", "b?"] if t else ["", "a*"]
    tail = ["", "a", "b", "ab", "a*b", "(?:a|b)b", "$"] if t else ["", "a", "b", "ab"]
    lab.explore(tasks(x(pre, ["(?:"], BODIES, [")"], GQ, tail), AB[8 if t else 7], "first-rep"), "quantified groups between items")
    lab.explore(tasks(x(["(?:(", "((?:"], BODIES, [")"], GQ, [")"], ["a", "b"]) + x(["(?:a|("], BODIES, [")"], GQ, [")b"]), AB[7], "first-rep"),
                "quantified groups at the end of a group, with what needs them after it")
    q1 = ["*", "+?", "?", "++", "{2}"] if not t else GQ
    lab.explore(tasks(x(["(?:(?:"], ["a", "ab", "a|ab", "a?"] if not t else BODIES, [")"], q1, ["", "b"], [")"], q1, ["", "a", "b"]), AB[7], "first-rep"),
                "quantified groups in quantified groups")
    lab.explore(tasks(filter(quantifies_group, nested(x(["(?:"], ["a", "a|b", "ab?", "a*b"], [")"], ["*", "+?", "?", "{2}"]), ["", "b?", "a", "c"] if t else ["b?", "a"], ["", "a", "b"], 3)), ABC[6 if t else 5], "first-rep"), "quantified groups in groups in groups, each followed by something")
    many = sized(EDGES[:12], lambda n: b"ab" * (n // 2), lambda n: b"a" * n, lambda n: b"a" * n + b"b", lambda n: b"aab" * (n // 3) + b"a", lambda n: b"x" * 5 + b"ba" * (n // 2) + b"b")
    more = sized(EDGES[12:] + LONG, lambda n: b"ab" * (n // 2), lambda n: b"a" * n, lambda n: b"aab" * (n // 3) + b"a")
    lab.explore(tasks(x(["^(?:ab)", "^(?:a)", "^(?:a|b)", "^(?:a?b?)", "^(?:(?:a)+b?)"], ["*", "+?", "{2,}", "*+", "{3,300}", "{300}", "{4096}"], [""]) + ["^(?:ab)*$", "^(?:ab)*?$", "^(?:a|b)*a", "^(?:a|b)*?$", "^(?:ab){2,}a", "^(?:a)*b?$"], more, "first-rep"), "very many repetitions of groups", per_unit=4)
    lab.explore(tasks(x(["(?:ab)", "(?:a)", "(?:a|b)", "(?:aab?)", "(?:a?b?)", "(?:a*b)", "(?:(?:a)+b?)"], ["*", "+?", "{2,}", "*+", "{3,300}", "{300}"], ["", "a", "b", "$"]), many, "first-rep"), "many repetitions of groups", per_unit=8)
    back = sized(EDGES[::3] + EDGES[-3:], lambda n: b"b" + b"a" * n, lambda n: b"b" * 2 + b"a" * n + b"c")
    lab.explore(tasks(x(["^"], ["([ab])", "(?:[ab])", "(a|b)", "(?:b|a)", "(?:a|(b))"], ["*", "+", "{1,}", "*?", "+?"], ["b", "ba?b?", "c"]), back, "first-rep"), "groups that give back, or take more, many times over", per_unit=2)
    lab.explore(tasks(x(["(?:"], ["^a", "a$", "^", "$", "a\\n?", ".$"], [")"], GQ, ["", "a", "b$"]), Fam(b"ab\n", 6 if t else 5), "first-rep"), "quantified groups with anchors")


    kinds = ["\\d", "\\W", "[^a]", ".", "\\x{6162}", "\\n", "\\x00", "[a-c1]", "\\s"]
    lab.explore(tasks([(g % ((k,) * g.count("%s"))) + q + z for g in ["(?:%sa)", "(?:a|%s)", "(?:%s%s?)", "(%s*?a)"] for k in kinds for q in (["*", "+?", "?", "{2}", "++"] if not t else GQ) for z in ["", "a"]],
                      Fam(b"ab1\n\x00", 5 if t else 4), "first-rep"), "quantified groups of every kind of item")
    features(lab, "first-rep", only=quantifies_group)


# ------------------------------------------------------------------- C03

def brackets(depth_pairs):
    """Every arrangement of that many pairs of brackets, with characters around them"""
    def build(n):
        if n == 0:
            return [""]
        out = []
        for inner in range(n):
            for i in build(inner):
                for rest in build(n - 1 - inner):
                    for g in ("(", "(?:"):
                        out.append(g + "%" + i + ")" + rest)
        return out
    res = []
    for s in build(depth_pairs):
        k = iter("abcdefgh" * 2)
        res.append("".join(next(k) if c == "%" else c for c in s))
    return res


def c03(lab):
    t = lab.thorough
    ex = [p for k in range(1, 5) for p in canonical(expressions(k, "ab", ["*", "+", "?", "*?", "?+"]))]
    ex += canonical(expressions(5, "ab", ["*", "??"], groups=("(",)))
    if t:
        ex += canonical(expressions(5, "ab", QUANTS9)) + canonical(expressions(6, "ab", ["*", "+?", "?"]))
    lab.explore(tasks([p for p in ex if "(" in p.replace("(?:", "")], AB[7 if t else 6], "caps-api", RUN | API), "every expression with a capturing group")
    arr = [p for k in range(1, 5 if t else 4) for p in brackets(k)]
    fam = Fam(words=unique([w.encode() for k in range(0, 5) for w in ["abcdefgh"[:k], "x" + "abcdefgh"[:k] + "y", "abcdefgh"[:k] * 2, "abcdefgh"[:k][::-1]]]))
    arr += [p.replace(")(", ")|(") for p in arr if ")(" in p] + [p.replace(")", ")?") for p in arr] + [p.replace(")", ")*") for p in arr if t]
    lab.explore(tasks(arr, fam, "caps-api", RUN | API), "every arrangement of brackets")
    tmpl = x(["(a)|(b)", "(a)|b", "(a|(b))", "((a)|b)", "(?:(a)|(b))", "((a)(b)?)", "(a(b)?)", "(?:(a)|b)", "(a?)(b?)", "(a*?)(b*)", "(a)??(b)"], ["", "b", "c", "$"])
    tmpl += x(["(?:(a)|(b))", "(?:(a)|b)", "((a)|(b))", "(a(b)?)", "(?:(a)(b)?)", "(?:(a)|(b)|c)", "(?:(a?)(b?)c)"], ["*", "+", "?", "*?", "+?", "*+", "{2}", "{2,3}?"], ["", "b", "c", "(a|c)"])
    tmpl += x(["(a)c|a(b)", "(a)b(c)|(a)bb", "(ab?)(c|bc)", "((a)b|(a)c)", "(?:(a)b|a(c)|(a))", "(a)(?:b|(c))", "(?:(a)b)?(a)"], ["", "a", "$"])
    lab.explore(tasks(tmpl, ABC[6 if t else 5], "caps-api", RUN | API), "alternatives, optional and repeated groups")
    gone = abandoned(["(a)", "(a|b)", "(a(b)?)", "((a)b?)", "(?:(a)|(b))", "(a*?b?)"], GQ if t else ["", "*", "+", "?", "*?", "+?", "??", "*+", "?+", "{2}", "{1,2}", "{1,2}?", "{2,}"], ["ab", "bc", "c", "b*c"], ["|ac", "|aac", "|(a)[bc]"] + (["|a|b", "|aab", "|a?(b)?c"] if t else []))
    gone += x(["(?:"], abandoned(["(a)", "(a|b)"], ["*", "*?", "{2}", "+", "?"], ["ab", "c"], ["|ac"]), ["*", "+?", "?"], ["b", "c"], ["|(a)a|b)"])
    gone += x(["(?:(?:a|(b))", "(?:(a)?", "(?:(a)*?", "(?:(a){1,2}"], ["(b)*", "(b)??", "(b){2}", "(?:(b)|c)+?", "(a)?"], ["c", "ab", "$"], ["|a)", "|[ab]+)"], ["", "c?"])
    gone += abandoned(["((a)(b)?)", "((a)|(b))", "(((a)b?))", "(?:(a)(b)?(c)?)"], ["*", "*?", "?", "*+", "++", "?+", "{2}", "{1,2}", "{2,}"], ["c", "b*c", "ab"], ["|a[abc]", "|(a)b"])
    lab.explore(tasks(gone, ABC[6 if t else 5], "caps-api", RUN | API), "groups of every quantifier, abandoned for an alternative")
    lab.explore(tasks(nested(["(a)*", "(a|b)+?", "(?:(a)|b)", "(a)?b", "(a*)"], ["b?", "(b)?", "c"] if not t else ["", "b?", "(b)?", "c", "(?:(b)|c)"], ["", "a", "(a)"], 3), ABC[5], "caps-api", RUN | API), "captures in groups in groups, each followed by something")
    many = ["".join("(%s)" % c for c in "abcdefghijk"[:n]) for n in range(1, 12)]
    many += ["|".join("(%s)" % c for c in "abcdefghijk"[:n]) for n in range(2, 12)]
    many += ["(" * n + "a" + ")" * n for n in range(1, 12)]
    many += ["".join("(%s" % c for c in "abcdefghijk"[:n]) + ")" * n for n in range(2, 12)]
    many += ["(?:" + "|".join("(%s)" % c for c in "abcdefghijk"[:n]) + ")*" for n in range(2, 12)]
    ws = unique([b"abcdefghijk"[i:j] for i in range(0, 11) for j in range(i, 12)] + [b"kab", b"xaabbk", b"jjk"])
    lab.explore(tasks(many, Fam(words=ws), "caps-api", RUN | API), "up to 11 groups, in a row, nested, as alternatives")
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#%&=~;:,"
    hordes = []
    for n in [12, 13, 15, 16, 17, 18, 31, 32, 33] + ([20, 24, 47, 48, 63, 64, 65] if t else [64, 65]):
        l = letters[:n]
        some = ["".join("(%s)" % c for c in l), "|".join("(%s)" % c for c in l), "(?:" + "|".join("(%s)" % c for c in l) + ")*", "".join("(%s)?" % c for c in l)]
        if n <= 33:
            some += ["(" * n + "a" + ")" * n, "".join("(%s" % c for c in l) + ")" * n]
        f = Fam(words=unique([l.encode(), l.encode()[1:], l.encode()[:-1], l.encode()[::-1], l.encode()[n // 2:], l.encode()[:1], b"x" + l.encode() * 2, l[::2].encode(), l[::3].encode() + l.encode()]))
        hordes += tasks(some, f, "walk", WALK)
    lab.explore(hordes, "from 12 to 65 groups", per_unit=1 if t else 2)
    most = []
    for n in ([12, 16, 17, 33] if not t else [12, 15, 16, 17, 31, 32, 33, 64, 65]):
        l = letters[:n]
        f = Fam(words=unique([l.encode(), l.encode()[1:], b"x" + l.encode() * 2, l[n // 2:].encode(), l[-1:].encode()]))
        most += tasks(["".join("(%s)" % c for c in l), "|".join("(%s)" % c for c in l)], f, "caps-api" if n == 12 else "walk-api", RUN | API | WALK)
    for n in ([130] if not t else [100, 127, 128, 129, 130, 200]):
        f = Fam(words=unique([b"a" * n, b"b" + b"ab" * (n // 2) + b"a", b"a" * (n - 1)]))
        most += tasks(["(a)" * (n - 1) + "(b)?", "(a)?" * 5 + "([ab])" * (n - 5)], f, "walk", WALK)
    most += tasks(["(a)" * 257 + "(b)?"], Fam(words=[b"a" * 257, b"ab" + b"a" * 257 + b"b"]), "walk", WALK)
    lab.explore(most, "every way to read up to 33 groups (thorough: 65), and more than 128", per_unit=1)
    features(lab, lambda p, large: "first-caps" if large else "caps-api", RUN | API, only=lambda p: "(" in p.replace("(?:", "").replace("\\(", ""))
    lab.explore(tasks([g % c for g in ["(%s)", "(%s)(a)?", "(?:(%s)|(a))+", "((%s)a)*", "(%s*?)(a)"] for c in CLASSES + SETS[:12]], byte_words(t), "caps"), "groups of classes and sets")
    texts = sized(EDGES[6:] + LONG[2:], lambda n: b"a" * n + b"b", lambda n: b"a" * n + b"-" + b"b" * (n // 2), lambda n: b"ab" * (n // 2))
    lab.explore(tasks(["(a*)(b*)", "(a+)-?(b*)", "((a|b)+)", "(a(b)?)*", "(?:(a)|(b))*", "(a+?)(b|$|-)", "x?(a{2,})(-)?"], texts, "walk", WALK), "long texts in groups", per_unit=1)


# ------------------------------------------------------------------- C04

def c04(lab):
    t = lab.thorough
    q = ["", "*", "+", "?", "*?", "??", "+?", "*+", "{2}", "{0,2}"]
    its = canonical(items("ab", q) + seqs(items("ab", q if t else ["", "*", "?", "*?", "+?", "{2}"]), 2))
    lab.explore(tasks(its, AB[8 if t else 7], "iterate", RUN | RANGE), "up to two items")
    anch = x(["", "^"], ["a", "a*", "a*?", "a?", "[^a]*", ".", ".*", "\\n?", "(?:a|b)*"], ["", "b", "b*"], ["", "$"])
    anch += ["^", "$", "^|a", "a|^", "a|$", "$|a", "(?:^)a", "(?:^|b)a", "a(?:$|b)", "^|$", "(?:^|$)", "(^)(a)?", "(a)?($)", "^(?:a$|^)", "(?:^a|b)$", "^^"[:1], "\\n|^", "(?:^)?a", "(?:a|^b)*"]
    lab.explore(tasks(anch, ABNL[7 if t else 6], "iterate", RUN | RANGE), "anchors, empty matches and newlines")
    ex = [p for k in range(1, 5) for p in canonical(expressions(k, "ab", QUANTS3 + ["*?", "??"]))] + canonical(expressions(5, "ab", ["*", "??"]))
    if t:
        ex += canonical(expressions(5, "ab", QUANTS9))
    lab.explore(tasks(ex, AB[7], "iterate", RUN | RANGE), "every expression")
    long = sized([46, 47, 48, 49, 50] + EDGES + LONG[2:], lambda n: b"a" * n, lambda n: b"ab" * (n // 2), lambda n: b"b" * n + b"a", lambda n: (b"a" * 7 + b"\n") * (n // 8), lambda n: b"a" + b"b" * n + b"a" + b"b" * n + b"a")
    lab.explore(tasks(["a", "b", "a?", "a*", "ab?", "a*?", "(?:ab)?", "^a", "a$", "^", "$", ".", "\\n|^a", "aa", "[^a]*", "b?a"], long, "walk", WALK), "thousands of matches, far apart and near", per_unit=1)
    features(lab, "iterate", RUN | RANGE, longest=60)
    lab.explore(tasks(unique(TEXTUAL + x(["a", "\\n", "[^a]", "\\s", "."], ["*", "??", "*?"], ["", "$", "a?"])), texts(t), "iterate", RUN | RANGE), "text of every kind, step by step")
    sets = x(["\\d", "\\w", "\\s", "[^a]", ".", "\\x{6161}", "[a-c]", "\\N", "\\W"], ["", "+", "*", "*?", "{2}", "?"], ["", "a", "\\s"])
    lab.explore(tasks(sets, Fam(b"a1 \n", 6 if t else 5), "iterate", RUN | RANGE), "classes and sets")


# ------------------------------------------------------------------- C05

REALISTIC = [
    (r"[a-z]+@[a-z]+\.[a-z]{2,3}", b"a@.b", 7),
    (r"[\w.+-]+@[\w-]+\.[\w.-]+", b"a@.-", 7),
    (r"[\w]+://[^/\s?#]+[^\s?#]+(?:\?[^\s#]*)?(?:#[^\s]*)?", b"a:/?#", 8),
    (r"(?:(?:25[0-5]|2[0-4]\d|1\d\d|\d?\d)\.){3}(?:25[0-5]|2[0-4]\d|1\d\d|\d?\d)", b"25.", 9),
    (r"(\d+)-(\d+)-(\d+)", b"01-", 8),
    (r"(\d{4})-(\d{2})-(\d{2})", None, [b"1970-01-01", b"970-01-01", b"x1970-01-011", b"1970-1-01", b"1970-01-0", b"19700-01-01", b"1970-01-01 1999-12-31"]),
    (r"-?\d+(?:\.\d+)?(?:[eE][+\-]?\d+)?", b"-1.e+", 7),
    (r"\"(?:[^\"\\]|\\.)*\"", b"\"\\a", 9),
    (r"'[^']*'|\w+", b"'a ", 9),
    (r"\/\*.*?\*\/", b"/*a", 9),
    (r"\/\/.*$", b"/a\n", 8),
    (r"[A-Za-z_]\w*", b"a_1 ", 7),
    (r"#[0-9a-fA-F]{3}(?:[0-9a-fA-F]{3})?", b"#f0g", 8),
    (r"\s*(\w+)\s*=\s*(\w*)\s*", b"a= ", 9),
    (r"<(\w+)>[^<]*</(\w+)>", b"<>/a", 8),
    (r"(?:[01]\d|2[0-3]):[0-5]\d", b"0123:", 6),
    (r"\+?\d{1,3}[ -]?\d{2,4}", b"+1- ", 8),
    (r"^\s*$", b" \ta\n", 6),
    (r"(?:foo|foobar|fo)(?:bar)?", None, [b"foo", b"foobar", b"foobarbar", b"fo", b"f", b"fobar", b"xfoobarx", b"fofoo", b"foobfoobar"]),
    (r"(a+)(b+)?c?", b"abc", 7),
    (r"\{[^\{\}]*\}", b"{}a", 8),
    (r"\([^\(\)]*\)", b"()a", 8),
    (r"(?:a(?:b(?:c)?)?)+", b"abc", 7),
    (r"\d+\s+123", b"123 ", 7),
    (r".{3,}", b"ab\n", 7),
    (r"a.*b.*c", b"abc\n", 6),
    (r"(?:ab?)*?c|b+", b"abc", 7),
]


def c05(lab):
    t = lab.thorough
    ts = []
    for p, alpha, n in REALISTIC:
        fam = Fam(words=n) if alpha is None else Fam(alpha, n)
        complete = not quantifies_group(p) and not re.search(r"[*+?}]\+", p)
        ts.append(Task(p, fam, "sound-complete" if complete else "sound"))
    lab.explore(ts, "patterns people write", per_unit=4)

    def by_kind(pats, fam):
        pats = unique(pats)
        weak = [p for p in pats if quantifies_group(p) or re.search(r"[*+?}]\+", p)]
        return tasks(weak, fam, "sound") + tasks([p for p in pats if p not in set(weak)], fam, "sound-complete")
    ex = [p for k in range(1, 5) for p in canonical(expressions(k, "ab", QUANTS9))] + canonical(expressions(5, "ab", QUANTS9 if t else ["*", "+?"]))
    lab.explore(by_kind(ex, AB[7]), "every expression")
    features(lab, lambda p, large: "sound" if quantifies_group(p) or re.search(r"[*+?}]\+", p) else "sound-complete", longest=500)
    atoms = ["a", "b", "[ab]", "[^a]", ".", "\\x{6162}", "(a|b)", "(?:ab|a)", "(a?b)", "(ab?)"]
    q = ["", "*", "+", "??", "{2}", "{1,2}"] if not t else ["", "*", "+", "?", "*?", "??", "{2}", "{1,2}", "{2,}?"]
    lab.explore(by_kind(seqs(items(atoms, q), 2), ABC[6 if t else 4]), "two items of every kind")
    if t:
        lab.explore(by_kind(seqs(items(atoms, ["", "*", "?"]), 3), AB[6]), "three items of every kind")


# ------------------------------------------------------------------- C06

def c06(lab):
    t = lab.thorough
    m = dict(mode="contained")
    strings = ["ab", "aba", "abab", "a\\x00b", "\\x{6162}", "\\x{616261}", "\\x00", "\\xff", "\\x{ff00}", "\\o{141142}", "\\141"]
    classes = [".", "\\s", "\\S", "\\d", "\\D", "\\w", "\\W", "\\n", "\\N", "\\t", "\\r", "\\f", "\\a", "\\e", "[ab]", "[^ab]", "[a-c]", "[^a-c]", "[^\\n]", "[\\w]", "[^\\d]", "$", "^", "^a", "a$", ".$"]
    q = ["", "*", "+", "?", "*?", "+?", "??", "*+", "++", "{2}", "{3}", "{2,}", "{1,3}", "{1,3}?", "{2,}+"]
    single = x([s for s in strings + classes if "$" not in s and "^" not in s[:1]], q, ["", "a", "b", "$", "(?:ab|b)"])
    single = [p for p in single if not re.match(r"(ab|aba|abab|a\\x00b)[*+?{]", p)] + [s for s in strings + classes]
    single += x(["(ab)", "(?:aba)", "(a|ab)", "(?:^a)", "(a$)", "(\\x{6162})"], q, ["", "a", "b"])
    lab.explore(tasks(single, Fam(b"a b\x00\xff" if t else b"ab\x00\xff", 5 if t else 4), **m), "every kind of node, quantified, then something")
    ex = [p for k in range(1, 5) for p in canonical(expressions(k, "ab", QUANTS3 + ["*?", "++"]))]
    if t:
        ex += canonical(expressions(5, "ab", QUANTS9))
    lab.explore(tasks(ex, AB[6 if t else 5], **m), "every expression")
    anch = x(["", "^"], ["a", "a*", "a*?", ".", "\\n", "\\n?", "(a|b)*", "[^a]+", "(?:a\\n)+"], ["", "b?"], ["", "$"]) + ["^", "$", "^|$", "a|^", "a|$", "(?:^|a)b", "a(?:$|b)", "(?:^a|b$)*", "a|$|b"]
    lab.explore(tasks(anch, Fam(b"ab\n", 6 if t else 5), **m), "anchors: nothing outside counts as a line")
    features(lab, "contained", every_byte=False)
    far = sized([255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537], lambda n: b"a" * n, lambda n: b"x" * n + b"a", lambda n: b"x" * (n - 1) + b"ab", lambda n: b"ab" * (n // 2) + b"\n")
    lab.explore(tasks(["a", "ab", "^a*b", "^a+$", "\\x{6162}", "[^x]", "(?:ab)*", "^x*a", "^x*ab", ".*", "\\n$", "(a)(b)?$", "abc", "a{3}b|$"], far, **m), "long queries", per_unit=2)
    lab.explore(tasks(["\\x{%s}" % ("61" * n) for n in range(1, 9)] + ["a" * n for n in range(1, 9)] + ["(?:%s)?b" % ("a" * n) for n in range(1, 9)] + ["%s|b" % ("a" * n) for n in range(1, 9)]
                      + ["a{%d}" % n for n in range(0, 9)] + ["a{%d,}b?" % n for n in range(0, 9)] + ["[^b]{%d,%d}" % (n, n + 2) for n in range(0, 9)], AB[9], **m), "strings and counts longer than the query")


# ------------------------------------------------------------------- C07

def c07(lab):
    t = lab.thorough
    n = 15 if not t else 31
    ex = [p for k in range(1, 5) for p in canonical(expressions(k, "ab", QUANTS9 if t else ["*", "+", "??", "?+"]))]
    ex += canonical(expressions(5, "ab", ["*?"] if not t else ["*", "+?", "?"]))
    lab.explore(tasks(ex, AB[3 if not t else 4], "compile-time", RUN, n), "every expression", per_unit=48)
    feats = [".", "\\s", "\\S", "\\d", "\\D", "\\w", "\\W", "\\n", "\\N", "\\t", "\\r", "\\f", "\\a", "\\e", "[a1]", "[^a1]", "[a-z]", "[^\\d]", "\\x61", "\\x{6131}", "\\o{141}", "\\141", "^", "$", "^a", "a$", "^$"]
    pats = feats + x([f for f in feats if f[0] not in "^" and f[-1] != "$"], ["*", "+?", "{2}", "?+", "{1,2}"], ["", "a", "$"]) + x(["(", "(?:"], [f for f in feats], [")"], ["", "*", "+?"], ["1?"])
    ws = Fam(words=[b"", b"a", b"1", b"\n", b" ", b"aa", b"a1", b"1a", b"a\n", b"\na", b"\n\n", b"a\na", b"\t\r\f\x07\x1b", b"\x00", b"\xff", b"aa1\n", b"a 1", b"a1a1"])
    lab.explore(tasks(pats, ws, "compile-time", RUN, len(ws.words)), "every kind of node", per_unit=48)
    near = [bytes([c]) for c in NEAR_EDGES]
    cw = Fam(words=near + [z + b"a" for z in near[::5]])
    hx = ["\\x00", "\\x7f", "\\x80", "\\xFf", "\\x{a}", "\\x9", "\\200", "\\o377", "\\o{012}", "\x80", "\xff", "\x01", "[\x80-\xff]", "[^\x90-\xa0]", "[\x80-\xa0a]", "[\x01-\x1f]", "\\*", "\\\\", "-", "_"]
    lab.explore(tasks(CLASSES + SETS + (ODD_SETS if t else ODD_SETS[::3]) + hx + x(CLASSES[:7] + SETS[:8] + hx[12:16], ["+", "?a"] if not t else ["*", "+", "?a", "*?a", "{2}", "++"]), cw, "compile-time", RUN, len(cw.words)), "every class, sets and bytes at and around the edges of classes", per_unit=6)
    cs = Fam(words=[b"", b"a", b"aa", b"aaa", b"a" * 4 + b"b", b"a" * 9, b"a" * 10 + b"b", b"a" * 11, b"ab" * 6, b"b" + b"aab" * 5, b"abcabc", b"ba" * 12])
    counts = x(["a", "[ab]", "(a)", "(?:ab?)"], ["{0}", "{1}", "{3}", "{0,2}", "{2,}", "{10}", "{1,10}", "{9,11}"], ["", "?", "+"] if t else ["", "?"], ["", "b"])
    counts += nested(["a*", "[ab]+?", "a|b", "(?:(a)|b)?"], ["b?", "c"], ["", "a"], 2) + abandoned(["(a)", "(a|b)", "((a)b?)"], ["*", "*?", "?", "{2}"], ["ab", "c"], ["|ab?(c)", "|[abc]"])
    counts += ["|".join("abcdefghijk"[:n]) for n in (5, 11)] + ["(%s)" % ")|(".join("abc"[:n]) for n in (2, 3)] + ["(((((a)))))b?", "(a)(a)?(a)?(a)?(b)?", "(?:(a)|(b)|(c))*", "a?a?a?a?aaaa", "(a*)*", "(?:a*?b?)+c", "(a|b)*?c"]
    lab.explore(tasks(counts, cs, "compile-time", RUN, len(cs.words)), "counts, groups in groups and abandoned ones", per_unit=24)
    far = Fam(words=unique([w for n in ([63, 64, 65, 127, 128, 129, 255, 256, 257] + ([511, 512, 513, 1024, 2048] if t else [513])) for w in (b"a" * n, b"x" * n + b"ab", b"b" + b"a" * n + b"c")]))
    lab.explore(tasks(["a*", "a+?$", "a++", "^b?a*b|c", "[ab]*b", "(a)*", "(?:a|b)+", "(?:a|b)*?c", "x*?ab", "ab", "(a*)(b*)", "\\w*$", "a{60,}", "[^c]+c", "(?:aa)*+a?"], far, "compile-time", RUN, len(far.words)), "long queries", per_unit=1)
    real = []
    for p, alpha, k in REALISTIC:
        words = k if alpha is None else [alpha, alpha * 2, alpha[::-1], b"", alpha[:1] * 5]
        words += [b"user@host.com", b"http://a.b/c?d#e", b"192.168.2.25", b"1970-01-01", b"-1.5e+7", b'"a\\"b"', b"/* x */ // y\n", b"#ff00aa", b"key = value", b"12:30", b"foobar"]
        real.append(Task(p, Fam(words=words), "compile-time", RUN, len(words)))
    lab.explore(real, "patterns people write", per_unit=4)
    lw = Fam(words=[b"ab" * 10, b"a" * 31, b"a" * 32, b"a" * 33, b"x" * 40 + b"ab", b"a" * 63 + b"b", b"a" * 64 + b"b", b"a" * 65 + b"\n" + b"b" * 66, b"ab " * 45, b"b" * 127 + b"a", b"b" * 128 + b"a", b"b" * 129 + b"a", b"x" * 255 + b"a", b"x" * 256 + b"ab", b"x" * 257 + b"abab", b"ab" * 150] + ([b"ab" * 500, b"x" * 1030 + b"a"] if t else []))
    long = ["a", "a*", "a+?b", "(a)(b)", "(?:ab)*", "(a|b)*", "[^x]+", "\\w+", "(\\w+)\\s", "a{2}", "a{30,}", "(?:a{4}){4}", "^b", "b$", "x*+a", "\\x{6162}", "(a(b)?)+", "b*a$", "\\W|^x", "((a)b|x)"]
    lab.explore(tasks(long, lw, "compile-time", RUN, len(lw.words)), "long queries", per_unit=3)
    for n, pats in [(320, ["a", "[ab]*?b", "(?:a|b)*b?a", "(a|b)*?ab", "a*", "(a)+b", "\\w+", "^b", "b$", "x*+a", "(?:ab)+", "(a+?)(b|$)"]), (600, ["a", "a*b", "b", "(a|b)*", "[^x]*$"]), (1100, ["a", "a*b", "\\w*?b", "(?:a|b)*"])] + ([(4200, ["a", "a*b", "b$"])] if t else []):
        lw = Fam(words=[b"a" * n, b"a" * n + b"b", b"x" * n + b"a", b"ab" * (n // 2), b"x" * (n - 9) + b"ab\nab\na"])
        lab.explore(tasks(pats, lw, "compile-time", RUN, len(lw.words)), "queries of about %d bytes" % n, per_unit=1)
    faces = ["a", "(a)", "(a)(b)?", "((a)|b)c?", "a*", "(a*)", "(a?)(b?)(c?)", "(?:(a)|(b))*", "^", "$", "(^)a?", "a(?:$)", "(a)(b)(c)", "(.)(.)?(.)?", "[^a]", "\\w+", "a|(b)", "(a)|(b)|(c)", "(?:ab)+?", "(a{2})", "a++", "(\\d+)-(\\d+)-(\\d+)"]
    fw = Fam(words=[b"", b"a", b"b", b"ab", b"abc", b"cab", b"aab", b"bca", b"a\nb", b"zaaa1", b"1970-01-01 2-3-4", b"a\0b", b"\0ab", b"b\0"])
    lab.explore(tasks(faces, fw, "compile-time", RUN | CTAPI, len(fw.words)), "every way to read and step a result", per_unit=6)
    lab.assumptions.append("Queries at compile time have up to 1101 bytes (thorough: 4201); g++'s constant evaluator is the one asked.")


# ------------------------------------------------------------------- C08

def c08(lab):
    t = lab.thorough
    m = dict(mode="equivalent", flags=RUN | TREE)
    if not lab.has_trees():
        m = dict(mode="caps")
        lab.assumptions.append("lib/tree.hpp does not compile with this tree: compared with the reference model instead")
    ex = [p for k in range(1, 5) for p in canonical(expressions(k, "ab", ["*", "+", "?", "*?", "+?", "??"]))] + canonical(expressions(5, "ab", ["*", "??"] if not t else ["*", "+", "?", "*?", "+?", "??"]))
    if t:
        ex += canonical(expressions(6, "ab", ["*", "??"]))
    lab.explore(tasks(ex, AB[7], **m), "every expression")
    A = ["a", "[ab]", "[^a]", ".", "\\w", "\\W", "\\d", "\\x{6162}", "(?:a|b)", "(ab)", "\\n", "[^\\n]"]
    Q = ["*", "+", "?", "*?", "??", "{1,2}", "{2,}?"] if not t else BACKQ[1:] + ["{2}", "{1,2}", "{1,2}?", "{2,}", "{2,}?", "{0,1}"]
    F = ["a", "b", "[ac]", ".", "\\w", "\\W", "\\x{6131}", "$", "a?b", "b*1", "b??a", "(?:b|a)", "(?:1|b*a)", "(?:b?)a", "b{0,2}a", "\\n", "[^b]"]
    fam = Fam(b"ab1\n", 5 if t else 4)
    lab.explore(tasks(x(A, Q, F), fam, **m), "a quantified item, then what it could give back to")
    wraps = ["(%s)%s", "(?:%s)%s", "(?:b|%s)%s", "(?:%s|b)%s", "(?:(?:%s))%s", "((b)?%s)%s", "(?:%s)?%s", "(?:%s)*%s", "(?:%s){2}%s", "(?:%sb?)%s", "(?:%s(?:$|b))%s", "(?:%s|%%s)a" % "b"]
    q = ["*", "+?", "?"] if not t else ["*", "+", "?", "*?", "+?", "??", "{1,2}"]
    inner = x(["a", "[ab]", ".", "(?:ab)"], q)
    F2 = ["a", "b", "a?b", "(?:b|a)", "$"] if not t else F
    lab.explore(tasks([w % (i, f) for w in wraps[:-1] for i in inner for f in F2], fam, **m), "the same at the end of a group: what follows the group counts")
    N = ["b?", "b*", "(b?)", "(?:b)?", "(?:b?|1*)", "b{0,2}?"]
    Z = ["a", "(?:1|a)", "1", "$", "(?:b|ba)"]
    lab.explore(tasks(x(["a*", "[ab]+?", "(?:ab)?"] if t else ["a*", "[ab]+?"], N, N, Z) + (x(["a*", "[ab]?"], N, N, N, Z[:3]) if t else x(["a*"], N[:4], N[:4], N[:4], Z[:1])), Fam(b"ab1", 6 if t else 5), **m),
                "a quantified item, then two or three that can be empty, then what it could give back to")
    zero = ["b{0}", "(b){0}", "(?:ab){0,0}", "\\x{6261}?", "(\\x{6261})*", "(?:$)?", "(?:b|$)", "(?:$|b)??", "(?:^|b)", "(?:^)?", "(?:^b)?", "(?:b{0}|1)", "(b{0})", "(?:b{0})", "(^)?", "((b){0}|b{0,0}?)", "(?:(b{0})(1{0})?)"]
    lab.explore(tasks(x(["a*", "\\n*", "[^b]+?", "(?:a|\\n)?"], zero, ["", "\\n?"] if not t else ["", "\\n?", "b{0}", "1*", "(?:$)?"], ["a", "\\n", "$", "(?:^a)"]), Fam(b"ab\n", 6 if t else 5), **m), "a quantified item, then what is never there or only holds somewhere")
    deep = nested(["a*", "a+?", "[ab]*", "(?:ab|a)?", "a??"] if not t else ["a*", "a+?", "[ab]*", "(?:ab|a)?", "(a|b)+", "a??", ".*", "a{1,2}"], ["", "b?", "b*c"] if not t else ["", "b?", "b*", "c", "b??c"], ["", "a", "b", "c?a"], 3)
    deep += nested(["a*", "[ab]+?"], ["b?", "c*"], ["a", "$"], 5 if t else 4) + begun(["a*", "a*?"], ["b?", "a?"], ["a*", "[ab]+?", "a?"], 3)
    lab.explore(tasks(deep, ABC[5], **m), "a quantified item at the end (beginning) of groups in groups, each followed (preceded) by something")
    reps = b"\x00\x07\t\n\r\x1b !,-/09:@AZ[^_`abz{~\x7f\x80\xe1\xff"
    C = [".", "\\s", "\\S", "\\d", "\\D", "\\w", "\\W", "\\n", "\\N", "\\t", "\\e", "[a-z]", "[^a-z]", "[\\d_]", "[^\\s]", "[!-~]", "a", "\\x80", "\\xff", "\\x00", "[^\\W]", "[^\\da]"]
    lab.explore(tasks(x(C, ["*", "+?", "?"] if t else ["*"], C), Fam(reps, 2), **m), "every two classes and sets")
    features(lab, m["mode"], m.get("flags", RUN))
    CL = [".", "\\s", "\\S", "\\d", "\\D", "\\w", "\\W", "\\N", "[a-z]", "[^a-z]", "[^a]"] + (["\\n", "\\t", "\\r", "\\f", "\\a", "\\e", "[\\d_]", "[^\\s]", "[!-~]", "[a-cx-z]", "[^\\W]"] if t else [])
    lab.explore([Task(c + "*" + "\\x%02x" % b, Fam(words=[bytes(w) for w in ([b], [b, b], [97, b], [b, 97], [32, b], [49, b], [33, b])]), **m) for c in CL for b in (range(256) if t else NEAR_EDGES)], "every class, then a byte", per_unit=64)
    hi = ["\\x80", "\\xff", "[^a]", ".", "\\W", "\\x{80ff}", "\\D"]
    lab.explore(tasks(x(hi, ["*", "+?", "?"], ["\\x80", "\\xff", ".", "[^b]", "\\W", "$"]), Fam(b"a\x80\xff\n", 5 if t else 4), **m), "bytes above 0x7F")


# ------------------------------------------------------------------- C09

SPECIAL = "\\.*+?()[]{}|^$-/"


def c09(lab):
    t = lab.thorough
    m = dict(mode="equivalent", flags=RUN | DESCRIBED)
    ex = [p for k in range(1, 5) for p in canonical(expressions(k, "ab", QUANTS9))] + canonical(expressions(5, "ab", ["*"] if not t else QUANTS9))
    lab.explore(tasks(ex, AB[6], **m), "every expression")
    byte_words = Fam(words=[bytes([c]) for c in range(256)] + [bytes([c, 97]) for c in range(256)] + [bytes([97, c]) for c in range(256)])
    esc = ["\\" + c for c in SPECIAL] + [chr(c) for c in range(0x20, 0x7f) if chr(c) not in SPECIAL] + ["-", "/"]
    chars = esc + ["\\x%02x" % c for c in range(256)]
    lab.explore(tasks(chars + x(["\\" + c for c in SPECIAL], ["*", "a", "{2}"]) + x(["a", "a*"], ["\\" + c for c in SPECIAL]), byte_words, **m), "every character, escaped ones quantified and next to others")
    elems = ["a", "a-c", "0-9", "\\]", "\\\\", "\\^", "\\-", "\\d", "\\W", "\\n", "\\S", "."]
    sets = ["[" + s + "]" for s in elems + seqs(elems, 2)] + ["[^" + s + "]" for s in elems + seqs(elems, 2)]
    cl = [".", "\\s", "\\S", "\\d", "\\D", "\\w", "\\W", "\\n", "\\N", "\\t", "\\r", "\\f", "\\a", "\\e"]
    lab.explore(tasks(unique(sets) + x(cl + ["[a]", "[^a-c]"], ["", "*", "+?", "{2,3}+", "{2}"], ["", "a"]), byte_words, **m), "every class, every set of up to two elements")
    ms = x(["\\x{%s}" % h for h in ["6162", "2a2b", "285c", "5b5d5e", "7c7b7d", "00ff"]], ["", "*", "+?", "{2}"], ["", "a", "\\*"])
    qs = x(["a", "(a)", "(?:ab)", "(?:a|b)", "[ab]", "\\x{6162}"], ALLQ[1:] + ["{0}", "{0,0}", "{10}", "{3,12}?"], ["", "b", "a"])
    an = x(["^", ""], ["a", "(a|b)", "a*", "(?:a$|b)", "(?:^a|b)", "(^a)", "(a$)"], ["", "$"]) + ["^", "$", "^|$", "(?:^|a)b", "a(?:$|b)", "(^|(a))b", "^(?:a|^b)", "((a)|(b(c)?))*", "(?:a|(b|(c)))+"]
    lab.explore(tasks(ms + qs, Fam(b"ab*+", 5 if t else 4), **m) + tasks(an, Fam(b"abc\n", 6 if t else 5), **m), "byte strings, quantifiers, anchors")
    lab.explore([Task(p, Fam(words=k) if alpha is None else Fam(alpha, min(k, 7)), **m) for p, alpha, k in REALISTIC], "patterns people write", per_unit=4)
    features(lab, m["mode"], m["flags"])
    # Every quantifier with small numbers; numbers of many digits
    N = 4 if t else 3
    counts = x(["{%d}" % n for n in range(N + 1)] + ["{%d,}" % n for n in range(N + 1)] + ["{%d,%d}" % (n, k) for n in range(N + 1) for k in range(n, N + 1)], ["", "?", "+"])
    lab.explore(tasks(x(["a", "(?:ab)", "(a|b)"] if t else ["a", "(?:a)"], counts, ["", "a", "b"]) + x(["(?:a", "(a"], counts, [")*", ")?b"]), AB[7], **m), "every small count")
    for n in [9, 10, 11, 12, 19, 20, 21, 30, 99, 100, 101, 109, 110, 120, 199, 200, 255, 256, 999, 1000, 1001, 1010, 1024, 1100, 2000]:
        f = Fam(words=unique([b"a" * k + z for k in {0, 1, n % 100, n // 10, n - 1, n, n + 1, n + 2, 2 * n} for z in (b"", b"b")]))
        lab_tasks = tasks(x(["a{%d}" % n, "a{%d,}" % n, "a{%d,%d}" % (n, n + 1), "a{1,%d}" % n], ["", "?", "+"], ["", "b"]) + ["(?:a{%d}b)?" % n, "a{0,%d}?b" % n], f, **m)
        big = big + lab_tasks if n != 9 else lab_tasks
    lab.explore(big, "large counts")
    lab.explore(tasks(["a{%d}b" % n for n in numbers(t)] + [f % n for n in numbers(t)[::3] for f in ("(b){%d,}a", "(?:[ab]{0,%d}+|c)")], Fam(words=[b""]), "optimized", EXPRESSION), "numbers as they are described")
    long = ["".join(o + c for c in "abab" * 5) for o in ("", "a?", "(?:")] + ["".join("(" + c for c in "abab" * 3)]
    long = [p + ")" * p.count("(") for p in long] + ["|".join("ab"[:k % 2 + 1] * (k // 2 + 1) for k in range(n)) for n in (2, 9, 10, 17, 33)] + ["[" + "".join(chr(97 + k) for k in range(n)) + "]" for n in (1, 9, 10, 16, 17, 26)] + ["\\x{%s}" % ("6162" * n) for n in (4, 5, 8, 9, 16, 17)] + ["a" * n + "*" for n in (9, 10, 16, 17, 33, 64, 65)] + ["(?:" * n + "a" + "b)*" * n for n in (4, 8)]
    lab.explore(tasks([p for p in long if p], Fam(words=unique([b"a", b"b", b"ab", b"q", b"z"] + [b"ab" * n for n in (2, 4, 5, 8, 9, 10, 16, 17)] + [b"a" * n for n in (2, 8, 9, 10, 15, 16, 17, 18, 33, 64, 65, 66)] + [b"abb" * 9, b"babab" * 5])), **m), "long patterns", per_unit=8)


# ------------------------------------------------------------------- C10

def c10(lab):
    t = lab.thorough
    ones = [bytes([c]) for c in range(256)]
    fam = Fam(words=[b""] + ones + [o + b"a" for o in ones] + [b"a" + o for o in ones])
    cl = [".", "\\s", "\\S", "\\d", "\\D", "\\w", "\\W", "\\n", "\\N", "\\t", "\\r", "\\f", "\\a", "\\e"]
    elems = ["a", "b-d", "0-9", "A-Z", "\\d", "\\w", "\\s", "\\S", "\\D", "\\W", "\\n", "\\t", "\\]", "\\\\", "\\-", "\\^", ".", "*", "$", "+", "?", "!-~"]
    if t:
        elems += ["x", "z", "_", "\\[", "\\N", "\\a", "\\e", "\\f", "\\r", "a-a", " ", "\\.", ",", "\xe9", "\x01-\x1f", "/"]
    sets = ["[" + e + "]" for e in elems + seqs(elems, 2)] + ["[^" + e + "]" for e in elems + seqs(elems, 2)]
    sets += ["[-a]", "[a-]", "[^-a]", "[^a-]", "[a^]", "[-]", "[^-]", "[^^]", "[a-cx-z-]"]
    if t:
        sets += ["[" + e + "]" for e in seqs(elems[:22], 3)]
    else:
        sets += x(["[", "[^"], seqs(["a", "b-d", "0-9", "\\w", "\\D", "\\]", "."], 3), ["]"]) + x(["[", "[^"], ["-", ""], seqs(["x-z", "\\s", "^"], 2), ["-", ""], ["]"])
    lab.explore(tasks(cl + sets, fam, "caps"), "every class, every set of up to %d elements, on every byte" % (3 if t else 2) + ("" if t else ", and of three of some"))
    order = "qwertyuiopasdfghjklzxcvbnm0987654321QAZWSXEDCRFVTGBYHNUJMIKOLP_ ,;:<>=!@#%&/'~`"
    large = [order[:n] for n in list(range(1, 20)) + [24, 26, 31, 32, 33, 36, 40, 48, 62, 63, 64, 65, 80]] + ["".join(order[i] for i in range(k, len(order), k)) for k in (2, 3, 5, 7)]
    large += ["".join("%s-%s" % (chr(c), chr(c + w)) for c in range(33, 90, w + 2) if chr(c) not in "[]\\\\^-" and chr(c + w) not in "[]\\\\^-" and chr(c + 1) != "-") for w in (1, 2, 3, 5, 9)]
    large += ["a-z" * n + "0" for n in (1, 2, 5)] + ["".join("\\" + c for c in ".*+?(){}|^$"[:n]) for n in range(2, 12)] + ["\\w\\s", "\\d\\s_", "\\s\\d\\n\\t\\r\\f\\a\\e", "a-zA-Z0-9_", "!-/:-@", "a-cb-de-f", "c-ea-d", "0-9\\D"]
    lab.explore(tasks(["[" + e + "]" for e in large if e and "(" not in e.replace("\\(", "")] + ["[^" + e + "]" for e in large if e and "(" not in e.replace("\\(", "")], fam, "caps"), "sets of many elements, on every byte", per_unit=8)
    some = cl + ["[a]", "[^a]", "[b-d]", "[^b-d]", "[\\d]", "[^\\d]", "[\\W]", "[^\\w]", "[\\s\\d]", "[^\\s\\d]", "[a\\]]", "[^a\\]]", "[\\S]", "[^\\D]", "[^\\n]", "[^\\S]"]
    ctx = ["%sa", "a%s", "%s|.", "%s|a", "a|%s", "%s?a", "%s*a", "%s+?a", "%s++", "%s{2}", "(?:%s|b)a", "(%s)", "(%s)?a", "%s*", "%s*?a", "%s??a", "%s?+a", "(?:%s|)a"[:0] or "(?:b|%s)a", "[^a]%s", "(?:%s)*a", "(?:a%s|.)", "b?%s", "(?:%sb|.)", "%s%s"]
    lab.explore(tasks([c % ((s,) * c.count("%s")) for c in ctx for s in some], fam, "caps"), "classes and sets in context, on every byte")
    longer = Fam(words=unique([w for c in (range(256) if t else NEAR_EDGES) for o in [bytes([c])] for n in (15, 16, 31, 32, 48, 63, 64, 127, 128, 255, 256) for w in (o * n, o + b"a" * n, b"a" * n + o)]))
    lab.explore(tasks(x(["^", ""], some, ["", "*", "$"] if t else ["", "$"]) + x(some[:len(cl)], ["*", "+?a"]), longer, "first-caps"), "classes and sets in long queries")
    lab.explore(tasks(unique(cl + SETS + ODD_SETS[::2] + TEXTUAL + x(some, ["+", "*?a", "?"])) + ["(?:%sb|.)" % c for c in some], texts(t), "iterate", RUN | RANGE), "classes and sets on text of every kind")
    dctx = ["((%sb)c)d", "(((%sb)c)d)e", "((((%sb)c)d)e)f", "(?:(?:(?:%s|b)b)c)d", "((b?(?:%s)b)c)d|.", "(?:((?:%s)*b)c)+d", "(((b|%s)?b)c)d"]
    dfam = Fam(words=unique([w for o in ones for w in (o + b"bcdef", o + o + b"bcd", b"b" + o + b"bcd")] + [b"bcdef", b"bbcd", b"abcdabcd"]))
    lab.explore(tasks([c % s for c in dctx for s in some], dfam, "caps"), "classes and sets deep in groups, on every byte")
    if t:
        lab.explore(tasks(x(some, ["", "*", "?"], some), Fam(b"ab1 \n\xff", 4), "caps"), "pairs of classes and sets")


# ------------------------------------------------------------------- C11

def c11(lab):
    t = lab.thorough
    ones = [bytes([c]) for c in range(256)]
    every = Fam(words=ones)
    forms = ["\\x%02x", "\\x%02X", "\\x{%02x}", "\\x{%02X}", "\\%03o", "\\o%03o", "\\o{%03o}"]
    lab.explore(tasks([f % c for f in forms for c in range(256)] + ["\\x{%x}" % c for c in range(16)] + ["\\x{%X}" % c for c in range(16)] + ["\\x%x" % c for c in range(16)],
                      every, "caps"), "every value in every notation, on every byte")
    mixed = ["%x%X" % (c >> 4, c & 15) for c in range(256)] + ["%X%x" % (c >> 4, c & 15) for c in range(256)]
    mixed = [h for h in unique(mixed) if h.lower() != h and h.upper() != h]
    lab.explore(tasks(["\\x" + h for h in mixed] + ["\\x{%s}" % h for h in mixed], every, "caps") + tasks(["\\x{61%s}" % h for h in mixed], Fam(words=[b"a" + o for o in ones]), "caps"), "both cases in one escape")
    edge = [0x00, 0x01, 0x07, 0x09, 0x0a, 0x0f, 0x10, 0x1f, 0x30, 0x3f, 0x41, 0x5c, 0x61, 0x7f, 0x80, 0x8f, 0x9a, 0xa0, 0xaf, 0xf0, 0xfe, 0xff]

    def near(bs):
        out = [bs, bs + bs, bs[:-1], bs[1:], bs[::-1], b"a" + bs + b"b", bs + b"a", bs * 3]
        for i in range(len(bs)):
            for d in (1, 0x10, 0x80):
                out.append(bs[:i] + bytes([bs[i] ^ d]) + bs[i + 1:])
        return unique(out)
    ts = []
    for a in edge:
        for b in (edge if t else edge[::3]):
            f = Fam(words=near(bytes([a, b])))
            ts += tasks(["\\x{%02x%02X}" % (a, b), "\\o{%03o%03o}" % (a, b), "\\x%02x\\x%02x" % (a, b), "\\%03o\\o%03o" % (a, b), "(\\x{%02x%02x})*" % (a, b), "\\x{%02x%02x}{2}" % (a, b)], f, "caps")
    # given back to what follows, as a whole
    for bs in [b"ab", b"aa", b"aba", b"abab", b"\x00a", b"\xffa\x80"]:
        h = "\\x{%s}" % bs.hex()
        lits = ["".join("\\x%02x" % c for c in z) for z in unique([bs[:1], bs[:-1], bs[1:], bs, bs + bs[:1], bs + b"c", bs[:1] + b"c"])]
        f = Fam(words=unique([y + bs * n + z for y in (b"", b"c", bs[1:]) for n in range(5) for z in (b"", bs[:1], bs[:-1], b"c", bs[:1] + b"c", bs[1:])]))
        ts += tasks(x([h, "(" + h + ")"] if t else [h], ["*", "+", "?", "*?", "+?", "*+", "{2}", "{1,2}", "{2,}?", "{0,3}"], lits + ["$", "(?:c|%s)" % lits[0], "[^c]"]) + x(lits[:3], [h], ["*", "?", "+?"], lits[:4]), f, "caps")
    for n in [9, 15, 16, 17, 31, 32, 33, 63, 64, 65] + ([100, 127, 128, 129, 255, 256, 257] if t else [128]):
        s = bytes((i * 37 + 11) & 255 for i in range(n))
        ts += tasks(["\\x{%s}" % s.hex(), "\\o{%s}" % "".join("%03o" % c for c in s), "\\x{%s}*z" % s.hex()], Fam(words=unique([s, s + s + b"z", s[:-1], s[1:], b"x" + s, s[:n // 2] + s, s[:-1] + bytes([s[-1] ^ 128]), bytes([s[0] ^ 1]) + s[1:]])), "caps")
    for s in [b"a", b"ab", b"abc", b"aab", b"abab", b"\x00\xff\n", b"abcde", b"aaaaaa", b"abcdefghi"]:
        h, n = "\\x{%s}" % s.hex(), len(s)
        f = Fam(words=unique([s * k + z for k in range(7) for z in (b"", s[:1], s[:-1], b"c")] + [b"c" + s * k for k in range(5)] + [s * k + bytes(reversed(s)) + s * k for k in (1, 2, 3)]))
        qs = ["{%d}" % k for k in range(6)] + ["{%d,}" % k for k in range(5)] + ["{%d,%d}" % (i, j) for i in range(4) for j in range(max(i, 1), 6)]
        ts += tasks(x([h, "(" + h + ")"] if t else [h], x(qs, ["", "?", "+"]), ["", "c"] if t else [""]), f, "caps")
    for s in [b"abc", b"\x00\x01\x02", b"\xff\xfe\xfd\xfc", b"\n\r\t\x1b\x07", b"abcdefgh", b"\x00" * 5]:
        f = Fam(words=near(s))
        ts += tasks(["\\x{%s}" % s.hex(), "\\x{%s}" % s.hex().upper(), "\\o{%s}" % "".join("%03o" % c for c in s)], f, "caps")
    lab.explore(ts, "byte strings and neighbouring escapes")
    # digits that do not belong to the escape
    ts = []
    vals = [0, 7, 0x0a, 0x1f, 0x41, 0x61, 0x7f, 0x9f, 0xff] if not t else edge
    for c in vals:
        b = bytes([c])
        tails = ["0", "7", "8", "9", "a", "f", "F", "g", "G", "x", "}"[:0] or "z"]
        f = Fam(words=unique([b + z.encode() for z in tails] + [b + b"00", b + b"0a", b, b"a", b + b + b"0", bytes([c & 15]) + b"0", bytes([c >> 4]) + b"f"]))
        for form in ["\\x%02x" % c, "\\x{%02x}" % c, "\\%03o" % c, "\\o%03o" % c, "\\o{%03o}" % c]:
            ts += tasks([form + z for z in tails], f, "caps")
        f = Fam(words=unique([b * n for n in range(5)] + [b"a" + b, b + b"a", b + b"a" + b + b, bytes([c ^ 1]) + b]))
        for form in ["\\x%02x" % c, "\\x{%02x}" % c, "\\%03o" % c, "\\o%03o" % c, "\\o{%03o}" % c]:
            ts += tasks(x([form], ALLQ[1:] if t else QUANTS9 + ["{2}", "{1,2}", "{2,}?"], ["", "a"]) + ["(" + form + ")|a", "[^a]" + form, form + "|" + form + "a", "a*" + form], f, "caps")
    for n in range(16):
        b = bytes([n])
        f = Fam(words=unique([b + z for z in [b"g", b"G", b"z", b"", b"-", b" ", b"/", b":", b"@", b"`", b"\x00"]] + [b + b]))
        ts += tasks(["\\x%x" % n + z for z in ["g", "G", "z", "-", " ", "/", ":", "@", "`", "*", "{2}", "|z", "\\x%x" % n]] + ["\\x%X" % n + "g", "\\x{%x}g" % n], f, "caps")
    lab.explore(ts, "what follows an escape: other digits, letters, quantifiers")


# ------------------------------------------------------------------- C12

def c12(lab):
    t = lab.thorough
    N = 6 if t else 4
    counts = ["{%d}" % n for n in range(N + 1)] + ["{%d,}" % n for n in range(N + 1)] + ["{%d,%d}" % (n, k) for n in range(N + 1) for k in range(n, N + 1)]
    counts = x(counts, ["", "?", "+"]) + QUANTS9
    bodies = ["a", "[ab]", ".", "(a)", "(?:ab)", "\\x{6162}", "(a|b)", "\\w"]
    tails = ["", "a", "b", "$"] if t else ["", "a", "b"]
    lab.explore(tasks(x(bodies, counts, tails), AB[9 if t else 7], "caps"), "every count up to %d, of every kind of item, before anything" % N)
    within = [a % (b + q) + z for a, b, q, z in itertools.product(["b*%s", "(?:a|b)??%s", "(b%s)", "(?:b|%s)"], ["a", "[ab]", "(?:ab?)"],
              ["{0}", "{1}", "{2}", "{3}", "{0,2}", "{1,3}", "{2,}", "{0,2}?", "{1,3}?", "{2,}?", "{1,3}+", "{2,}+"], ["", "b", "a"])]
    lab.explore(tasks(within, AB[7], "caps"), "counts inside larger patterns")
    deep = ["((a)b?)", "((a)|(b))", "(?:(a)|(b))", "(((a)))", "((a)(b)?)", "(((a)b?)|(b)a)"]
    lab.explore(tasks(x(deep, ["{%d}" % n for n in (0, 1, 2, 3)] + ["{2,}", "{3,}", "{0,2}", "{1,3}", "{2,3}"] + (["{4}", "{4,}", "{3,5}"] if t else []), ["", "?", "+"], ["", "a", "$"]), AB[8 if t else 7], "caps"), "counts of groups of two and more groups")
    inner = ["{0}", "{1}", "{2}", "{0,1}", "{1,2}", "{1,}", "{2,3}?"]
    lab.explore(tasks(["(?:%s%s)%s%s" % c for c in itertools.product(["a", "ab", "b?a"], inner, inner, ["", "a"])], AB[8], "caps"), "counts of counts")
    big = [5, 7, 8, 9, 10, 11, 12, 15, 16, 19, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 109, 110, 127, 128, 129, 199, 200, 255, 256, 257, 300, 999, 1000, 1001, 1023, 1024, 1025]
    if t:
        big += [400, 500, 511, 512, 513, 1010, 1100, 1999, 2000, 2001, 4095, 4096, 4097]
    ts = []
    for n in big:
        lens = sorted({0, 1, n // 10, n // 2, n - 2, n - 1, n, n + 1, n + 2, 2 * n - 1, 2 * n, 2 * n + 1, n % 256, n % 128, n % 100, n % 10})
        lens = [k for k in lens if k >= 0]
        f = Fam(words=unique([b"a" * k for k in lens] + [b"a" * k + b"b" for k in lens] + [b"b" + b"a" * k for k in lens[-6:]]))
        ps = []
        for e in ["{%d}" % n, "{%d,}" % n, "{0,%d}" % n, "{%d,%d}" % (n - 1, n), "{%d,%d}" % (n, n + 1), "{1,%d}" % n]:
            for m in ["", "?", "+"]:
                ps += x(["a", "[ab]"] if n < 128 else ["a"], [e + m], ["", "b"])
        ps += ["(a){%d}" % n, "(?:a|b){%d,}b" % n, ".{%d,%d}" % (n, n)]
        ts += tasks(ps, f, "first-caps")
    for n in [9999, 10000, 10001, 32768, 65535, 65536, 65537, 99999, 100000]:
        f = Fam(words=unique([b"a" * k for k in (0, 1, n % 65536, n % 10000, n // 10, n - 1, n, n + 1)]))
        ts += tasks(x(["^a"], ["{%d}" % n, "{%d,}" % n, "{0,%d}" % n, "{%d,%d}" % (n - 1, n), "{%d,}?" % n, "{%d,}+" % n], ["", "$"]) + ["^(?:a){%d}" % n], f, "first-caps")
    lab.explore(ts, "large counts, at and around them", per_unit=48)
    huge = HUGE + ([10**100 + 2, 2**63, 2**64 + 2**32 + 3] if t else [])
    ps = x(["a", "(a)", "[ab]", "(?:ab|a)"], [f % n for n in huge for f in ("{%d}", "{%d,}", "{0,%d}", "{1,%d}?", "{2,%d}+", "{%d,}?")], ["", "b"]) + x(["(?:a?)", "(a|b*)", "(?:^|a)"], [f % n for n in huge for f in ("{%d}", "{%d,}", "{0,%d}?", "{%d,}?", "{%d,}+")], ["", "$"])
    ps += x(["a", "(?:a|b)"], ["{%s%s}" % (z, e) for z in ("0", "00", "0000000000", "0" * 40) for e in ("", "0", "1", "3", "12", "2,", "3,05", "0,", "0,00", "1,%s3" % z, "12,013")], ["", "?b", "+"])
    ps += ["(?:%s{%d}){%d}%s" % (a, n, k, z) for a in ("a", "(?:ab)", "(?:a?)", "(b*)") for n, k in [(65536, 65536), (65536, 65537), (2**31, 2), (3, 1431655766), (2**32, 2**32), (0, 2**32), (2**33, 0)] for z in ("", "b", "|b")]
    lab.explore(tasks(ps, AB[6], "caps"), "counts that do not fit in 32 or 64 bits, and with leading zeros")
    long = Fam(words=[b"a" * n + e for n in [0, 1, 1000] + EDGES[9:21] for e in (b"", b"b")])
    lab.explore(tasks(x(["^a", "^[ab]", "^."], ["*", "+", "*?", "+?", "*+", "{2,}", "{2,}?"], ["", "b", "$"]) + x(["^(a)", "^(?:a)", "^(?:a|b)"], ["*", "+", "*+", "{2,}", "+?"], [""]) + x(["^(a)", "^(a|b)"], ["*?", "+?", "++"], ["$"]),
                      Fam(words=[b"a" * n + e for n in EDGES[18:] + LONG + [100000] for e in (b"", b"b")]), "first-caps"), "no number of repetitions is too many", per_unit=4)
    lab.explore(tasks(x(["a", "[ab]", ".", "(a)", "(?:a)", "(?:a|b)"], ["*", "+", "*?", "+?", "*+", "{2,}", "{2,}?"], ["", "b", "$"]), long, "first-caps"), "many repetitions", per_unit=8)


# ------------------------------------------------------------------- C13

def c13(lab):
    t = lab.thorough
    core = ["a", "b", "a*", "a?", "a*?", "a+?", "\\n", "\\n?", ".", "[^a]", "[^a]*", "(?:a|b)", "(a)", "\\s", "\\s*", "a|b", "(a|b)*", ".*", "\\w+", "(?:a\\n)*"]
    two = x(["", "^"], core, [""] + core if t else ["", "b", "a*", "\\n", ".*?"], ["", "$"])
    fam = Fam(b"ab\n", 7 if t else 6)
    lab.explore(tasks([p for p in two if "^" in p or "$" in p], fam, "caps"), "anchors around up to two items")
    br = ["^", "$", "a", "^a", "a$", "^a$", "b*", "^b*$", "\\n", "^$", "a\\n"]
    alts = ["|".join(c) for c in itertools.product(br, repeat=2)] + ["(?:%s|%s)%s" % c for c in itertools.product(br, br, ["", "b", "$"])] + ["%s(?:%s|%s)" % c for c in itertools.product(["b", "a*", "^", "\\n"], br, br)]
    if t:
        alts += ["|".join(c) for c in itertools.product(br, repeat=3)] + ["(%s|%s)(%s|%s)" % c for c in itertools.product(br, repeat=4)][::1]
    alts = [p for p in alts if "^" in p or "$" in p]
    lab.explore(tasks(alts, Fam(b"ab\n", 5), "caps"), "anchors in alternatives and groups")
    nest = x(["(", "(?:", "((?:", "(?:("], ["^", "$", "^a", "a$", "^a*$", "^|a", "a|$", "$|a"])
    nest = [n + ")" * n.count("(") for n in nest]
    lab.explore(tasks(x(["", "a", "b*", "\\n", "(a)?"], nest, ["", "?", "*", "+?", "{2}"], ["", "a", "b", "\\n", "$"]) if t else x(["", "b*", "\\n"], nest, ["", "?", "*", "+?"], ["", "a", "\\n"]), Fam(b"ab\n", 5), "caps"), "groups of anchors, quantified")
    lines = sized(EDGES + LONG[2:], lambda n: b"a" * n + b"\n" + b"b" * n, lambda n: b"\n" * n, lambda n: b"ab\n" * (n // 3), lambda n: (b"a" * 30 + b"\n") * (n // 31) + b"b")
    lab.explore(tasks(["^", "$", "^a", "a$", "^b", "b$", "^$", "^a*$", "^a*?$", "^.", ".$", "^\\n", "\\n$", "(?:^a|b$)", "^(?:a|b)+$", "a|^b", "[^a]$", "^ab$"], lines, "walk", WALK), "many lines, and long ones", per_unit=1)
    bytes_ = Fam(words=unique([w for c in range(256) for z in [bytes([c])] for w in (z, z + b"a", b"a" + z, b"a" + z + b"a", z + z, b"\n" + z + b"\n", z + b"\na" + z)] + [b"a\r\na\r\n", b"\r\r\na", b"a\n\ra"]))
    lab.explore(tasks(["^", "$", "^a", "a$", "^a$", "^[^a]", "[^a]$", "^.*$", "(?:^|a)a", "a(?:$|a)", "^a*$", "^\\W", "\\s$", "(?:^a)?$", "(?:[^a]$)+"], bytes_, "caps"), "every byte before and after an anchor", per_unit=2)
    ends = ["^", "$", "^a", "a$", "^\\r", "\\r$", "^$", "^\\r$", ".$", "^.", "^a*$", "(?:^|a)\\r", "\\r(?:$|a)", "^[^a]", "[^a]$", "\\s*$", "^\\s*", "(?:^\\r?$)+", "(?:a\\r?$)*", "^.*$", "^.*?$", "(^)(\\r)?($)"]
    lab.explore(tasks(ends, Fam(b"a\r\n", 7 if t else 6), "caps") + tasks(ends, Fam(b"\n\v\f\0", 5 if t else 4), "caps") + tasks(ends[:12], Fam(b"a\n\xe2\x80\xa8\xc2\x85", 4 if t else 3), "caps"), "anchors next to every sequence of what could end a line", per_unit=8)
    lab.explore(tasks(ends, texts(t), "caps"), "anchors in text of every kind")
    lits = ["\\^", "\\$", "\\^a", "a\\$", "\\^*", "\\$+", "[\\^a]", "[a^]", "[$]", "[^$]", "[a$]b", "(\\$)$", "^\\^", "(?:\\^|^)a"]
    lab.explore(tasks(lits, Fam(b"a^$\n", 5), "caps"), "escaped ones are characters")


# ------------------------------------------------------------------- C17

def c17(lab):
    t = lab.thorough
    fam = Fam(b"ab", 6)
    ex = [p for k in range(1, 5) for p in expressions(k, ["a", "b"], ["*", "+", "?", "{2}", "*?", "?+"], groups=("(", "(?:"))]
    ex += canonical(expressions(5, "ab", QUANTS3 if t else ["*"]))
    ex += canonical(expressions(6, "ab", QUANTS3 if t else [], groups=("(", "(?:") if t else ("(",)))
    ex += canonical(expressions(7, "ab", ["*"] if t else [], groups=("(",) if t else ()))
    lab.explore(tasks(ex, fam, "caps"), "every arrangement of characters, |, brackets and quantifiers")
    sym = ["a", "[b]", "\\*", "\\x62", "\\|", "."]
    ex = [p for k in range(1, 4) for p in expressions(k, sym, ["*", "??", "{1,2}"])] + expressions(4, sym[1:5] if not t else sym, ["+"], groups=("(?:",))
    lab.explore(tasks(ex, Fam(b"ab*|", 4), "caps"), "the same of escapes, sets and classes")
    features(lab, lambda p, large: "first-caps" if large else "caps")
    ops = "\\.*+?()[]{}|^$"
    word = Fam(words=unique([b""] + [bytes([c]) for c in range(0x20, 0x7f)] + [("\\" + c).encode() for c in ops] + [(c + d).encode() for c in ops for d in ops] + [("a" + c).encode() for c in ops] + [(c + "a").encode() for c in ops] + [(c + c + c).encode() for c in ops]))
    es = ["\\" + c for c in ops]
    plain = [chr(c) for c in range(0x20, 0x7f) if chr(c) not in ops]
    ps = es + plain + x(es, es) + x(es, ["a", "*", "+", "?", "{2}", "*?", "|a", "{1,2}+"]) + x(["a", "a*", "a|", "[a]", "."], es) + ["(%s)" % e for e in es] + ["(?:a|%s)*" % e for e in es] + ["(a%s)" % e for e in es] + ["(%sa|b)" % e for e in es] + ["[a%s]" % e for e in es if e[1] not in "()[]{}|"]
    ps += ["a%sb" % c for c in ",-:;<>=!@#%&/'\"~` _"] + ["a%s*" % c for c in ",-:;<>=!@#%&/'\"~` _"]
    lab.explore(tasks(ps, word, "caps"), "escaped operators and plain characters, on every operator")
    ts = []
    for c in [chr(c) for c in range(0x20, 0x7f) if chr(c) not in ops and (t or chr(c) not in "cdefghijklmnopqrstuvwyzBCDEFGHIJKLMNOPQRSTUVWXYZ345678")]:
        o = "b" if c == "a" else "a"
        heads = [g + w + ")" * g.count("(") for g in ["(", "(?:", "(" + o + "|", o + "(", "(?:("] for w in ([c, c + o, o + c, c + c] if t else [c, c + o])]
        ts += tasks(unique(x(heads, ["", "?", "{2}"] if t else ["", "?" + c]) + x(["", o], [c, c + "|" + o, o + "|" + c], ["", "*", "{1,2}"] if t else ["", "?"], ["", c] if t else [""])), Fam((c + o).encode(), 4), "caps")
    lab.explore(ts, "characters that no operator is, wherever one could be", per_unit=64)
    raw = [chr(c) for c in list(range(32)) + list(range(127, 256))]
    lab.explore(tasks(x(raw, ["", "+|a"]) + [f % r for f in ["a%sb*", "[a%s]", "(%s)?a"] + (["[^%s]", "a*%s", "(?:a|%s)*b", "b|%s{2}?"] if t else []) for r in raw], Fam(words=unique([w for c in range(256) for z in [bytes([c])] for w in (z, z + b"a", b"a" + z + b"b", z + z)])), "caps"), "control characters and bytes over 0x7F written as they are")
    ts = []
    for n in range(1, 25 if t else 15):
        for o in ["(", "(?:"]:
            if o == "(" and n > 12:
                continue
            ps = [o * n + "a" + ")" * n, "".join(o + c for c in "ab" * n)[:n * (len(o) + 1)] + ")" * n, o * n + "a" + "b)" * n, o * n + "a" + "|b)" * n, o * n + "a" + ")?" * n + "b",
                  "".join("a|" + o for _ in range(n)) + "b" + ")" * n]
            ts += tasks(ps, AB[6], "caps")
    ts += tasks(["|".join(["a" * k for k in range(n, 0, -1)]) for n in range(2, 12)] + ["|".join("ab" * n)[:-1] + "b" for n in range(1, 12)] + ["a?" * n + "a" * n for n in range(1, 10)] + ["(?:a|b)" * n for n in range(1, 10)] + ["a*b" * n for n in range(1, 10)], AB[9], "caps")
    lab.explore(ts, "deep nesting, many alternatives, long sequences")
    ts = []
    for k in range(2, 12 if t else 10):
        z = "abcdefghijk"[:k]
        for d in range(1, 7 if t else 6):
            f = Fam(words=unique([(c + "xyzuvw"[:n]).encode() for c in z for n in range(d + 1)] + [(z[0] + c + "xyzuvw"[:d]).encode() for c in z] + [(c + "xyzuvw"[:d - 1]).encode() * 2 for c in z]))
            alts = "|".join(z)
            some = [nested([alts], [""], [""], d, kinds=(g,))[-1] for g in ("(", "(?:")]
            for g in ("(", "(?:"):
                some.append(g * d + alts + "".join(c + ")" for c in "xyzuvw"[:d - 1]) + ")" + "xyzuvw"[d - 1])
                some.append(g * d + alts + "".join(")" + c for c in "xyzuvw"[:d]))
                some.append("".join(g + c + "?" for c in "ab" * d)[:d * (len(g) + 2)] + g + alts + ")" + "".join(c + ")" for c in "xyzuvw"[:d]))
                some.append(g * d + alts + "".join("|" + c + ")" for c in "xyzuvw"[:d]) + "b?x")
            ts += tasks(some, f, "caps")
    lab.explore(ts, "up to 9 alternatives in up to 5 groups, each followed by something")
    ts = []
    for n in [12, 15, 16, 17, 20, 31, 32, 33] + ([48, 63, 64, 65, 100] if t else [64, 65]):
        words = Fam(words=unique([b"a" * k + z for k in (0, 1, n // 2, n - 1, n, n + 1) for z in (b"", b"b")] + [bytes([33 + k % 90]) for k in range(0, n, 3)] + [b"ab" * n, b"ba" * n, b"a" * n + b"c"]))
        syms = [chr(c) for c in range(33, 127) if chr(c) not in "\\.*+?()[]{}|^$"]
        ts += tasks(["|".join(syms[k % len(syms)] * (1 + k // len(syms)) for k in range(n)), "a" * n, "a" * n + "|b", "(?:%s)*" % "|".join("a" * (k + 1) for k in range(min(n, 33)))[:4000], "a|" * 0 + "b?" * n + "a", "\\." * n + "|a", "(?:a|b)*" + "[ab]" * n, "(" + "a" * n + ")(b)", "(?:" * min(n, 33) + "a" + ")" * min(n, 33) + "b"], words, "caps")
    lab.explore(ts, "up to 65 alternatives, items and pairs of brackets" if not t else "up to 100 alternatives, items and pairs of brackets", per_unit=4)


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C17=c17)
REPLAY = {}


# ------------------------------------------------------------------- C14

def c14(lab):
    t = lab.thorough
    atoms = ["a", "b", "[ab]", "[b-z]", "[^a]", "[^b]", ".", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\n", "\\N", "\\t", "\\r", "\\f", "\\a", "\\e", "\\x00", "\\x80", "\\xff", "\\x{6162}", "\\x{ff61}", "\\*", "[^\\w]", "[\\d\\s]", "[^a-y]"]
    pats = list(atoms)
    pats += x(["a", "[^a]", "\\d", "(?:ab)", "(b|1)"], ["*", "+", "?", "*?", "+?", "??", "*+", "++", "?+", "{2}", "{0}", "{0,2}", "{1,}"] if t else ["*", "+?", "?", "++", "{0,2}?", "{2}"], ["", "b", "1"]) + x(["(?:ab)", "(1)"], ["{0}", "{0,0}?"], ["b", "1?z"])
    pats += ["a|b", "a|1", "(a)|(b)", "(?:a|b)1", "a?b?", "a?b?1", "a*b*1*", "(a?)(b?)1", "(a?|b)1", "(?:a?b?)?z", "a??z", "(?:a|1?)b", "(a(b|1))", "((a))", "(?:(?:a|b)|1)", "(a|b?)(1|z)", "ab|1z", "abc", "\\w+\\s", "\\s*\\w+", "\\d+-\\d+", "[a-c]+z", "z?[a-c]", "(?:z|\\n)a", ".+", ".*a", "\\s+|\\d+"]
    pats += ["^a", "^", "$", "a$", "^$", "$|a", "(?:^)b", "a?$", "^a|b", "(a|$)", "b*$", "\\n?$"]
    if t:
        pats += [p for k in range(1, 5) for p in expressions(k, ["a", "b"], ["*", "?"], groups=("(",))][:260]
        pats += ["[%s]" % e for e in ["a-m", "n-z", "A-Z", "0-4", "5-9", "\\d\\w", "\\s\\.", "^\\s", "^\\d", "^a-z", "!-@", " -~"]]
    pats += [c % n for n in (2**31, 2**32) for c in ("(?:1z){%d}b", "(?:1z){%d,}a", "(?:1z){%d,}?b", "(?:1z){0,%d}b", "(?:(?:1z){2}|1z){%d}+b", "1(?:b{%d}|z)")]
    custom.ind_explore(lab, unique(pats), "every ordered pair of a pool of patterns")
    base = "abz"
    subsets = ["".join(c) for n in range(1, len(base) + 1) for c in itertools.combinations(base, n)]
    forms = ["[%s]", "[^%s]", "(?:%s)", "[%s]?m", "(n?[%s])"] if not t else ["[%s]", "[^%s]", "(?:%s)", "[%s]?m", "(n?[%s])", "[%s]*?", "(?:[%s]|n)", "m|[%s]", "[%s]{0,2}[^bm]", "^[%s]+"]
    sets = [f % ("|".join(s) if f == "(?:%s)" else s) for f in forms for s in subsets]
    edges = ["\\x%02x" % c for c in (0, 1, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x5f, 0x61, 0x7a, 0x7f, 0x80, 0x81, 0xfe, 0xff)] + ["[0-9]", "[/-0]", "[9-:]", "[A-Z]", "[a-z]", "[!-~]", "[@-A]", "[^0-9]", "[^a-z]", "\\w", "\\W", "\\d", "\\D", "\\s", "\\S", "."]
    custom.ind_explore(lab, unique(sets), "every ordered pair of sets of a small alphabet, in several forms")
    custom.ind_explore(lab, unique(edges), "every ordered pair of bytes and classes at their edges")
    classes = [".", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\n", "\\N", "\\t", "\\r", "\\f", "\\a", "\\e", "[^a]", "[a-z]", "[!-~]", "[^\\s]", "[\\w-]", "[^a-z]"]
    large = ["qwertyuiop", "xab0-9", "0-8x9", "zyxwvutsrqponmlkjihgfedcba", "acegikmoqsuwybdfhjlnprtvxz", "\\s\\d_", "a-cb-de-fx-z", "9876543210a-f", "zA-Zya-x0", "!-/:-@\\d", "^\\d\\s", "^a-y!-~"]
    custom.ind_explore(lab, classes + ["[%s]" % e for e in large], "every class and sets of many elements against every byte, in both directions", ["\\x%02x" % b for b in range(256)])


# ------------------------------------------------------------------- C15

def c15(lab):
    t = lab.thorough
    T, tokz = [], custom.Tokenizer
    pool = ["a", "ab", "a+", "[ab]+", "a|ab", "ab|a", "b*", "(a)(b)?", "a*?b", "\\w+", "b{2}", "a?", "[^ ]", "a b", ".+"]
    seps = [" ", "\\s+", " |,", ", ?", " *", "b"]
    fam = Fam(b"ab ,", 6 if t else 5)
    for i, a in enumerate(pool):
        for j, b in enumerate(pool):
            if i == j:
                continue
            some = seps if t else [seps[(i * 3 + j) % len(seps)]]
            for s in some:
                T.append(tokz([("t", 0, a), ("t", 1, b), ("s", 0, s)], fam))
    custom.tok_explore(lab, T, "every two tokens of a pool in both orders" + (", every separator" if t else ", a separator"))
    T = [tokz([("t", 0, a), ("s", 0, s)], fam) for a in pool for s in seps]
    T += [tokz([("s", 0, s), ("t", 2, "a+"), ("s", 0, r), ("t", 1, "b|ab")], fam) for s in seps for r in seps]
    T += [tokz([("t", 0, a), ("t", 1, b), ("t", 2, c), ("s", 0, ",| ")], fam) for a, b, c in itertools.permutations(["a", "ab", "[ab]+", "a*b"], 3)]
    T += [tokz([("t", 1, a), ("t", 1, b), ("t", 0, c), ("s", 0, " "), ("s", 0, ", ")], fam) for a, b, c in itertools.permutations(["aa?", "ab", "b+", "b,a"], 3)]
    custom.tok_explore(lab, T, "one token and any separator; several separators; three tokens in any order")
    nl = Fam(b"ab\n ", 5)
    T = [tokz([("t", 0, a), ("t", 1, b), ("s", 0, s)], nl) for a, b in [("a$", "b"), ("^a", "b"), ("a|^b", "ab"), ("^a|b", "bb"), ("a\\n", "b"), (".+", "\\n"), ("a$|b", "a")] for s in [" ", "\\n", "\\s", "\\n+| "]]
    custom.tok_explore(lab, T, "anchors and newlines: a token starts where the last separator ended")
    ws = unique([b"", b"a", b" a", b"a b", b"ab 12 _x", b"1 a, b", b"a  b", b"12ab", b"a 12 ab 3 x", b" ", b"a ", b"if x1 = 23;", b"a,b,,c"])
    T = [tokz(d, Fam(words=ws), len(ws)) for d in [
        [("t", 0, "[a-z]+"), ("t", 1, "\\d+"), ("s", 0, "\\s")],
        [("t", 0, "if"), ("t", 1, "[a-z]\\w*"), ("t", 2, "\\d+"), ("t", 3, "=|;"), ("s", 0, "\\s*")],
        [("t", 0, "[a-z]\\w*"), ("t", 1, "if"), ("t", 2, "\\d+"), ("t", 3, "="), ("s", 0, "\\s+"), ("s", 0, ",")],
        [("t", 5, "\\w+"), ("t", 4, "\\d+"), ("s", 0, ",? ?")],
        [("s", 0, " "), ("t", 0, "(a)|(b)|(1)(2)"), ("t", 1, "x")],
        [("t", 0, "_?x"), ("t", 1, "[ab]{1,2}"), ("t", 2, "\\d{2}"), ("t", 3, "\\d"), ("s", 0, "[, ]{1,2}")]]]
    custom.tok_explore(lab, T, "tokenizers people write, at run time and at compile time", per_unit=1)
    # Many definitions, many tokens, long ones; none of some kind
    T = [tokz([("t", 0, a)] + ([("t", 1, b)] if b else []), fam) for a in pool[:8] for b in ["", "b", "ab"]]
    names = "abcdefghijkl"
    for n in [4, 5, 8, 9, 12]:
        f = Fam(words=unique([" ".join(names[:n]).encode(), " ".join(names[:n][::-1]).encode(), names[:n].encode(), ("%s,%s %s" % (names[n - 1], names[0], names[n - 1])).encode(), names[n - 1].encode(), names[n // 2].encode() + b"  x", b"x"]))
        T.append(tokz([("t", k % 6, names[k]) for k in range(n)] + [("s", 0, " "), ("s", 0, ",")], f, len(f.words)))
        T.append(tokz([("s", 0, c) for c in " ,;:/-=!%&@#"[:n]] + [("t", 0, "\\w+"), ("t", 1, "\\w\\w")], Fam(words=[b"a" + b"bc".join(c.encode() for c in " ,;:/-=!%&@#"[:n]) + b"d", b"ab#cd", b"a b,c;d", b"a-b", b" a", b"- a"])))
        T.append(tokz([("t", k % 6, "a{%d}" % (k + 1)) for k in range(n)] + [("s", 0, " ")], Fam(words=[b"a" * k + b" " + b"a" * (n - k) for k in range(n + 2)])))
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#%&=~;:,"
    for n in [16, 17, 33] + ([32, 64, 65] if t else []):
        l = letters[:n].encode()
        f = Fam(words=unique([b" ".join(l[i:i + 1] for i in range(n)), b" ".join(l[n - 1 - i:n - i] for i in range(n)), l, l[-1:], l[n // 2:n // 2 + 1] + b" " + l[-1:] + b" " + l[:1], l[-2:] + b" a", b"?"]))
        T.append(tokz([("t", k % 6, letters[k]) for k in range(n)] + [("s", 0, " ")], f))
        T.append(tokz([("t", 0, "[a-m]"), ("t", 1, "\\w+")] + [("s", 0, " {%d}" % (k + 1)) for k in range(n)], Fam(words=[b"a" + b" " * k + b"bc" for k in (0, 1, 2, 8, n - 1, n, n + 1)])))
    long = sized([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025], lambda n: b"a" * n, lambda n: b"a" * n + b" ", lambda n: b" " + b"ab" * (n // 2) + b"  ", lambda n: b"a" * n + b"?a", lambda n: b"b a " + b"a" * n + b" ?", lambda n: b"a" * n + b"  " + b"b" * n + b" ", lambda n: b"ab " * (n // 3), lambda n: b"a" * n + b" " + b"b" * n, lambda n: b"a" + b" " * n + b"b", lambda n: b"a " * (n // 2) + b"?" + b" a", lambda n: b" " * n + b"ab")
    T += [tokz(d, long) for d in [[("t", 0, "a+"), ("t", 1, "[ab]+"), ("s", 0, "\\s+")], [("t", 0, "[ab]+"), ("t", 1, "a+"), ("s", 0, " ")], [("s", 0, " "), ("s", 0, "  +"), ("t", 2, "\\w*?b|\\w+")]]]
    longer = Fam(words=[b"a" * 70 + b" b", b"ab " * 40, b"a" * 300 + b" ", b"a" + b" " * 300 + b"b", b"ab" * 150 + b"?", b"b" * 257 + b" a" * 20])
    T += [tokz(d, longer, len(longer.words)) for d in [[("t", 0, "a+"), ("t", 1, "[ab]+"), ("s", 0, "\\s+")], [("t", 0, "(?:a|b)+?b"), ("t", 1, "a+"), ("s", 0, " ")]]]
    odd = Fam(words=unique([w for c in range(256) for z in [bytes([c])] for w in (z, z + z, b"a" + z, z + b"a", b"a" + z + b"b", z + b" a", b"a " + z)]))
    T += [tokz(d, odd) for d in [[("t", 0, "[^ ]+"), ("s", 0, " ")], [("t", 0, "\\w+"), ("t", 1, "\\W"), ("s", 0, "\\s")], [("t", 0, "."), ("t", 1, "[^\\w\\s]"), ("t", 2, "\\D\\w"), ("s", 0, "[ \\x00]"[:2] + "]")],
          [("t", 3, "[a-z]+"), ("s", 0, "[^a-z]")], [("t", 0, "a|b"), ("s", 0, "\\W+")], [("t", 0, "\\x00|\\xff"), ("t", 1, "a"), ("s", 0, "\\x00+"), ("s", 0, "\\x80")]]]
    kinds = texts(t)
    T += [tokz(d, kinds) for d in [[("t", 0, "[^ ]+"), ("t", 1, "a"), ("s", 0, " ")], [("t", 0, "a+"), ("t", 1, "."), ("s", 0, "\\s+")], [("t", 0, "\\S+?"), ("t", 1, ".."), ("s", 0, "\\W")], [("t", 0, "a"), ("s", 0, "\\n|\\r\\n")], [("t", 0, "[^\\s\\x00]*"), ("s", 0, "\\x00| ?")]]]
    longest = sized(LONG if t else LONG[::2] + [65536], lambda n: b"a" * n, lambda n: b"b a" + b" " * n + b"a", lambda n: b"ab " + b"a" * n + b" b", lambda n: b"ba" * (n // 2) + b" a")
    T += [tokz(d, longest) for d in [[("t", 0, "a"), ("t", 1, "[ab]+"), ("s", 0, "-"), ("s", 0, " +")], [("t", 0, "a+"), ("t", 1, "b|a"), ("s", 0, " "), ("s", 0, "\\s*")]]]
    custom.tok_explore(lab, T, "no separator; up to 12 definitions; up to 512 tokens; long tokens and separators", per_unit=3)


# ------------------------------------------------------------------- C16

OPS = [("a", (b"aba", b"b")), ("a*", (b"aab", b"")), ("(a)(b)?", (b"ab a", b"aab")), ("(a)|(b)", (b"ab", b"cb")), ("(?:(a)|(b)|c)+", (b"ab cb", b"c")), ("^", (b"a\nb", b"")),
       ("a*?b", (b"aab b", b"aa")), ("(a+)(b*)$", (b"ab\na", b"abb")), ("(?:a|ab)(c|bcd)?", (b"abcd a", b"abc")), ("(\\d+)-(\\d+)", (b"1-2 3-4", b"1-")), ("\\b"[:0] + "((a)(b))c?", (b"abc ab", b"abab")),
       ("(a?)(b?)", (b"ab", b"c")), ("$", (b"a\n", b"")), (".", (b"ab", b"\n")), ("(a)??b", (b"ab b", b"a"))]


def c16(lab):
    depth = 4 if lab.thorough else 3
    longer = [("a|(b)", (b"abaababbab", b"xxab")), ("(a)?(b)?(c)?", (b"abcxbcac", b"cba"))]
    custom.ops_explore(lab, OPS + longer, depth, "construct, copy, move, assign, next(), ++, iterate, read: on three results of one or two patterns")
    lab.extra["operations"] = "%d per state" % (3 * (4 + 2 + 3 * 6) + 4)
    lab.assumptions.append("A moved-from result is not looked at until it is assigned or constructed again.")


# ------------------------------------------------------------------- C19

TOKOPS = [("A=a+ B=[ab]+ sep= ", b"a ab  b", b"ab a"), ("A=a+ B=[ab]+ sep= ", b" aab b ?a", b""), ("A=a B=ab sep=,", b"a,ab,a", b"ab,"), ("A=a B=ab", b"ab", b"b"), ("sep=\\s+ A=\\w+ B=\\d+", b"12 a1\n", b" x"),
          ("B=\\w B=\\w\\w A=- sep= ?", b"a - bc", b"ab-c"), ("F=a* sep=b", b"aabab", b"ba"), ("A=(a)|(b) C=c? sep=,+ sep= ", b"a,b c,,a", b"c, a"), ("D=^a E=b$ sep=\\n", b"a\nb\n", b"\na\na"),
          ("A=a.c sep= ", b"a\0c abc", b"\0 a c"), ("A=x B=y C=z D=[xyz]+ sep= ", b"x y z xyz zz y", b"zyx x"), ("C=[^ ]+ sep= ", b"\xff a\0 \n", b" ")]


def c19(lab):
    def entry(d, *qs):
        defs = []
        for part in re.split(r" (?=[A-F]=|sep=)", d):
            k, r = part.split("=", 1)
            defs.append(("s", 0, r) if k == "sep" else ("t", "ABCDEF".index(k), r))
        return custom.Tokenizer(defs, None), qs
    custom.ops_explore(lab, [entry(*e) for e in TOKOPS], 4 if lab.thorough else 3, "construct, copy, move, assign, begin(), end(), ++, iterate, compare, read: on three iterators of one or two tokenizers")
    lab.extra["operations"] = "%d per state" % (3 * (4 + 2 + 3 * 6) + 4)
    lab.assumptions.append("A moved-from iterator is not looked at until it is assigned or constructed again.")


# ------------------------------------------------------------------- C20

def c20(lab):
    def tokenizer(d, *qs):
        defs = []
        for part in re.split(r" (?=[A-F]=|sep=)", d):
            k, r = part.split("=", 1)
            defs.append(("s", 0, r) if k == "sep" else ("t", "ABCDEF".index(k), r))
        return custom.Tokenizer(defs, None), qs
    more = [("\\w+\\s", (b"a_1 b\n", b"ab")), ("[^ab]+?[a-c]", (b"xxa b", b"aab")), ("\\x41|\\102|\\o{103104}", (b"ACDB", b"CC")), ("(?:ab){2,3}c{2}", (b"ababcc", b"ababab")),
            ("([\\d_]*)\\D\\W", (b"1_2a-", b"  ")), ("(a|b)*+(c{1,2}?)", (b"abacc", b"ccc"))]
    short = OPS + more + [tokenizer(*e) for e in TOKOPS]
    custom.thr_explore(lab, short, 3 if lab.thorough else 2, 3 if lab.thorough else 2, "threads that match, tokenize, and read, copy, iterate over and assign results and iterators that all see")
    lab.assumptions.append("Accesses to memory happen in one order, each at once (sequential consistency).")


CHECKS.update(C14=c14, C15=c15, C16=c16, C19=c19, C20=c20)
REPLAY.update(C20=custom.thr_replay, C14=custom.ind_replay, C15=custom.tok_replay, C16=custom.ops_replay, C19=custom.ops_replay)


# ------------------------------------------------------------------- C18

def c18(lab):
    t = lab.thorough
    m = dict(mode="optimized", flags=EXPRESSION)
    fam = Fam(words=[b""])
    ex = [p for k in range(1, 5) for p in canonical(expressions(k, "ab", QUANTS9))] + canonical(expressions(5, "ab", ["*", "+?"] if not t else QUANTS9))
    lab.explore(tasks(ex, fam, **m), "every expression")
    A = ["a", "[ab]", "[^a]", ".", "\\w", "\\W", "\\d", "(?:a|b)", "(ab)", "\\n", "[^\\n]", "(?:b?a)", "(?:a*)", "\\xff", "[!-~]"]
    Q = ["*", "+", "?", "*?", "+?", "??", "{1,2}", "{2,}?", "{2,3}", "{0,1}", "{3,}", "*+", "{0,2}+"] + (["{12,345}", "{0,}", "{1,}?", "{2}", "{0,1}?"] if t else [])
    F = ["", "a", "b", "[ac]", ".", "\\w", "\\W", "$", "a?b", "b*1", "b??a", "(?:b|a)", "(?:1|b*a)", "(?:b?)a", "b{0,2}a", "\\n", "[^b]", "b?", "1*b?$", "b+a", "c|a", "\\d*\\W*x"]
    lab.explore(tasks(x(A, Q, F), fam, **m), "a quantified item, then what it could give back to")
    C = [".", "\\s", "\\S", "\\d", "\\D", "\\w", "\\W", "\\n", "\\N", "\\t", "\\e", "[a-z]", "[^a-z]", "[\\d_]", "[^\\s]", "[!-~]", "a", "\\x80", "\\xff", "\\x00", "[^\\W]", "[^\\da]", "\\*", "[A-M]", "[N-Z]", "[\\w-]", "[a-cx-z]", "[d-w]", "[^!-~]"]
    lab.explore(tasks(x(C, ["*", "+?", "?"], C), fam, **m), "every two classes and sets")
    lab.explore(tasks(x(["\\d", "\\s", "[a-c]", "."], ["*", "+", "??", ""], ["\\d", "\\s", "[a-c]", "-"], ["*", "+", "+?", ""], ["\\d", "\\s", "[d-f]", "\\n"], ["*", "??", ""]) if t else x(["\\d", "\\s", "."], ["+", "*?", ""], ["\\s", "[a-c]"], ["*", "+", "+?"], ["\\d", "\\s", "-"], ["*", ""]), fam, **m), "three items in a row")
    lab.explore(tasks(x(["\\d+", "a*?", "[^b]?"], ["b", "(?:b|c)", "(b)?", "(?:b*|c)"], ["1", "a", ""], ["|", ""], ["b+1", "b*"], ["", "|a?"]), fam, **m), "alternatives, groups in between")
    lab.explore(tasks([f % n for n in numbers(t)[::1 if t else 4] for f in ("a{%d}?b", "a{%d,}+", "(?:b|a{1,%d}c)", "[ab]{0,%d}?a")], fam, **m), "numbers of all sizes")
    lab.explore(tasks(x(["a", "[ab]", "(?:a|c)", "[^b]"], ["*", "+?", "{1,2}"], ["a{0}", "(?:a){0,0}?", "(?:[ac]{0}|b)", "(a){0}+", "(?:(?:ab){0})?"], ["b", "b*a", "1?", ""]), fam, **m), "a quantified item, then what is never there")
    lab.explore(tasks([p for p, a, k in REALISTIC], fam, **m), "patterns people write", per_unit=4)


CHECKS.update(C18=c18)
