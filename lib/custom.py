"""Builds and runs units other than (pattern, words) tasks: tokenizers,
operations on results, independence. A violation found there is recorded with
what is needed to build and run it again alone."""
import concurrent.futures, os
from drive import *


def build_main(lab, name):
    obj = lab.path(name + ".o")
    if not os.path.exists(obj):
        r = call([CXX, "-std=c++23", "-O1", "-w", "-I" + LIB, "-c", os.path.join(LIB, name + ".cpp"), "-o", obj], 300)
        if r[0] != 0:
            raise Broken(name + ": " + first_error(r[2]))
    return obj


def build(lab, text, main_obj, timeout, flags=(), link=()):
    """(executable or None, first error)"""
    name = lab.name()
    cpp, obj, exe = lab.path(name + ".cpp"), lab.path(name + ".o"), lab.path(name)
    with open(cpp, "w") as f:
        f.write(text)
    headers = [] if flags else ["-include", lab.path("harness.hpp"), "-I" + lab.dir]     # precompiled without those flags
    r = call([CXX] + FLAGS + headers + ["-c", cpp, "-o", obj] + list(flags), timeout)
    os.unlink(cpp)
    if r[0] != 0:
        return None, first_error(r[2])
    l = call([CXX, obj] + ([main_obj] if main_obj else []) + ["-o", exe] + list(link), 120)
    if l[0] != 0:
        raise Broken("link: " + first_error(l[2]))
    os.unlink(obj)
    return exe, ""


def pool(fn, units):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futures = [ex.submit(fn, u) for u in units]
        try:
            return [f.result() for f in futures]
        except BaseException:
            for f in futures:
                f.cancel()
            raise


def split(l, k):
    return [l[i:i + k] for i in range(0, len(l), k)]


# ------------------------------------------------------------- tokenizers

class Tokenizer:
    """defs: list of ('t', type, regex) and ('s', 0, regex)"""

    def __init__(self, defs, fam, ct=0):
        self.defs, self.fam, self.ct = defs, fam, ct

    def text(self):
        return " ".join(("%s=%s" % ("ABCDEF"[t], r) if k == "t" else "sep=" + r) for k, t, r in self.defs)


def tok_unit(toks):
    fams, order = {}, []
    for t in toks:
        if t.fam.key() not in fams:
            fams[t.fam.key()] = len(order)
            order.append(t.fam)
    s = ['#include "tok_harness.hpp"\n']
    for i, f in enumerate(order):
        if f.words is not None:
            s.append("static constexpr std::string_view w%d[] = {%s};\n" % (i, ", ".join("std::string_view(%s, %d)" % (lit(w), len(w)) for w in f.words)))
    s.append("const TokFamily tok_families[] = {\n")
    for i, f in enumerate(order):
        s.append("{nullptr, 0, 0, w%d, %d},\n" % (i, len(f.words)) if f.words is not None else "{%s, %d, %d, nullptr, 0},\n" % (lit(f.alphabet), len(f.alphabet), f.max))
    s.append("};\n")
    entries = []
    for k, t in enumerate(toks):
        ds = [(kind, ty, r.encode("latin-1")) for kind, ty, r in t.defs]
        s.append("static constexpr Def d%d[] = {%s};\n" % (k, ", ".join("{'%s', %d, %s, %d}" % (kind, ty, lit(r), len(r)) for kind, ty, r in ds)))
        args = ", ".join("ht::token {ht::type::%s, %s}" % ("ABCDEF"[ty], lit(r)) if kind == "t" else "ht::separator {%s}" % lit(r) for kind, ty, r in ds)
        if t.ct:
            ws = t.fam.all()[:t.ct]
            s.append("static constexpr std::array<std::string_view, %d> c%d {%s};\n" % (len(ws), k, ", ".join("std::string_view(%s, %d)" % (lit(w), len(w)) for w in ws)))
            entries.append("ht::make_ct<c%d, %s>(d%d, %d, %d)" % (k, args, k, len(ds), fams[t.fam.key()]))
        else:
            entries.append("ht::make<%s>(d%d, %d, %d)" % (args, k, len(ds), fams[t.fam.key()]))
    s.append("const TokEntry tok_entries[] = {\n%s\n};\nconst int tok_count = %d;\n" % (",\n".join(entries), len(toks)))
    return "".join(s)


def tok_fail(lab, t, word, what):
    v = dict(custom="tokenizer", defs=t.defs, word_hex=word.hex() if word is not None else None, ct=t.ct,
             fam=dict(alphabet=t.fam.alphabet.hex(), max=t.fam.max, words=None if t.fam.words is None else [w.hex() for w in t.fam.words]))
    again = tok_replay(lab, v)
    if again is None:
        raise Broken("a violation does not happen again when replayed alone: %r %s" % (v, what))
    lab.custom_violation("tokenizer %s on %s: %s" % (t.text(), "any input" if word is None else "'%s'" % short(text(word)), again), v)


def tok_replay(lab, v):
    word = None if v["word_hex"] is None else bytes.fromhex(v["word_hex"])
    f = v["fam"]
    fam = Fam(bytes.fromhex(f["alphabet"]), f["max"], None if f["words"] is None else [bytes.fromhex(w) for w in f["words"]])
    t = Tokenizer([tuple(d) for d in v["defs"]], fam if v["ct"] else Fam(words=[word or b""]), v["ct"])
    exe, why = build(lab, tok_unit([t]), build_main(lab, "tok_main"), 300)
    if exe is None:
        return "is not accepted at compile time: " + why
    if word is None:
        return None
    code, out, err = call([exe, "0", lab.argument(word)], 300)
    for l in out.decode("latin-1").splitlines():
        if l.startswith("V\t"):
            return l.split("\t")[3]
    return None


def tok_explore(lab, toks, label, per_unit=24):
    main = build_main(lab, "tok_main")
    lab.bounds.append({"what": label, "tokenizers": len(toks), "words": sorted({t.fam.describe() for t in toks})})

    def work(unit):
        if lab.enough():
            lab.capped = True
            return
        exe, why = build(lab, tok_unit(unit), main, max(60, 6 * len(unit)))
        if exe is None:
            if len(unit) == 1:
                tok_fail(lab, unit[0], None, why)
                return
            for half in split(unit, -(-len(unit) // 2)):
                work(half)
            return
        code, out, err = call([exe], 3600)
        os.unlink(exe)
        lines = out.decode("latin-1").splitlines()
        if code != 0 or not lines or lines[-1] != "E":
            raise Broken("tok_main ended with %s: %s %s" % (code, lines[-2:], err[-300:]))
        crashed = None
        for l in lines:
            f = l.split("\t")
            if f[0] == "V":
                if f[3].startswith("(outside"):
                    raise Broken(f[3])
                tok_fail(lab, unit[int(f[1])], b"" if f[2] == "-" else bytes.fromhex(f[2]), f[3])
                crashed = int(f[1])
            elif f[0] == "S":
                crashed = None
                count(lab, f, len(unit))
        if crashed is not None and not lab.enough():
            if unit[crashed + 1:]:
                work(unit[crashed + 1:])
    pool(work, split(toks, max(1, min(per_unit, -(-len(toks) // JOBS)))))


def count(lab, f, n):
    with lab.lock:
        for k, v in zip(("states", "transitions", "traces_validated_against_impl", "outcomes"), f[1:5]):
            lab.cov[k] += int(v)
        lab.cov["patterns"] += n
        lab.cov["compiled_units"] += 1
        if f[5] and len(lab.samples) < 8:
            lab.samples.append(f[5])


# ------------------------------------------------------------- operations

def ops_unit(entries):
    s = ['#include "ops_harness.hpp"\nconst OpsEntry ops_entries[] = {\n']
    for p, _ in entries:
        if isinstance(p, Tokenizer):
            args = ", ".join("e_regex::token {ho::type::%s, %s}" % ("ABCDEF"[ty], lit(r.encode())) if kind == "t" else "e_regex::separator {%s}" % lit(r.encode()) for kind, ty, r in p.defs)
            s.append("ho::tokops<%s>::entry(%s),\n" % (args, lit(p.text().encode())))
        else:
            s.append("ho::ops<%s>::entry(%s),\n" % (lit(p.encode()), lit(p.encode())))
    s.append("};\nconst int ops_count = %d;\nconst std::string_view ops_queries[] = {\n" % len(entries))
    for _, qs in entries:
        for q in qs:
            s.append("std::string_view(%s, %d),\n" % (lit(q), len(q)))
    s.append("};\n")
    return "".join(s)


def ops_name(p):
    return "tokenizer " + p.text() if isinstance(p, Tokenizer) else "/%s/" % p


def ops_record(entries):
    return [[p.defs if isinstance(p, Tokenizer) else p, [q.hex() for q in qs]] for p, qs in entries]


def ops_explore(lab, entries, depth, label):
    main = build_main(lab, "ops_main")
    lab.bounds.append({"what": label, "patterns": len(entries), "slots": 3, "every sequence up to": depth, "then": "every reachable combination of (query, steps) of the slots"})
    lab.extra.setdefault("reachable_model_states", 0)

    def work(unit):
        if lab.enough():
            lab.capped = True
            return
        exe, why = build(lab, ops_unit(unit), main, 300)
        if exe is None:
            if len(unit) == 1:
                lab.custom_violation("%s: operations are not accepted at compile time: %s" % (ops_name(unit[0][0]), why), dict(custom="ops", entries=ops_record(unit), ops=None))
                return
            for u in unit:
                work([u])
            return
        code, out, err = call([exe, str(depth)], 3600)
        os.unlink(exe)
        lines = out.decode("latin-1").splitlines()
        if code != 0 or not lines or lines[-1] != "E":
            raise Broken("ops_main ended with %s: %s %s" % (code, lines[-2:], err[-300:]))
        for l in lines:
            f = l.split("\t")
            if f[0] == "V":
                if f[3].startswith("(outside"):
                    raise Broken(f[3])
                a, b = divmod(int(f[1]), 1000)
                pair = [unit[a]] + ([unit[b]] if b != a else [])
                v = dict(custom="ops", entries=ops_record(pair), ops=f[2])
                again = ops_replay(lab, v)
                if again is None:
                    raise Broken("a violation does not happen again when replayed alone: %r %s" % (v, f[3]))
                lab.custom_violation("%s: %s" % (" and ".join(ops_name(p) for p, _ in pair), again), v)
            elif f[0] == "R":
                with lab.lock:
                    lab.extra["reachable_model_states"] += int(f[1])
            elif f[0] == "S":
                f[5] = ""
                count(lab, f, len(unit))
    pool(work, split(entries, max(2, min(6, -(-len(entries) // JOBS)))))
    if len(lab.samples) < 8:
        lab.samples.append("%s on '%s' and '%s': construct, next, ++, copy, move, assign, begin(), end(), range-for, read, in every order" % (ops_name(entries[0][0]), text(entries[0][1][0]), text(entries[0][1][1])))


def ops_replay(lab, v):
    entries = [(p if isinstance(p, str) else Tokenizer([tuple(d) for d in p], None), [bytes.fromhex(q) for q in qs]) for p, qs in v["entries"]]
    exe, why = build(lab, ops_unit(entries), build_main(lab, "ops_main"), 300)
    if exe is None:
        return "operations are not accepted at compile time: " + why
    if v["ops"] is None:
        return None
    code, out, err = call([exe, "0", "1" if len(entries) > 1 else "0", v["ops"]], 300)
    for l in out.decode("latin-1").splitlines():
        if l.startswith("V\t"):
            return l.split("\t")[3]
    return None


# ---------------------------------------------------------------- threads

# Accesses to memory are calls; thr_main.cpp has what is called
THR_FLAGS = ["-fsanitize=thread", "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign"]
THR_LINK = ["-pthread"] + ["-Wl,--wrap=" + f for f in "memcpy memmove memset memcmp memchr pthread_mutex_lock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort".split()]


def thr_explore(lab, entries, bound, threads, label):
    main = build_main(lab, "thr_main")
    lab.bounds.append({"what": label, "patterns and tokenizers": len(entries), "threads": threads,
                       "schedules": "all of them up to the order of accesses that cannot influence each other; where accesses can, up to %d preemptions; for two threads also every single preemption before any access" % bound})
    for k in ("schedules", "accesses", "schedules_abandoned", "combinations_cut_short"):
        lab.extra.setdefault(k, 0)

    def work(unit):
        if lab.enough():
            lab.capped = True
            return
        exe, why = build(lab, ops_unit(unit), main, 300, THR_FLAGS, THR_LINK)
        if exe is None:
            if len(unit) == 1:
                lab.custom_violation("%s: operations are not accepted at compile time: %s" % (ops_name(unit[0][0]), why), dict(custom="thr", entries=ops_record(unit), ops=None))
                return
            for u in unit:
                work([u])
            return
        args = [str(bound), str(threads), "600" if lab.thorough else "250"]
        code, out, err = call([exe] + args, 3600)
        os.unlink(exe)
        lines = out.decode("latin-1").splitlines()
        if code != 0 or not lines or lines[-1] != "E":
            raise Broken("thr_main ended with %s: %s %s" % (code, lines[-2:], err[-300:]))
        for l in lines:
            f = l.split("\t")
            if f[0] == "V":
                v = dict(custom="thr", entries=ops_record(unit), ops=f[2], args=args)
                again = thr_replay(lab, v)
                if again is None:
                    raise Broken("a violation does not happen again when replayed alone: %r %s" % (v, f[3]))
                a, b = divmod(int(f[1]), 1000)
                lab.custom_violation("%s: %s" % (" and ".join(ops_name(unit[k][0]) for k in sorted({a, b})), again), v)
            elif f[0] == "R":
                with lab.lock:
                    for k, n in zip(("schedules", "accesses", "schedules_abandoned", "combinations_cut_short"), f[1:]):
                        lab.extra[k] += int(n)
                    lab.capped |= int(f[4]) > 0
            elif f[0] == "S":
                f[5] = ""
                count(lab, f, len(unit))
    pool(work, split(entries, max(2, min(6, -(-len(entries) // JOBS)))))
    if len(lab.samples) < 8:
        lab.samples.append("%s: one thread matches '%s', another copies and steps a result of '%s' that both see" % (ops_name(entries[0][0]), text(entries[0][1][1]), text(entries[0][1][0])))


def thr_replay(lab, v):
    entries = [(p if isinstance(p, str) else Tokenizer([tuple(d) for d in p], None), [bytes.fromhex(q) for q in qs]) for p, qs in v["entries"]]
    exe, why = build(lab, ops_unit(entries), build_main(lab, "thr_main"), 300, THR_FLAGS, THR_LINK)
    if exe is None:
        return "operations are not accepted at compile time: " + why
    if v["ops"] is None:
        return None
    code, out, err = call([exe] + v["args"] + [v["ops"]], 600)
    for l in out.decode("latin-1").splitlines():
        if l.startswith("V\t"):
            return l.split("\t")[3]
    return None


# ----------------------------------------------------------- independence

IND = """#include "harness.hpp"
#include <cstdio>
template<e_regex::static_string... C> struct columns
{
    template<e_regex::static_string R> static void row()
    {
        using A = e_regex::regex<R>;
        ((putchar('0' + (A {}.is_independent(e_regex::regex<C> {}) ? 1 : 0) + (A::template is_independent<e_regex::regex<C>>() ? 2 : 0))), ...);
        putchar('\\n');
    }
};
"""


def ind_unit(rows, cols):
    s = [IND, "using all = columns<%s>;\n" % ", ".join(lit(c.encode("latin-1")) for c in cols), "int main() {\n"]
    for r in rows:
        s.append("all::row<%s>();\n" % lit(r.encode("latin-1")))
    s.append("}\n")
    return "".join(s)


def ind_ask(lab, rows, cols):
    """The answers for rows x cols, as lists of strings; None if not compiled"""
    exe, why = build(lab, ind_unit(rows, cols), None, 600)
    if exe is None:
        return None, why
    code, out, err = call([exe], 300)
    lines = out.decode().splitlines()
    os.unlink(exe)
    if code != 0 or len(lines) != len(rows):
        raise Broken("the independence unit ended with %s" % code)
    return lines, ""


def ind_ref(lab, pats):
    exe = lab.path("indref")
    if not os.path.exists(exe):
        r = call([CXX, "-std=c++23", "-O2", "-w", "-I" + LIB, os.path.join(LIB, "indref.cpp"), "-o", exe], 300)
        if r[0] != 0:
            raise Broken("indref: " + first_error(r[2]))
    parts = split(pats, max(1, -(-len(pats) // JOBS)))

    def one(part):
        code, out, err = call([exe], 900, stdin="".join(p.encode("latin-1").hex() + "\n" for p in part).encode())
        lines = out.decode().splitlines()
        if code != 0 or len(lines) != len(part):
            raise Broken("indref ended with %s %s" % (code, err[-200:]))
        return [l.split(" ") for l in lines]
    res = []
    for r in pool(one, parts):
        for d, f, fl in r:
            res.append((int(d, 2), int(f, 2), fl))
    return res


def ind_wrong(a, b, ra, rb, ab, ba):
    """What is wrong with the answers ab (of a about b) and ba, or None"""
    (da, fa, la), (db, fb, lb) = ra, rb
    if ab[0] not in "03" or ba[0] not in "03":
        return "is_independent(other) and is_independent<Other>() differ"
    if ab != ba:
        return "the answer depends on the direction"
    common = da & db
    if ab == "3" and common:
        c = next(i for i in range(256) if common >> (255 - i) & 1)
        return "reported as independent, both can begin with byte %d" % c
    if ab == "0" and not (fa & fb) and not any(x in la + lb for x in "pas"):
        return "not reported as independent, but no byte can begin both"
    return None


def ind_replay(lab, v):
    a, b = v["pair"]
    ans, why = ind_ask(lab, [a, b], [a, b])
    if ans is None:
        return "is not accepted at compile time: " + why
    if v.get("compile"):
        return None
    ra, rb = ind_ref(lab, [a, b])
    return ind_wrong(a, b, ra, rb, ans[0][1], ans[1][0])


def ind_explore(lab, pats, label, others=None):
    """Every ordered pair of pats; with others, every pair of one and one of
    the others, in both directions"""
    n = len(pats)
    cols = pats if others is None else others
    refs, crefs = ind_ref(lab, pats), ind_ref(lab, cols)
    lab.bounds.append({"what": label, "patterns": n, "ordered pairs": n * len(cols) * (1 if others is None else 2)})
    lab.extra["pairs_with_disjoint_first_bytes"] = lab.extra.get("pairs_with_disjoint_first_bytes", 0) + sum(1 for a in refs for b in crefs if not a[0] & b[0])
    answers = {}

    def work(unit):
        if lab.enough():
            lab.capped = True
            return
        rows, all = unit
        ans, why = ind_ask(lab, rows, all)
        if ans is None and len(rows) > 1:
            for half in split(rows, -(-len(rows) // 2)):
                work((half, all))
        elif ans is None:
            for q in all:
                if ind_ask(lab, rows, [q])[0] is None:
                    v = dict(custom="independence", pair=[rows[0], q], compile=True)
                    lab.custom_violation("/%s/ and /%s/: is_independent is not accepted at compile time: %s" % (rows[0], q, why), v)
                    return
            raise Broken("independence: " + why)
        else:
            with lab.lock:
                for r, l in zip(rows, ans):
                    for c, z in zip(all, l):
                        answers[r, c] = z
                lab.cov["compiled_units"] += 1
    units = [(r, cols) for r in split(pats, max(1, -(-n // (2 * JOBS))))]
    if others is not None:
        units += [(r, pats) for r in split(cols, max(1, -(-len(cols) // (2 * JOBS))))]
    pool(work, units)
    for a, ra in zip(pats, refs):
        for b, rb in zip(cols, crefs):
            if (a, b) not in answers or (b, a) not in answers or lab.enough():
                continue
            k = 1 if others is None else 2
            lab.cov["states"] += k
            lab.cov["transitions"] += 2 * k
            lab.cov["traces_validated_against_impl"] += k
            what = ind_wrong(a, b, ra, rb, answers[a, b], answers[b, a])
            if what:
                v = dict(custom="independence", pair=[a, b])
                again = ind_replay(lab, v)
                if again is None:
                    raise Broken("a violation does not happen again when replayed alone: %r %s" % (v, what))
                lab.custom_violation("/%s/ and /%s/: %s" % (a, b, again), v)
    lab.cov["patterns"] += n if others is None else n + len(cols)
    for i, j in [(0, 1), (n // 2, n // 3), (n - 1, n // 2)]:
        if (pats[i], cols[j]) in answers and len(lab.samples) < 8:
            lab.samples.append("/%s/ and /%s/: %s" % (pats[i], cols[j], "independent" if answers[pats[i], cols[j]] == "3" else "not independent"))
