#!/usr/bin/env python3
"""check.py <property> : decides one property of the crate in /repo by static analysis (see DESIGN.md)."""
import json, os, random, sys, time
import harness
import effects

VERIF = harness.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
EV = os.path.join(VERIF, "evidence")
BOTH = ("debug", "release")
ALLP = ("debug", "release", "dbg-noovf", "rel-ovf")

BAD = ("DIFF", "PANIC", "HANG")
# constants of the crate as it stands: only used to put constants that a change introduced first
USUAL = set(range(0, 17)) | {24, 32, 40, 48, 56, 63, 64, 96, 128}


# an output size of more than 16 bits, as it is absorbed: two graphs that share little need more memory
LONG = (65568, 16, 8, 1, 3, 1)


def core(k, p, s, t, r, c, spec="ideal"):
    alt = "" if p % 8 == 0 and s % 8 == 0 else " alt=spec::refs::lyra2_known"
    ref = "lyra2_ideal" if spec == "ideal" else "lyra2_known"
    if spec != "ideal":
        alt = ""
    if (k, p, s, t, r, c) == LONG:
        alt += " mem=7000"
    return "kind=equal spec=spec::refs::%s%s impl=spec::entry::core args=k:%d,v:%d:p,v:%d:s,k:%d,k:%d,k:%d" % (ref, alt, k, p, s, t, r, c)


def fits(p, s, r, c):
    return ((p + s + 48) // 64 + 1) * 8 <= 12 * r * c


def cands(r):
    """number of rows that can be picked by masking with r - 1"""
    return min(r, 1 << bin(max(r, 1) - 1).count("1"))


def weight(k, p, s, t, r, c):
    return 0.1 + (t + 1) * r * c * 0.002 + t * r * cands(r) * c * 0.0006 + (p + s + k) * 0.00026


def ctx_ok(x):
    k, p, s, t, r, c = x
    return k >= 0 and p >= 0 and s >= 0 and t >= 1 and r >= 3 and c >= 1 and fits(p, s, r, c) and weight(*x) < 60 and t * r * cands(r) * c <= 80000 and (t + 1) * r * c <= 24000 and ((p + s) // 64 + 1) * 12 * r * c <= 9000000


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.viol = []     # (key, text)
        self.known = []
        self.undecided = []
        self.cov = {"functions": set(), "calls": 0, "obligations": 0, "discharged": 0, "nodes": 0, "joins": 0}
        self.pairs = 0
        self.equal = 0
        self.samples = []
        self.rule = ""
        self.assume = []
        self.notes = []
        self.edges = set()
        self.untaken = set()
        self.mined = set()
        self.mined_core = set()
        self.extra = {}
        self.t0 = time.time()

    def add(self, prof, line, r):
        self.pairs += 1
        self.cov["functions"].update(r.get("functions", []))
        for k in ("calls", "obligations", "discharged", "nodes", "joins"):
            self.cov[k] += r.get(k, 0)
        self.edges.update(r.get("edges", []))
        self.untaken.update(r.get("untaken", []))
        self.mined.update(r.get("mined", []))
        if "entry::core" in line:
            self.mined_core.update(r.get("mined", []))
        if r["verdict"] in ("EQUAL", "ALT", "REFUSED"):
            self.equal += 1
        if len(self.samples) < 6 or r["verdict"] not in ("EQUAL", "ALT", "REFUSED") and len(self.samples) < 12:
            self.samples.append({"profile": prof, "task": line, "verdict": r["verdict"], "obligations": r.get("obligations"), "discharged": r.get("discharged"), "nodes": r.get("nodes"), "output_bytes": r.get("outlen")})

    def bad(self, prof, line, r, why=None):
        self.viol.append(("%s %s" % (r["verdict"], line), "[%s] %s: %s; %s" % (prof, why or r["verdict"], line, "; ".join(r.get("detail", [])[:4]))))

    def hmm(self, prof, line, r):
        self.undecided.append("[%s] %s: %s; %s" % (prof, r["verdict"], line, "; ".join(r.get("detail", [])[:2])))


def known_findings():
    out = []
    for l in open(os.path.join(VERIF, "known_findings.jsonl")):
        l = l.strip()
        if l:
            out.append(json.loads(l))
    return out


# ---------------------------------------------------------------------------------------------- core sweep
LENS = [0, 1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 40, 47, 48, 49, 55, 56, 63, 64, 65, 71, 72, 79, 80, 81, 88, 95, 96, 97, 104, 112, 119, 120, 127, 128, 129, 136, 160, 191, 192, 193, 200, 248, 255, 256, 257, 264, 320, 384, 512, 513]


def base_contexts(focus):
    X = []
    if focus == "absorb":
        for n in LENS:
            X += [(32, n, n, 1, 4, 4), (32, n, 0, 1, 4, 4), (32, 0, n, 1, 4, 4), (32, n, 32, 1, 4, 4), (32, 32, n, 1, 4, 4), (32, n, 8, 2, 5, 3)]
        for a in range(0, 17):
            for b in (0, 3, 8, 13):
                X.append((32, a, b, 1, 3, 2))
        for a in range(8):
            # every pair of residues modulo the word size, short and long
            for b in range(8):
                X += [(32, 64 + a, 40 + b, 1, 4, 2), (32, a, 72 + b, 1, 3, 2), (32, 120 + a, 8 + b, 1, 3, 2)]
        X.append(LONG)
        for n in (600, 700, 740):
            X.append((32, n, n, 1, 4, 4))
        for n in (1000, 1024, 1400):
            X += [(32, n, 16, 1, 4, 4), (32, 16, n, 1, 4, 4)]
        for k in (0, 1, 8, 31, 64, 255, 256, 300):
            X.append((k, 16, 24, 1, 4, 2))
        for t in (2, 3, 8, 255, 256, 257):
            X.append((32, 16, 24, t, 3, 1) if t > 100 else (32, 16, 24, t, 4, 2))
        for r, c in ((3, 1), (5, 2), (16, 1), (3, 17), (40, 1), (4, 33)):
            X.append((32, 16, 8, 1, r, c))
        X += [(32, 16384, 8, 1, 3, 58), (32, 8, 16400, 1, 4, 43), (32, 4096, 4096, 1, 4, 30), (32, 2048, 2056, 1, 3, 20), (32, 65536, 8, 1, 3, 256), (32, 16, 65544, 1, 3, 256)]
        for r, c in ((3, 1), (3, 2), (4, 1), (4, 2), (5, 1)):
            cap = 12 * r * c // 8 * 64 - 64 - 48 + 63  # largest p+s that fits
            X += [(32, cap, 0, 1, r, c), (32, 0, cap, 1, r, c), (32, cap // 2, cap - cap // 2, 1, r, c), (32, cap // 16 * 8, cap // 16 * 8, 1, r, c)]
    elif focus == "shape":
        for r in range(3, 19):
            for c in (1, 2, 3, 4):
                X.append((32, 8, 8, 1, r, c))
            X += [(32, 16, 8, 2, r, 1), (32, 8, 16, 3, r, 2)]
        for c in range(5, 19):
            X += [(32, 8, 8, 1, 4, c), (32, 16, 8, 2, 3, c)]
        for r in (20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 96, 100, 127, 128, 129, 255, 256, 257):
            X.append((32, 8, 8, 1, r, 1))
        for c in (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 1024):
            X.append((32, 8, 8, 1, 4, c))
        for r in (258, 300, 385, 513, 514, 516, 520, 577, 769, 1025, 1026, 1057, 2049, 4097, 8193):
            X.append((32, 8, 8, 1, r, 1))
        X += [(32, 8, 8, 2, 513, 2), (32, 8, 8, 1, 1025, 3), (32, 8, 8, 3, 1025, 1), (32, 8, 8, 1, 3, 3900), (32, 8, 8, 1, 5, 1500), (32, 8, 8, 2, 9, 257)]
        for r, c in ((128, 2), (64, 8), (32, 32), (16, 64), (10, 100), (3, 2048)):
            X.append((32, 8, 8, 1, r, c))
        for r, c in ((8, 8), (7, 9), (16, 4), (12, 5), (5, 12), (6, 6)):
            X += [(32, 32, 32, 1, r, c), (48, 32, 16, 2, r, c)]
    elif focus == "time":
        for t in range(1, 19):
            for r, c in ((3, 1), (4, 2), (5, 1), (8, 1), (6, 2)):
                X.append((32, 8, 8, t, r, c))
        for t in (24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129):
            X += [(32, 8, 8, t, 3, 1), (32, 8, 8, t, 4, 1)]
        for t in (200, 255, 256, 257, 300, 365, 500, 511, 512, 513, 1000, 1023, 1024, 1025):
            X += [(32, 8, 8, t, 3, 1), (32, 8, 8, t, 4, 1)]
        for t in (2047, 2048, 4096, 4097):
            X.append((32, 8, 8, t, 3, 1))
        for t in (20, 50, 100):
            X += [(32, 8, 8, t, 16, 1), (32, 8, 8, t, 8, 4)]
        for t in (2, 3, 4, 5):
            X += [(64, 32, 32, t, 8, 4), (16, 24, 32, t, 16, 2), (100, 16, 32, t, 7, 3)]
    elif focus == "out":
        for k in list(range(0, 131)) + list(range(131, 300, 7)) + [191, 192, 193, 255, 256, 257, 287, 288, 289, 383, 384, 385, 480, 500, 512, 576, 768, 1000, 1023, 1024, 1025, 2048, 3072, 4095, 4096, 4097, 8192, 10000, 16384, 24576, 32768, 65535, 65536, 65537]:
            X.append((k, 8, 8, 1, 3, 1))
        for k in (0, 7, 31, 32, 33, 64, 95, 96, 97, 100, 128, 192, 193, 256):
            X += [(k, 32, 16, 2, 4, 2), (k, 64, 0, 1, 5, 3), (k, 0, 0, 3, 8, 1)]
    elif focus == "total":
        X += [(32, 8, 8, 3, 128, 1), (32, 8, 8, 5, 17, 1), (32, 16, 0, 4, 9, 3), (1024, 8, 8, 1, 3, 1), (32, 8, 8, 1, 3, 700)]
        for x in base_contexts("absorb")[::5] + base_contexts("shape")[::4] + base_contexts("time")[::6] + base_contexts("out")[::6]:
            X.append(x)
    X += relational()
    return [x for x in dict.fromkeys(X) if ctx_ok(x)]


def relational():
    """contexts in which two parameters, or one and a size derived from others, are equal (or nearly)"""
    X = []
    for v in (9, 16, 24):
        for i in range(6):
            for j in range(i):
                x = [32, 8, 8, 1, 4, 2]
                x[i] = x[j] = v
                x[4], x[5] = big_enough(x[1], x[2], x[4], x[5])
                X.append(tuple(x))
    X += [(16, 16, 16, 16, 16, 2), (5, 5, 5, 5, 5, 5), (8, 8, 8, 8, 8, 8), (9, 9, 9, 9, 9, 1)]
    for r, c in ((4, 2), (5, 3), (3, 4), (8, 1)):
        row, mat = 96 * c, 96 * r * c
        X += [(k, 8, 8, 1, r, c) for k in (r * c, r * c + 1, row, row + 1, row - 1, mat, mat + 1, 12 * c, 12 * r * c, mat * 8 + 8)]
        X += [(32, n, 8, 1, r, c) for n in (r * c, row, row - 8, row + 8, 12 * c, row - 48, row - 56)]
        X += [(32, 8, n, 1, r, c) for n in (r * c, row, row - 8, row + 8, 12 * c, row - 48, row - 56)]
        X += [(32, 8, 8, t, r, c) for t in (r - 1, r, r + 1, c, c + 1, r * c, r * c + 1, 12 * c)]
    return X


def grid():
    """many light contexts: output sizes, residues of both lengths, shapes, time costs"""
    X = [(k, 8, 8, 1, 3, 1) for k in list(range(0, 34)) + [40, 47, 48, 56, 63, 64, 65, 71, 80, 95, 96, 97, 100, 128, 192, 193, 200, 256, 289]]
    X += [(32, 48 + a, 40 + b, 1, 4, 2) for a in range(8) for b in range(8)] + [(32, n, 0, 1, 3, 2) for n in range(0, 18)] + [(32, 3, n, 1, 3, 2) for n in range(0, 18)]
    X += [(32, 8, 8, 1, r, c) for r in range(3, 18) for c in (1, 2, 3)] + [(32, 8, 8, 1, 4, c) for c in range(4, 18)]
    X += [(32, 8, 8, t, r, 1) for t in range(2, 12) for r in (3, 4, 5, 8)]
    X += [(32, 8, 8, 1, r, 1) for r in (20, 24, 31, 32, 33, 63, 64, 65)] + [(32, 8, 8, t, 3, 1) for t in (16, 17, 31, 32, 33, 64, 65, 100)]
    X += [(32, n, n, 1, 4, 4) for n in (64, 80, 96, 127, 128, 129, 200, 256, 300)]
    return [x for x in dict.fromkeys(X) if ctx_ok(x)]


FOCUS = {"absorb": "kps", "shape": "rcx", "time": "t", "out": "k", "total": "krct"}


def param_contexts(vals, focus, full=True):
    """contexts in which one parameter, or a quantity derived from several, takes one of the values;
    without `full` only the parameters that the property is about"""
    X = []
    f = "kpstrcdx" if full else FOCUS[focus]
    for v in vals:
        for b in ((32, 8, 8, 1, 4, 2), (40, 24, 16, 2, 5, 1))[: 2 if full else 1]:
            k, p, s, t, r, c = b
            if "k" in f:
                X.append((v, p, s, t, r, c))
            if "p" in f:
                X.append((k, v, s, t, *big_enough(v, s, r, c)))
            if "s" in f:
                X.append((k, p, v, t, *big_enough(p, v, r, c)))
                X.append((k, v, v, t, *big_enough(v, v, r, c)))
            if "t" in f:
                X.append((k, p, s, v, 3, 1))
            if "r" in f:
                X.append((k, p, s, t, v, 1))
                if v > 64:
                    # the next number of rows with few candidates
                    w = 1 << (v - 1).bit_length()
                    X += [(k, p, s, t, w + 1, 1), (k, p, s, t, w + 2, 2)]
            if "c" in f:
                X.append((k, p, s, t, 4, v))
        if "d" in f:
            for q in (8, 16, 32):
                if v >= q:
                    X.append((32, q, v - q, 1, *big_enough(v, 0, 4, 4)))
                    X.append((32, v - q, q, 1, *big_enough(v, 0, 4, 4)))
            X.append((v, v, v, 1, *big_enough(v, v, 4, 4)))
            X.append((32, v * 64, 0, 1, *big_enough(v * 64, 0, 4, 4)))
        if "x" in f:
            for d in (3, 4, 5, 8):
                if v % d == 0 and v // d >= 1:
                    X += [(32, 8, 8, 1, d, v // d), (32, 8, 8, v // d, d, 1)]
                    if v // d >= 3:
                        X.append((32, 8, 8, 1, v // d, d))
            if v % 12 == 0:
                w = v // 12
                for r in (3, 4, 5, 7):
                    if w % r == 0:
                        X.append((32, 8, 8, 1, r, w // r))
    return [x for x in dict.fromkeys(X) if ctx_ok(x)]


def big_enough(p, s, r, c):
    while not fits(p, s, r, c):
        c += 1
    return r, c


def pair_contexts(vals):
    """two parameters take introduced constants (or their neighbours) together"""
    X = []
    for a in vals:
        for b in vals:
            for da, db in ((0, 0), (1, 1), (-1, -1), (1, -1), (0, 1), (1, 0)):
                u, v = a + da, b + db
                if u < 0 or v < 0:
                    continue
                for i in range(6):
                    for j in range(6):
                        if i == j:
                            continue
                        x = [32, 8, 8, 1, 4, 2]
                        x[i], x[j] = u, v
                        if i != 5 and j != 5:
                            if not fits(x[1], x[2], max(x[4], 3), x[5]):
                                x[5] = big_enough(x[1], x[2], max(x[4], 3), x[5])[1]
                        X.append(tuple(x))
    return [x for x in dict.fromkeys(X) if ctx_ok(x) and weight(*x) < 12]


def sweep(rep, ses, focus, profiles, judge, budget, count=BAD):
    """runs contexts in rounds; later rounds use the constants and the untaken branches found by earlier ones"""
    done = set()
    t_end = min(ses.deadline - 40, time.time() + budget)
    stats = {"rounds": []}

    def go(xs, name, profs=profiles, cap=None):
        xs = [x for x in xs if x not in done]
        if cap:
            tot, ys = 0.0, []
            for x in xs:
                tot += weight(*x)
                if tot > cap:
                    break
                ys.append(x)
            xs = ys
        if not xs or time.time() > t_end:
            return
        done.update(xs)
        tasks = [(p, core(*x), weight(*x)) for x in xs for p in profs]
        res = ses.run(tasks, timeout=max(20, t_end - time.time()), stop=count)
        for (p, l), r in res.items():
            rep.add(p, l, r)
            judge(p, l, r)
        stats["rounds"].append({"name": name, "contexts": len(xs), "seconds": round(time.time() - ses.t0, 1)})

    go(base_contexts(focus), "base")
    if not rep.viol:
        mined = sorted(m for m in rep.mined if 2 <= m <= 70000)
        novel = [m for m in mined if m not in USUAL]
        near = lambda ms: list(dict.fromkeys(v for m in ms for v in (m, m + 1, m - 1)))
        cap = budget * 6
        go(param_contexts(near(novel), focus), "introduced constants", cap=cap)
        if not rep.viol:
            go(param_contexts(near(m for m in mined if m in USUAL), focus, full=bool(novel) or THOROUGH), "constants", ("debug",) if not THOROUGH else profiles, cap=cap)
        if not rep.viol and novel:
            go(pair_contexts(novel[:5]), "pairs", ("debug",), cap=cap)
            if not rep.viol:
                mixed = [x for x in pair_contexts(novel[:3] + [2, 3, 5, 8, 32]) if x not in done]
                random.Random(SEED).shuffle(mixed)
                go(mixed, "mixed pairs", ("debug",), cap=cap)
        left = rep.untaken - rep.edges
        if not rep.viol and left:
            rng = random.Random(SEED)
            xs = []
            for _ in range(400):
                xs.append((rng.choice([0, 1, 8, 32, 33, 96, 97, 200]), rng.choice(LENS), rng.choice(LENS), rng.randint(1, 6), rng.randint(3, 17), rng.randint(1, 9)))
            go([x for x in dict.fromkeys(xs) if ctx_ok(x)], "untaken branches", ("debug",), cap=cap)
        if not rep.viol and THOROUGH:
            rng = random.Random(SEED)
            xs = []
            for _ in range(4000):
                xs.append((rng.randint(0, 400), rng.randint(0, 300), rng.randint(0, 300), rng.choice([1, 1, 2, 3, 4, 5, 8, 13, 21]), rng.randint(3, 24), rng.choice([1, 2, 3, 4, 5, 8, 11, 16])))
            go([x for x in dict.fromkeys(xs) if ctx_ok(x) and weight(*x) < 6], "random", ("debug",), cap=(t_end - time.time()) * 6)
    rep.extra["contexts"] = len(done)
    rep.extra["sweep_rounds"] = stats["rounds"]
    rep.extra["constants_mined"] = len(rep.mined)


HUGE = [(1 << 8) * 64, 1 << 16, (1 << 16) + 1, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 63, (1 << 63) + 1, (1 << 64) - 1]


def counters16(rep, ses):
    """arithmetic of 16 bits in the general function: one analysis with more passes than 16 bits can count"""
    if not {1 << 15, 1 << 16} <= rep.mined_core or ses.deadline - time.time() < 120:
        return None
    l = "kind=huge mem=18000 impl=spec::entry::core args=k:32,v:8:p,v:8:s,k:65537,k:3,k:1"
    r = ses.run([("debug", l, 1)])[("debug", l)]
    rep.extra["counters_of_16_bits"] = r["verdict"]
    rep.cov["functions"].update(r.get("functions", []))
    return (l, r) if r["verdict"] == "PANIC" else None


def core_check(focus, budget, count=BAD):
    def f(rep):
        rep.rule = ("for each parameter context (k, |pwd|, |salt|, T, R, C) every byte of pwd and salt is a free symbol; the value graph of the crate's "
                    "lyra2::lyra2::lyra2 must have the same normal form as that of the reference definition, and every panic obligation must be discharged")
        with harness.Session(BOTH) as ses:
            def judge(p, l, r):
                v = r["verdict"]
                if v in count:
                    rep.bad(p, l, r)
                elif v == "MISSING":
                    rep.bad(p, l, r, "anchor missing")
                elif v == "ALT":
                    pass
                elif v != "EQUAL" and not (v in BAD):
                    rep.hmm(p, l, r)
            # the known finding concerns what is absorbed; elsewhere the lengths are multiples of 8 or the tail is ignored
            def judge_alt(p, l, r):
                if r["verdict"] == "ALT":
                    rep.extra["known_finding_contexts"] = rep.extra.get("known_finding_contexts", 0) + 1
                judge(p, l, r)
            sweep(rep, ses, focus, BOTH, judge_alt, budget, count)
            if focus == "total" and not rep.viol:
                # parameters too large to analyse to the end: no panic in the part that is analysed
                L = "kind=huge impl=spec::entry::core args=k:%d,v:%d:p,v:8:s,k:%d,k:%d,k:%d"
                ts = [L % (32, 8, t, r, c) for t in HUGE if t > 1000000 for r, c in ((4, 1), (5, 3))]
                ts += [L % (32, 8, 1, 3, c) for c in (5462, 11000, 22000, 70000)] + [L % (32, 8, 1, r, 1) for r in (5462, 11000, 22000, 70000)]
                ts += [L % (k, 8, 1, 4, 1) for k in (70000, 140000, 1 << 20, 1 << 28, (1 << 29) + 1, (1 << 31) + 1, (1 << 33) + 1)]
                res = ses.run([(p, l, 8) for l in ts for p in BOTH])
                for (p, l), r in res.items():
                    rep.cov["functions"].update(r.get("functions", []))
                    if r["verdict"] == "PANIC":
                        rep.bad(p, l, r, "panics on valid parameters")
                rep.extra["huge_parameter_contexts"] = len(res)
                x = None if rep.viol else counters16(rep, ses)
                if x:
                    rep.bad("debug", x[0], x[1], "panics on valid parameters")
            if focus in ("time", "out", "absorb") and not rep.viol:
                ts = []
                if focus == "time":
                    ts = [("debug", "kind=huge impl=spec::entry::core args=k:32,v:8:p,v:8:s,k:%d,k:4,k:1" % t, 8) for t in HUGE if t > 1000000] + \
                         [("release", "kind=huge impl=spec::entry::core args=k:32,v:8:p,v:8:s,k:%d,k:4,k:1" % t, 8) for t in HUGE if t > 1000000]
                elif focus == "out":
                    ts = [("release", "kind=huge impl=spec::entry::core args=k:%d,v:8:p,v:8:s,k:1,k:4,k:1" % t, 8) for t in HUGE if t > 1000000]
                res = ses.run(ts) if ts else {}
                for (p, l), r in res.items():
                    rep.cov["functions"].update(r.get("functions", []))
                    want = int(l.split("args=k:")[1].split(",")[0])
                    if r["verdict"] == "RETURNS" and (focus == "time" or r["outlen"] != want):
                        rep.bad(p, l, r, "returns long before the %s can be complete" % ("passes" if focus == "time" else "output"))
                    elif r["verdict"] == "PANIC" and focus == "time":
                        rep.bad(p, l, r, "refuses a valid time cost")
                rep.extra["huge_parameter_contexts"] = len(res)
            if focus == "absorb":
                kf = [k for k in known_findings() if k.get("property") == "C08" and k.get("status") == "known"]
                if rep.extra.get("known_finding_contexts") and kf:
                    rep.known.append(kf[0]["what"])
                elif rep.extra.get("known_finding_contexts"):
                    rep.viol.append(("ALT", "bytes after the last whole 8-byte word of pwd/salt are not absorbed, and no such finding is listed"))
    return f


# ---------------------------------------------------------------------------------------------- chains
CHAINS = {"re": "chain_re", "rev2": "chain_rev2", "rev3": "chain_rev3", "z": "chain_z"}
CH_LENS = [0, 80, 1, 32, 64, 3, 8, 31, 33, 55, 56, 63, 65, 79, 81, 100, 111, 112, 119, 120, 127, 128, 129, 180, 200, 255, 256, 257, 1000, 65535, 65536, 65537]


def chain_line(name, n):
    return "kind=equal spec=spec::refs::%s impl=spec::entry::%s args=v:%s:x" % (CHAINS[name], name, n)


def chain_tasks(rep, ses, names, profiles, judge):
    """any-length analysis of each chain; a chain that is not proved that way is analysed for many fixed lengths"""
    cost = {"re": 2, "rev2": 4, "rev3": 3, "z": 8}
    res = ses.run([(p, chain_line(n, "?"), cost[n]) for n in names for p in profiles])
    redo = []
    for (p, l), r in res.items():
        rep.add(p, l, r)
        if r["verdict"] == "EQUAL":
            judge(p, l, r)
            rep.extra["any_length_proofs"] = rep.extra.get("any_length_proofs", 0) + 1
        elif r["verdict"] == "MISSING":
            judge(p, l, r)
        else:
            n = l.split("entry::")[1].split()[0]
            redo.append((p, n, r))
    if not redo or rep.viol:
        return
    mined = sorted(m for m in rep.mined if 2 <= m <= 70000 and m not in USUAL)
    extra = [v for m in mined for v in (m, m + 1, m - 1)]
    for batch in (CH_LENS[:3], (extra + CH_LENS[3:])[:90]):
        ts = []
        for p, n, _ in redo:
            for ln in dict.fromkeys(batch):
                ts.append((p, chain_line(n, ln), cost[n]))
        got = ses.run(ts)
        for (p, l), r in got.items():
            rep.add(p, l, r)
            judge(p, l, r)
        if rep.viol:
            return
    for p, n, r in redo:
        if r["verdict"] in BAD:
            # a valuation of the input's length and bytes shows it, at a length not among the fixed ones
            judge(p, chain_line(n, "?"), r)
        else:
            rep.hmm(p, chain_line(n, "?"), r)


def chain_check(name):
    def f(rep):
        rep.rule = "the value graph of the chain (digests of the dependency crates as opaque symbols, input an opaque byte string of any length) has the normal form of the reference chain"
        with harness.Session(BOTH) as ses:
            def judge(p, l, r):
                if r["verdict"] in BAD or r["verdict"] == "MISSING":
                    rep.bad(p, l, r)
                elif r["verdict"] != "EQUAL":
                    rep.hmm(p, l, r)
            chain_tasks(rep, ses, [name], BOTH, judge)
    return f


def total_chains(rep):
    rep.rule = "in the value-graph construction of each chain every index, slice, arithmetic and unwrap obligation is discharged for all inputs, all loops end, and every exit has 32 bytes"
    with harness.Session(BOTH) as ses:
        def judge(p, l, r):
            v = r["verdict"]
            if v in ("PANIC", "HANG", "MISSING"):
                rep.bad(p, l, r)
            elif v in ("EQUAL", "DIFF", "UNPROVED") and r.get("outlen", -1) != 32:
                if v == "UNPROVED" and r.get("outlen", -1) == -1:
                    rep.hmm(p, l, r)
                else:
                    rep.bad(p, l, r, "output of %s bytes" % r.get("outlen"))
            elif v not in ("EQUAL", "DIFF"):
                rep.hmm(p, l, r)
        chain_tasks(rep, ses, list(CHAINS), BOTH, judge)


def stage_check(modname, fn, spec, chains):
    """a private stage function, analysed on its own for 32 free bytes; through the chains that use it otherwise"""
    def f(rep):
        rep.rule = "for 32 free input bytes the value graph of %s has the normal form of the reference %s" % (fn, spec)
        line = "kind=equal spec=spec::refs::%s impl=%s args=v:32:x" % (spec, fn)
        with harness.Session(BOTH) as ses:
            res = ses.run([(p, line, 1) for p in BOTH])
            open_ = []
            for (p, l), r in res.items():
                rep.add(p, l, r)
                if r["verdict"] in BAD:
                    open_.append((p, l, r))
                elif r["verdict"] != "EQUAL":
                    open_.append((p, l, r))
            if not open_:
                return
            # the stage may have been renamed or its interface changed: what counts is what the chains compute
            got = ses.run([(p, chain_line(c, n), 4) for c in chains for p in BOTH for n in ("?", 80)])
            allq = True
            for (p, l), r in got.items():
                rep.add(p, l, r)
            by = {}
            for (p, l), r in got.items():
                by.setdefault((p, l.split("entry::")[1].split()[0]), []).append((l, r))
            for (p, c), rs in by.items():
                if any(r["verdict"] == "EQUAL" and "v:?" in l for l, r in rs):
                    continue
                if all(r["verdict"] == "EQUAL" for l, r in rs):
                    continue
                allq = False
                for l, r in rs:
                    if r["verdict"] in BAD and "v:80" in l:
                        own = [d for d in r["detail"] if "lyra2::%s::" % modname in d or "src/%s" % modname in d]
                        if own:
                            rep.bad(p, l, r, "chain differs in module %s" % modname)
            if allq:
                return
            for p, l, r in open_:
                if r["verdict"] in BAD:
                    rep.bad(p, l, r)
                else:
                    rep.hmm(p, l, r)
    return f


def sum_check(rep):
    rep.rule = "with lyra2::lyra2::lyra2 as an opaque function symbol, the graph of lyra2::lyra2::sum on an opaque byte string of any length is that symbol applied to (32, x, x, 1, 4, 4)"
    with harness.Session(BOTH) as ses:
        l = "kind=equal spec=spec::refs::sum_core impl=spec::entry::sum args=v:?:x opaque=core"
        res = ses.run([(p, l, 1) for p in BOTH])
        if all(r["verdict"] == "EQUAL" for r in res.values()):
            for (p, l), r in res.items():
                rep.add(p, l, r)
            return
        for (p, l), r in res.items():
            rep.add(p, l, r)
        mined = [v for m in sorted(rep.mined) if 2 <= m <= 2000 and m not in USUAL for v in (m - 1, m, m + 1)]
        # with the core opaque, a wrapper that reaches the core is compared for fixed lengths
        ls = list(dict.fromkeys(list(range(0, 97)) + LENS + [700, 740, 1000] + mined))
        ts = [(p, "kind=equal spec=spec::refs::sum_core impl=spec::entry::sum args=v:%d:x opaque=core" % n, 0.05) for n in ls for p in BOTH]
        op = ses.run(ts)
        bad = [(p, l, r) for (p, l), r in op.items() if r["verdict"] != "EQUAL"]
        for (p, l), r in op.items():
            rep.add(p, l, r)
        if not bad:
            return
        # otherwise compare what is computed with the reference Lyra2 itself
        ls = [n for n in ls if fits(n, n, 4, 4)]
        full = ses.run([(p, "kind=equal spec=spec::refs::lyra2_sum impl=spec::entry::sum args=v:%d:x" % n, 0.3) for n in ls for p in BOTH])
        for (p, l), r in full.items():
            rep.add(p, l, r)
            if r["verdict"] in BAD or r["verdict"] == "MISSING":
                rep.bad(p, l, r)
            elif r["verdict"] != "EQUAL":
                rep.hmm(p, l, r)
        # inputs that do not fit: the wrapper has to refuse them as the core does
        over = [n for n in (720, 736, 737, 744, 800, 1000) if not fits(n, n, 4, 4)]
        rf = ses.run([(p, "kind=refuse impl=spec::entry::sum args=v:%d:x" % n, 0.2) for n in over for p in BOTH])
        for (p, l), r in rf.items():
            rep.add(p, l, r)
            if r["verdict"] == "RETURNS":
                rep.bad(p, l, r, "returns a value for an input that the core refuses")


# ---------------------------------------------------------------------------------------------- refusal
def refusal(rep):
    rep.rule = ("with k, |pwd|, |salt| and the remaining parameters as free symbols, no exit of lyra2::lyra2::lyra2 is reachable when T = 0 or R < 3; "
                "with T >= 1 and R >= 3 no panic is reachable before the matrix is allocated")
    sy = "v:?:p,v:?:s"
    with harness.Session(BOTH) as ses:
        ts = [("k:0,s:r,s:c", "T=0"), ("s:t,k:0,s:c", "R=0"), ("s:t,k:1,s:c", "R=1"), ("s:t,k:2,s:c", "R=2")]
        res = ses.run([(p, "kind=refuse impl=spec::entry::core args=s:k,%s,%s" % (sy, a), 1) for a, _ in ts for p in BOTH])
        redo = []
        for (p, l), r in res.items():
            rep.add(p, l, r)
            if r["verdict"] == "MISSING":
                rep.bad(p, l, r)
            elif r["verdict"] != "REFUSED":
                redo.append((p, l, r))
        if redo:
            mined = [v for m in sorted(rep.mined) if 2 <= m <= 5000 for v in (m, m + 1, m - 1)]
            nov = [v for m in sorted(rep.mined) if 2 <= m <= 5000 and m not in USUAL for v in (m, m + 1, m - 1)]
            vals = list(dict.fromkeys([0, 1, 2, 3, 4, 5, 8, 32, 100, 1 << 16, 1 << 32, (1 << 64) - 1] + mined[:60]))
            xs = []
            for bad in ((0, None), (None, 0), (None, 1), (None, 2)):
                for i in range(6):
                    for v in vals:
                        x = [32, 8, 8, 1, 4, 4]
                        x[i] = v
                        if bad[0] is not None:
                            x[3] = bad[0]
                        if bad[1] is not None:
                            x[4] = bad[1]
                        if x[1] > 3000 or x[2] > 3000 or (bad[0] is None and x[3] < 1) or x[4] * x[5] > 20000 or x[0] > 20000 or (x[3] > 300):
                            continue
                        xs.append(tuple(x))
                for k in (0, 32):
                    for p_ in (0, 8, 32):
                        for s_ in (0, 8, 32):
                            for c in (0, 1, 4):
                                for o in (1, 3, 5):
                                    x = [k, p_, s_, o, o + 2, c]
                                    if bad[0] is not None:
                                        x[3] = bad[0]
                                    if bad[1] is not None:
                                        x[4] = bad[1]
                                    xs.append(tuple(x))
                for a in nov[:9]:
                    for b in nov[:9]:
                        for i, j in ((0, 1), (0, 2), (0, 5), (1, 2), (1, 5), (2, 5)):
                            x = [32, 8, 8, 1, 4, 4]
                            x[i], x[j] = a, b
                            if bad[0] is not None:
                                x[3] = bad[0]
                            if bad[1] is not None:
                                x[4] = bad[1]
                            if x[4] * x[5] <= 20000:
                                xs.append(tuple(x))
            xs = list(dict.fromkeys(xs))
            res2 = ses.run([("debug", "kind=refuse impl=spec::entry::core args=k:%d,v:%d:p,v:%d:s,k:%d,k:%d,k:%d" % x, 0.2) for x in xs])
            dec = 0
            for (p, l), r in res2.items():
                rep.add(p, l, r)
                if r["verdict"] == "RETURNS":
                    rep.bad(p, l, r, "returns a value for refused parameters")
                elif r["verdict"] == "HANG":
                    rep.bad(p, l, r, "neither refuses nor returns")
                elif r["verdict"] == "REFUSED":
                    dec += 1
                else:
                    rep.hmm(p, l, r)
            if not rep.viol and not dec:
                for p, l, r in redo:
                    rep.hmm(p, l, r)
        # only invalid parameters are refused
        only = ses.run([(p, "kind=prefix impl=spec::entry::core args=k:32,v:8:p,v:8:s,%s assume=%s" % (a, f), 1)
                        for a, f in (("s:t,k:4,k:4", "t>=1"), ("s:t,k:3,k:1", "t>=1"), ("s:t,k:8,k:2", "t>=1"), ("s:t,k:16,k:1", "t>=1")) for p in BOTH])
        for (p, l), r in only.items():
            rep.add(p, l, r)
            if r["verdict"] == "PANIC":
                rep.bad(p, l, r, "refuses a valid time cost")
            elif r["verdict"] == "MISSING":
                rep.bad(p, l, r)
        only = ses.run([(p, "kind=prefix impl=spec::entry::core args=k:32,v:8:p,v:8:s,k:1,s:r,k:%d assume=%s" % (c, f), 1)
                        for c in (1, 2, 4) for f in ("r>=3,r<=%d" % ((1 << 32) - 1),) for p in BOTH])
        for (p, l), r in only.items():
            rep.add(p, l, r)
            if r["verdict"] == "PANIC":
                rep.bad(p, l, r, "refuses a valid row count")
        rows = sorted(set(range(3, 21)) | {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1023, 1024, 1025, 4096} | {v for m in rep.mined if 2 <= m <= 5000 for v in (m - 1, m, m + 1) if v >= 3})
        tc = sorted({1, 2, 3, 4, 5, 7, 8, 16, 17, 100, 255, 256, 257, 65535, 65536, 65537} | {v for m in rep.mined if 2 <= m <= 100000 for v in (m - 1, m, m + 1) if v >= 1} | {v for v in HUGE})
        ts = [("debug", "kind=accept impl=spec::entry::core args=k:32,v:8:p,v:8:s,k:1,k:%d,k:1" % r, 0.3) for r in rows]
        ts += [("debug", "kind=accept impl=spec::entry::core args=k:32,v:8:p,v:8:s,k:%d,k:4,k:1" % t, 0.3) for t in tc]
        for (p, l), r in ses.run(ts).items():
            rep.add(p, l, r)
            if r["verdict"] == "PANIC":
                rep.bad(p, l, r, "refuses valid parameters")
            elif r["verdict"] == "UNDECIDED":
                rep.hmm(p, l, r)


# ---------------------------------------------------------------------------------------------- builds
STAGES = [("kind=equal spec=spec::refs::%s impl=lyra2::%s::sum args=v:32:x" % (sp, m), 1) for sp, m in (("cubehash", "cubehash"), ("bmw256", "bmw"), ("lyra2mod_sum", "lyra2mod"))]


def cfg_variants():
    """one build variant per configuration option that the crate's source mentions, with that option switched on"""
    files, preds = effects.cfgs()
    V, left = {}, []
    for f, line, form, pred in preds:
        if form in ("option_env!", "env!"):
            name = pred.strip().strip('"').split('"')[0]
            V["env-%s" % name] = {"env": {name: "1"}}
            continue
        if form.startswith("cfg_attr"):
            pred = pred.split(",")[0]
        for a, v in effects.atoms(pred):
            if a in ("debug_assertions", "overflow_checks", "doc", "doctest", "rustfmt", "clippy", "miri"):
                continue
            key = "cfg-%s%s" % (a, "" if v is None else "=" + v)
            if a == "target_feature":
                V[key] = {"flags": "-C target-feature=+%s" % v}
            elif a == "panic":
                V[key] = {"flags": "-C panic=%s" % v}
            elif a.startswith("target_") or a in ("unix", "windows"):
                left.append("%s:%d %s (decided by C19, which analyses other targets)" % (f, line, pred))
            else:
                V[key] = {"crate_flags": ["-A", "explicit_builtin_cfgs_in_flags", "--cfg", a if v is None else '%s="%s"' % (a, v)]}
    if len(V) > 1:
        fl = [x for k, v in V.items() for x in v.get("crate_flags", [])]
        V["cfg-all"] = {"flags": " ".join(v.get("flags", "") for v in V.values()), "crate_flags": fl, "env": {k: x for v in V.values() for k, x in v.get("env", {}).items()}}
    return files, preds, V, left


def profiles_check(rep):
    rep.rule = ("the MIR produced under each combination of debug assertions and overflow checks yields, for the same free inputs, the same normal form "
                "(shape hash) and the same panic behaviour for every public function; and no construct of the crate is selected by a compilation option")
    files, preds, V, left = cfg_variants()
    rep.extra["configuration_scan"] = {"files": len(files), "predicates": ["%s:%d %s(%s)" % p for p in preds][:40], "variants_built": sorted(V)}
    for x in left:
        rep.notes.append(x)
    with harness.Session(ALLP, V) as ses:
        for k, e in ses.failed.items():
            rep.undecided.append("the variant %s does not build: %s" % (k, e[-300:]))
        profs = list(ALLP) + [k for k in V if k not in ses.failed]
        lines = [(chain_line(n, "?"), c) for n, c in (("re", 2), ("rev2", 4), ("rev3", 3), ("z", 8))]
        xs = base_contexts("total")
        xs = xs if THOROUGH else xs[::3]
        # counters of 8 and 16 bits: blocks, passes, rows, columns, output bytes
        xs = list(dict.fromkeys(xs + [(32, 16384, 8, 1, 3, 58), (32, 8, 16400, 1, 4, 43), (32, 8, 8, 256, 3, 1), (32, 8, 8, 257, 4, 1), (32, 8, 8, 1, 128, 1), (32, 8, 8, 1, 4, 256), (24600, 8, 8, 1, 3, 1)]))
        lines += [(core(*x, spec="known"), weight(*x)) for x in xs]
        lines += [("kind=equal spec=spec::refs::sum_core impl=spec::entry::sum args=v:?:x opaque=core", 0.1)]
        lines += [("kind=refuse impl=spec::entry::core args=s:k,v:?:p,v:?:s,%s" % a, 0.1) for a in ("k:0,s:r,s:c", "s:t,k:2,s:c")]

        lines += STAGES

        def cmp(lines, profs=profs):
            res = ses.run([(p, l, c) for l, c in lines for p in profs])
            for l, _ in lines:
                if (l, 1) in STAGES and res[(profs[0], l)]["verdict"] in ("MISSING", "UNDECIDED", "UNPROVED"):
                    continue  # a private function that was renamed or given another interface: the chains are what counts
                rs = {p: res[(p, l)] for p in profs}
                for p, r in rs.items():
                    rep.add(p, l, r)
                vs = {p: (r["verdict"], r.get("hash"), r.get("outlen")) for p, r in rs.items()}
                und = [p for p, r in rs.items() if r["verdict"] in ("UNDECIDED", "UNPROVED")]
                if und:
                    rep.hmm(und[0], l, rs[und[0]])
                dec = {p: v for p, v in vs.items() if p not in und}
                if any(v[0] == "MISSING" for v in dec.values()):
                    rep.bad(profs[0], l, rs[profs[0]])
                elif len(set(v[0] for v in dec.values())) > 1 or len(set(v for v in dec.values() if v[0] in ("EQUAL", "ALT"))) > 1:
                    ref = next((p for p in dec if dec[p][0] in ("EQUAL", "ALT", "REFUSED")), "release")
                    off = next(p for p in dec if dec[p] != dec[ref])
                    rep.bad(off, l, rs[off], "%s in profile %s, %s in profile %s" % (dec[off][0], off, dec[ref][0], ref))
                elif all(v[0] == "DIFF" for v in dec.values()) and len(set(v[1:] for v in dec.values())) > 1:
                    rep.bad(profs[0], l, rs[profs[0]], "value depends on the profile")
        cmp(lines)
        if not rep.viol and len(profs) > len(ALLP):
            # the sources mention configuration options: compare those builds closely
            cmp([(core(*x, spec="known"), weight(*x)) for x in grid() if x not in xs], ["debug"] + profs[len(ALLP):])
        if not rep.viol:
            # parameters too large to analyse to the end: a panic in one profile only
            H = "kind=huge impl=spec::entry::core args=k:%d,v:8:p,v:8:s,k:%d,k:%d,k:%d"
            hs = [H % (32, t, 4, 1) for t in HUGE if t > 1000000] + [H % (k, 1, 4, 1) for k in (140000, 1 << 28, (1 << 29) + 1, (1 << 31) + 1, (1 << 33) + 1)] + [H % (32, 1, 3, 70000), H % (32, 1, 70000, 1)]
            res = ses.run([(p, l, 3) for l in hs for p in profs])
            rep.extra["huge_parameter_contexts"] = len(res)
            for l in hs:
                pan = {p: res[(p, l)]["verdict"] == "PANIC" for p in profs}
                if len(set(pan.values())) > 1:
                    off = next(p for p in profs if pan[p])
                    rep.bad(off, l, res[(off, l)], "panics in profile %s, not in profile %s" % (off, next(p for p in profs if not pan[p])))
        if not rep.viol:
            novel = [m for m in sorted(rep.mined_core) if 2 <= m <= 70000 and m not in USUAL]
            vals = list(dict.fromkeys(v for m in novel for v in (m, m + 1, m - 1)))
            if vals:
                ys = [y for y in param_contexts(vals, "") if y not in xs]
                tot, zs = 0.0, []
                for y in ys:
                    tot += weight(*y)
                    if tot < 700:
                        zs.append(y)
                cmp([(core(*y, spec="known"), weight(*y)) for y in zs])
        x = None if rep.viol else counters16(rep, ses)
        if x and any("overflow" in d for d in x[1].get("detail", [])):
            rep.bad("debug", x[0], x[1], "an arithmetic overflow panics in builds with overflow checks only")


# ---------------------------------------------------------------------------------------------- targets
def targets_check(rep):
    rep.rule = ("the MIR that the compiler produces for a big-endian 64-bit, a big-endian 32-bit and a little-endian 32-bit target (and with every target "
                "option that the sources mention) yields for every public function the value graph of the same little-endian reference definition as on "
                "x86_64; a difference or panic that the x86_64 analysis does not have, or a difference together with a use of a big- or native-endian "
                "conversion, is a violation")
    files, preds = effects.cfgs()
    V = {}
    for f, line, form, pred in preds:
        for a, v in effects.atoms(pred if not form.startswith("cfg_attr") else pred.split(",")[0]):
            if a == "target_feature" and v:
                V["cfg-%s=%s" % (a, v)] = {"flags": "-C target-feature=+%s" % v}
            elif (a.startswith("target_") and a not in ("target_endian", "target_pointer_width")) or a in ("unix", "windows"):
                V["cfg-%s%s" % (a, "" if v is None else "=" + v)] = {"crate_flags": ["-A", "explicit_builtin_cfgs_in_flags", "--cfg", a if v is None else '%s="%s"' % (a, v)]}
    rep.extra["target_predicates"] = sorted(V)
    if V or any("target_" in x[3] or "windows" in x[3] or "unix" in x[3] for x in preds) or any(x in open(f).read() for f in files for x in ("c_char", "c_long", "c_int", "env::consts", "std::os", "core::ffi", "std::ffi")):
        V.update({k: {} for k in harness.MORE_TARGETS})
    T = tuple(harness.TARGETS) + tuple(t + ":release" for t in ("powerpc", "i686"))
    with harness.Session(BOTH + T, V) as ses:
        for k, e in ses.failed.items():
            rep.undecided.append("the variant %s does not build here: %s" % (k, e[-300:]))
        tprofs = list(T) + [k for k in V if k not in ses.failed]
        order = [f for f in ses.scan("debug", "lyra2", "")["findings"] if f["kind"] == "order"]
        lines = [(chain_line(n, "?"), c) for n, c in (("re", 1), ("rev2", 4), ("rev3", 4), ("z", 6))]
        lines += [("kind=equal spec=spec::refs::sum_core impl=spec::entry::sum args=v:?:x opaque=core", 0.1)] + STAGES
        xs = [(32, 8, 16, 1, 4, 4), (100, 16, 24, 2, 5, 3), (7, 8, 0, 3, 3, 1), (33, 24, 40, 1, 8, 1), (200, 0, 0, 1, 4, 2), (96, 64, 64, 2, 7, 2), (1, 120, 8, 4, 6, 1), (0, 8, 8, 1, 3, 2), (32, 13, 9, 1, 4, 4), (45, 80, 80, 1, 16, 1),
              (64, 256, 8, 1, 9, 2), (300, 8, 264, 5, 4, 1)]
        if THOROUGH:
            xs += [x for x in base_contexts("total") if weight(*x) < 4]
        lines += [(core(*x, spec="known"), weight(*x)) for x in xs]

        def cmp(lines, tprofs):
            res = ses.run([(p, l, c) for l, c in lines for p in tprofs + ["debug", "release"]])
            for (p, l), r in res.items():
                rep.add(p, l, r)
                v = r["verdict"]
                if p in BOTH or (l, 1) in STAGES and v in ("MISSING", "UNDECIDED", "UNPROVED"):
                    continue
                home = res[("release" if p.endswith(":release") else "debug", l)]
                if v == "MISSING":
                    rep.bad(p, l, r)
                elif v in BAD and home["verdict"] not in BAD and home["verdict"] in ("EQUAL", "ALT"):
                    rep.bad(p, l, r, "%s on target %s, as the reference on x86_64" % (v, p))
                elif v in ("EQUAL", "ALT") and home["verdict"] in BAD:
                    rep.bad(p, l, home, "%s on x86_64, as the reference on target %s" % (home["verdict"], p))
                elif v == "DIFF" and home["verdict"] == "DIFF" and order:
                    rep.bad(p, l, r, "differs from the little-endian definition; %s: %s (%s)" % (order[0]["owner"], order[0]["what"], order[0]["at"]))
                elif v not in ("EQUAL", "ALT") and v not in BAD:
                    rep.hmm(p, l, r)
        cmp(lines, tprofs)
        if not rep.viol:
            g = [x for x in grid() if x not in xs]
            cmp([(core(*x, spec="known"), weight(*x)) for x in g], tprofs if len(tprofs) > len(T) or THOROUGH else list(T)[:3])
        if not rep.viol:
            # a time cost beyond 32 bits must not become a small one
            hs = ["kind=huge impl=spec::entry::core args=k:32,v:8:p,v:8:s,k:%d,k:4,k:1" % t for t in ((1 << 32), (1 << 32) + 1, (1 << 32) + 3, 1 << 40)]
            res = ses.run([(p, l, 3) for l in hs for p in tprofs + ["debug"]])
            for (p, l), r in res.items():
                if p != "debug" and r["verdict"] in ("RETURNS", "PANIC") and res[("debug", l)]["verdict"] not in ("RETURNS", "PANIC"):
                    rep.bad(p, l, r, "%s on target %s, not on x86_64" % (r["verdict"], p))
        if not rep.viol:
            novel = [m for m in sorted(rep.mined_core) if 2 <= m <= 70000 and m not in USUAL]
            vals = list(dict.fromkeys(v for m in novel for v in (m, m + 1, m - 1)))
            tot, zs = 0.0, []
            for y in param_contexts(vals, "") if vals else []:
                tot += weight(*y)
                if tot < 250:
                    zs.append(y)
            if zs:
                cmp([(core(*y, spec="known"), weight(*y)) for y in zs], tprofs)


# ---------------------------------------------------------------------------------------------- effects
def effect_check(kinds, rule):
    def f(rep):
        rep.rule = rule
        with harness.Session(BOTH) as ses:
            e = effects.run(ses)
            flows = [x for x in e["findings"] if x["kind"] == "flow"]
            if flows and "effect" in kinds:
                # harmless unless the result depends on it
                ls = [(chain_line(n, "?"), 4) for n in CHAINS] + [(core(*x, spec="known"), 1) for x in ((32, 8, 16, 1, 4, 4), (200, 64, 0, 2, 5, 3), (0, 0, 8, 1, 3, 1), (100, 1024, 8, 3, 4, 9))]
                for (p, l), r in ses.run([("release", l, c) for l, c in ls]).items():
                    if r.get("env"):
                        rep.viol.append(("capacity " + l, "the result depends on a capacity: %s; %s" % (l, "; ".join(x["text"] for x in flows[:4]))))
                    elif r["verdict"] not in ("EQUAL", "ALT", "DIFF", "PANIC"):
                        rep.hmm(p, l, r)
        rep.cov["functions"].update(e["functions"])
        rep.pairs = e["calls"]
        rep.extra.update({k: v for k, v in e.items() if k not in ("findings", "functions", "undecided")})
        rep.equal = e["calls"]
        for x in e["findings"]:
            if x["kind"] in kinds:
                rep.viol.append((x["key"], x["text"]))
        for x in e["undecided"]:
            if x["kind"] in kinds:
                rep.undecided.append(x["text"])
        if len(e["functions"]) < 8 or e["statements"] < 2000:
            raise harness.BuildError("only %d functions with %d statements were found in the crate: the scan does not see it" % (len(e["functions"]), e["statements"]))
        rep.samples = [{"body": f} for f in e["functions"][:6]]
    return f


# ---------------------------------------------------------------------------------------------- access pattern
def trace_check(rep):
    rep.rule = ("for every non-constant discriminant of a branch, selector of an index and size of an allocation met while the value graph is built: it "
                "depends on the input only through a value that the reference definition uses as an index, that is the row (in REv3 also the word) chosen in Wandering")
    with harness.Session(("release",)) as ses:
        def go(lines):
            res = ses.run([("release", l, c) for l, c in lines], stop=("LEAK",))
            for (p, l), r in res.items():
                rep.add(p, l, r)
                if r["verdict"] == "LEAK":
                    rep.bad(p, l, r, "depends on the hashed data")
                elif r["verdict"] == "MISSING":
                    rep.bad(p, l, r, "anchor missing")
                elif r["verdict"] != "EQUAL":
                    rep.hmm(p, l, r)
        ch = lambda ns, names=tuple(CHAINS): [("kind=trace spec=spec::refs::%s impl=spec::entry::%s args=v:%d:x" % (CHAINS[n], n, k), {"re": 0.6, "rev2": 2.5, "rev3": 2, "z": 3.2}[n]) for n in names for k in ns]
        su = lambda ns: [("kind=trace spec=spec::refs::lyra2_sum impl=spec::entry::sum args=v:%d:x" % k, 0.2) for k in ns if fits(k, k, 4, 4)]
        co = lambda xs: [("kind=trace spec=spec::refs::lyra2_known impl=spec::entry::core args=k:%d,v:%d:p,v:%d:s,k:%d,k:%d,k:%d" % x, weight(*x)) for x in xs]
        xs = [x for x in grid() if weight(*x) < 3 and (THOROUGH or x[1] % 8 == 0 or x[1] < 20)]
        xs += [(32, 64, 64, 2, 8, 3), (200, 80, 80, 3, 16, 2), (64, 33, 31, 4, 5, 3), (96, 256, 64, 1, 7, 5), (32, 8, 8, 1, 33, 2), (32, 740, 0, 1, 4, 4), (32, 8, 8, 20, 4, 1)]
        ns = [1, 32, 33, 64, 80, 81, 128, 180, 200, 256, 1000]
        go(ch(ns if not THOROUGH else range(0, 260)) + su([1, 7, 8, 32, 40, 64, 80, 100, 200]) + co(xs))
        if not rep.viol:
            novel = [m for m in sorted(rep.mined) if 2 <= m <= 70000 and m not in USUAL]
            vals = list(dict.fromkeys(v for m in novel for v in (m, m + 1, m - 1)))
            tot, zs = 0.0, []
            for y in param_contexts([v for m in sorted(rep.mined_core) if 2 <= m <= 70000 and m not in USUAL for v in (m, m + 1, m - 1)], ""):
                tot += weight(*y)
                if tot < 250 and y not in xs:
                    zs.append(y)
            go(ch([v for v in vals if v not in ns][:24]) + su([v for v in vals if v < 700][:24]) + co(zs))


CHECKS = {
    "C01": chain_check("re"),
    "C02": chain_check("rev2"),
    "C03": chain_check("rev3"),
    "C04": chain_check("z"),
    "C05": sum_check,
    "C06": stage_check("cubehash", "lyra2::cubehash::sum", "cubehash", ["rev2", "rev3"]),
    "C07": stage_check("bmw", "lyra2::bmw::sum", "bmw256", ["rev2", "rev3"]),
    "C08": core_check("absorb", 330),
    "C09": core_check("shape", 330),
    "C10": core_check("time", 330),
    "C11": core_check("out", 330),
    "C12": stage_check("lyra2mod", "lyra2::lyra2mod::sum", "lyra2mod_sum", ["rev3"]),
    "C13": refusal,
    "C14": total_chains,
    "C15": core_check("total", 330, ("PANIC", "HANG")),
    "C16": effect_check(("effect", "open"), "in the MIR of every body of the crate that a public function can reach: no use of a mutable or interior-mutable static or thread-local, no call of a function of the environment, clock, randomness, input/output or process state, and no address used as a value"),
    "C17": profiles_check,
    "C19": targets_check,
    "C20": trace_check,
    "C18": effect_check(("unsafe",), "in the type-checked crate: no unsafe block, function, trait or impl, assembly, foreign item, mutable static, union or unmangled exported symbol"),
}


def main():
    pid = sys.argv[1]
    rep = Report(pid)
    os.makedirs(EV, exist_ok=True)
    try:
        CHECKS[pid](rep)
    except harness.BuildError as e:
        print("ERROR: %s" % e)
        write(rep)
        return 2
    decided = rep.equal > 0 or rep.viol
    for u in rep.undecided[:8]:
        print("UNDECIDED: property=%s %s" % (pid, u[:600]))
    for k in rep.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    write(rep)
    print("%s: %d analyses, %d with the required result, %d functions, %d obligations (%d discharged), %.1f s" % (
        pid, rep.pairs, rep.equal, len(rep.cov["functions"]), rep.cov["obligations"], rep.cov["discharged"], time.time() - rep.t0))
    if rep.viol:
        path = os.path.join(EV, pid + ".replay.json")
        json.dump({"property": pid, "rule": rep.rule, "violations": [{"key": k, "report": t} for k, t in rep.viol[:50]]}, open(path, "w"), indent=1)
        for k, t in rep.viol[:5]:
            print("  " + t[:900])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if not decided:
        print("UNDECIDED: property=%s nothing could be decided on this tree: no violation was found and nothing was shown" % pid)
    return 0


LEVEL = {"C13": "other", "C20": "other", "C16": "other", "C18": "other"}


def write(rep):
    lvl = LEVEL.get(rep.pid, "translation_validation")
    cov = {
        "programs": rep.pairs, "disagreements_checked": rep.pairs - rep.equal, "samples": rep.samples or ["effect analysis: see explanation"],
        "explanation": rep.rule, "rule": rep.rule,
        "analyses_with_required_result": rep.equal,
        "functions_analysed": sorted(rep.cov["functions"]),
        "call_sites_followed": rep.cov["calls"], "obligations": rep.cov["obligations"], "discharged": rep.cov["discharged"],
        "value_graph_nodes": rep.cov["nodes"], "joins": rep.cov["joins"],
        "branch_edges_covered": len(rep.edges), "branch_edges_not_covered": sorted(rep.untaken - rep.edges)[:40],
        "undecided": rep.undecided[:40],
    }
    cov.update(rep.extra)
    d = {"property": rep.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": lvl, "coverage": cov,
         "assumptions": ["rustc's MIR construction is right", "the models of standard-library and digest-crate functions in engine/src/native.rs and spec/src/models.rs",
                         "the reference definitions in spec/src/refs.rs"] + rep.assume,
         "wall_s": round(time.time() - rep.t0, 2), "violations": len(rep.viol)}
    json.dump(d, open(os.path.join(EV, rep.pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
