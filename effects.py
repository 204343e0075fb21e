"""Whole-crate effect scan (see engine/src/effects.rs) and source scan for conditional compilation."""
import os, re
import harness


def run(ses, prof="debug"):
    r = ses.scan(prof, "lyra2", "")
    fns = [f for f in r["functions"] if "{constant#" not in f]
    out = {"functions": ["lyra2::" + f for f in fns], "bodies": len(r["functions"]), "calls": r["calls"], "statements": r["statements"], "items": r["items"],
           "callees_by_crate": r["callees_by_crate"], "findings": [], "undecided": []}
    for f in r["findings"]:
        d = {"kind": f["kind"], "key": "%s %s %s" % (f["rule"], f["owner"], f["what"]), "text": "%s: in lyra2::%s (%s): %s" % (f["rule"], f["owner"], f["at"], f["what"])}
        (out["undecided"] if f["kind"] == "open" else out["findings"]).append(d)
    out.update(witnesses(ses, prof))
    return out


def witnesses(ses, prof="debug"):
    """the scan must report each positive example of spec/src/witness.rs and none of the negative ones"""
    w = ses.scan(prof, "spec", "witness::")
    got = {}
    for f in w["findings"]:
        got.setdefault(f["owner"].split("::")[1].split("{")[0], set()).add(f["kind"])
    names = sorted({f.split("::")[1] for f in w["functions"] if f.split("::")[1].startswith(("w_", "ok_"))})
    bad = []
    for n in names:
        if n.startswith("w_") and n.split("_")[1] not in got.get(n, set()):
            bad.append("positive example %s not reported" % n)
        if n.startswith("ok_") and got.get(n):
            bad.append("negative example %s reported: %s" % (n, sorted(got[n])))
    if len(names) < 35:
        bad.append("only %d examples found" % len(names))
    if bad:
        raise harness.BuildError("the effect scan fails its examples: " + "; ".join(bad))
    return {"examples_checked": len(names)}


# ------------------------------------------------------------------ conditional compilation
def strip(src):
    """source with comments and literals blanked (newlines kept)"""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            i = j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            out.append("\n" * src.count("\n", i, j))
            i = j
        else:
            m = re.compile(r'b?r(#*)"').match(src, i)
            if m and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == "_")):
                j = src.find('"' + m.group(1), m.end())
                j = n if j < 0 else j + 1 + len(m.group(1))
                out.append(src[i:j] if "\n" not in src[i:j] else '""' + "\n" * src.count("\n", i, j))
                i = j
            elif c == '"':
                j = i + 1
                while j < n and src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                out.append('"' + re.sub(r"[^\w.\-]", " ", src[i + 1:j]) + '"' + "\n" * src.count("\n", i, j))
                i = j + 1
            elif c == "'":
                m = re.compile(r"'(\\.[^']*|[^\\'])'").match(src, i)
                if m:
                    out.append("' '")
                    i = m.end()
                else:
                    out.append(c)
                    i += 1
            else:
                out.append(c)
                i += 1
    return "".join(out)


def balanced(s, i):
    """s[i] is '(' : the text up to the matching ')'"""
    d = 0
    for j in range(i, len(s)):
        d += (s[j] == "(") - (s[j] == ")")
        if d == 0:
            return s[i + 1:j]
    return s[i + 1:]


def cfgs(root=None):
    """every cfg predicate of the crate's sources: (file, line, form, predicate)"""
    root = root or harness.REPO
    out, files = [], []
    for d, dirs, fs in os.walk(os.path.join(root, "src")):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith(".rs"):
                files.append(os.path.join(d, f))
    for p in ([os.path.join(root, "build.rs")] if os.path.exists(os.path.join(root, "build.rs")) else []):
        files.append(p)
    for p in files:
        s = strip(open(p, encoding="utf-8", errors="replace").read())
        for m in re.finditer(r"\b(cfg_attr|cfg_select|cfg|option_env|env)\s*(!?)\s*\(", s):
            form = m.group(1) + m.group(2)
            if m.group(1) in ("option_env", "env") and not m.group(2):
                continue
            out.append((os.path.relpath(p, root), s.count("\n", 0, m.start()) + 1, form, " ".join(balanced(s, m.end() - 1).split())))
    return files, out


def atoms(pred):
    """the configuration options a predicate mentions"""
    a = []
    for m in re.finditer(r'([A-Za-z_][\w]*)\s*(=\s*"([^"]*)")?', pred):
        if m.group(1) in ("not", "all", "any", "true", "false"):
            continue
        a.append((m.group(1), m.group(3)))
    return a
