#!/usr/bin/env python3
"""Developer tool (no check uses it): first-order mutants of the library, to see which the quick checks catch.

mutate.py list FILE...            print the mutants of the files
mutate.py run OUT FILE... [--checks C09,C08] [--every N] [--start K]
      for each mutant: apply in a scratch copy, run the checks in order until one reports; append a line to OUT
"""
import argparse, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("MUT_WT", "/tmp/mutwt")

REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("|=", "="), ("^=", "="),
       ("++", "--"), (" < ", " <= "), (" > ", " >= "), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" % ", " / "),
       (" | ", " & "), (" & ", " | "), (" << ", " >> "), (" >> ", " << "), ("true", "false"), ("false", "true"), ("return !", "return "), ("if (!", "if ("),
       ("std::min", "std::max"), ("std::max", "std::min"), ("cbegin", "cend"), ("prev(", "next(")]


def mutants(path, text):
    out = []
    lines = text.split("\n")
    incomment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            incomment = True
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        code = l.split("//")[0]
        if not s or s.startswith(("//", "#", "namespace", "using", "template", "requires", "struct", "class", "}", "public:", "private:", "protected:")) and not s.startswith("} "):
            if not s.startswith("using"):
                continue
        if path.endswith(".asm"):
            if s.startswith((";", "%")) or s.endswith(":") or not re.match(r"[a-zA-Z]", s) or re.match(r"(align|section|global|default|extern|d[bdq]|times)\b", s, re.I):
                m = re.match(r"\s*d[dq]\s+0x", code)
                if not m:
                    continue
            out.append((n, l, ";" + l, "delete"))
            for a, b in (("eax", "ebx"), ("paddd", "psubd"), ("pxor", "por")):
                if a in code:
                    out.append((n, l, code.replace(a, b, 1), a + "->" + b))
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code.split(";")[0]):
                out.append((n, l, code[:m.start()] + str(int(m.group(1)) + 1) + code[m.end():], "const+1"))
            continue
        for a, b in REL:
            k = 0
            while True:
                i = code.find(a, k)
                if i < 0:
                    break
                k = i + len(a)
                if a in ("<=", ">=", "==") and code[i - 1:i] in "<>=!" or a in ("==",) and "operator" in code[max(0, i - 9):i]:
                    continue
                if "operator" in code[max(0, i - 9):i + 1]:
                    continue
                out.append((n, l, code[:i] + b + code[i + len(a):] + l[len(code):], "%s->%s@%d" % (a.strip(), b.strip(), i)))
        for m in re.finditer(r"(?<![\w.'\"])(\d+)(?![\w.'\"x])", code):
            v = int(m.group(1))
            for w in {v + 1, max(0, v - 1)} - {v}:
                out.append((n, l, code[:m.start()] + str(w) + code[m.end():] + l[len(code):], "%d->%d@%d" % (v, w, m.start())))
        # lists of addresses: exchange neighbours, drop one
        for m in re.finditer(r"&(\w+), &(\w+)", code):
            out.append((n, l, code[:m.start()] + "&%s, &%s" % (m.group(2), m.group(1)) + code[m.end():] + l[len(code):], "swap@%d" % m.start()))
        for m in re.finditer(r"&(\w+), ", code):
            out.append((n, l, code[:m.start()] + code[m.end():] + l[len(code):], "drop@%d" % m.start()))
        if "{{\"" in code or re.match(r'\s*\{"\w+", &\w+\}', code):
            m = re.search(r'\{"(\w+)", &(\w+)\}', code)
            if m:
                out.append((n, l, code[:m.start()] + '{"%sx", &%s}' % (m.group(1), m.group(2)) + code[m.end():], "key"))
                if n + 1 < len(lines):
                    m2 = re.search(r'\{"(\w+)", &(\w+)\}', lines[n + 1])
                    if m2:
                        out.append((n, l, code[:m.start()] + '{"%s", &%s}' % (m.group(1), m2.group(2)) + code[m.end():], "value"))
        if re.match(r"\s*(if .*\))?\s*[\w:.\[\]*>()&, +/%-]+(=|\+\+|\(|return).*;\s*$", code) and "const" not in code and "auto" not in code and "using" not in code:
            out.append((n, l, ";" if not code.strip().startswith("return") else ";", "delete"))
    return out


def sh(c, cwd=None, timeout=2400, env=None):
    return subprocess.run(["bash", "-c", c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=dict(os.environ, **(env or {})))


def main():
    a = argparse.ArgumentParser()
    a.add_argument("cmd")
    a.add_argument("args", nargs="+")
    a.add_argument("--checks", default="C09,C08,C11,C06,C23,C12,C13,C19,C20,C07")
    a.add_argument("--every", type=int, default=1)
    a.add_argument("--start", type=int, default=0)
    a.add_argument("--workers", default="0")
    o = a.parse_args()
    files = o.args if o.cmd == "list" else o.args[1:]
    if not os.path.isdir(WT):
        subprocess.check_call(["cp", "-a", "/repo", WT])
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", WT)
    todo = []
    for f in files:
        t = open(os.path.join(WT, f)).read()
        todo += [(f, t) + m for m in mutants(f, t)]
    todo = todo[o.start::o.every]
    if o.cmd == "list":
        for f, t, n, l, new, kind in todo:
            print(f, n + 1, kind, "|", l.strip(), "=>", new.strip())
        print(len(todo))
        return
    seen = set()
    try:
        for l in open(o.args[0]):
            seen.add(tuple(l.split("|")[0].split()[1:4]))
    except OSError:
        pass
    for f, t, n, l, new, kind in todo:
        if (f, str(n + 1), kind.replace(" ", "")) in seen:
            continue
        ls = t.split("\n")
        ls[n] = new
        open(os.path.join(WT, f), "w").write("\n".join(ls))
        t0 = time.time()
        res = "SURVIVED"
        why = ""
        try:
            for c in o.checks.split(","):
                r = sh("timeout 700 ./check %s --workers %s" % (c, o.workers), VERIF, env={"MC_REPO": WT})
                if r.returncode == 1:
                    res = "killed:" + c
                    break
                if r.returncode != 0:
                    if "error:" in r.stdout or "undefined reference" in r.stdout or "yasm" in r.stdout:
                        res = "nocompile"
                        break
                    why += " %s:rc%d" % (c, r.returncode)
        finally:
            open(os.path.join(WT, f), "w").write(t)
        with open(o.args[0], "a") as out:
            out.write("%s %s %d %s | %s => %s | %.0fs%s\n" % (res, f, n + 1, kind.replace(" ", ""), l.strip(), new.strip(), time.time() - t0, why))


main()
