#!/usr/bin/env python3
"""stub.py VIEW < rustc's JSON messages: in the copy VIEW of /repo's sources, replaces the body of
every function that contains a compile error by one that ends the check without an answer.

The repository's offline build does not compile all of its sources, so an edit elsewhere can leave
code that the whole-crate build rejects. The checks that do not run that code still have an answer.
Exit 0 if something was replaced, else 1."""
import json, os, sys

def tokens(s):
    """(kind, start, end) of what matters: words and single punctuation, without comments, strings."""
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            depth, i = 1, i + 2
            while i < n and depth:
                if s.startswith("/*", i): depth += 1; i += 2
                elif s.startswith("*/", i): depth -= 1; i += 2
                else: i += 1
        elif c == '"' or (c in "bc" and s[i + 1:i + 2] == '"'):
            i += 1 if c == '"' else 2
            while i < n and s[i] != '"':
                i += 2 if s[i] == "\\" else 1
            i += 1
        elif c == "r" and s[i + 1:i + 2] in ('"', "#") and s[i + 1:].lstrip("#").startswith('"'):
            h = len(s[i + 1:]) - len(s[i + 1:].lstrip("#"))
            j = s.find('"' + "#" * h, i + 2 + h)
            i = j + 1 + h
        elif c == "'":
            # a character or a lifetime
            if s[i + 1] == "\\":
                i = s.find("'", i + 3) + 1
            elif s[i + 2:i + 3] == "'":
                i += 3
            else:
                i += 1
        elif c.isalnum() or c == "_":
            j = i
            while j < n and (s[j].isalnum() or s[j] == "_"):
                j += 1
            yield ("w", i, j)
            i = j
        else:
            yield ("p", i, i + 1)
            i += 1

def bodies(s):
    """(name, start of fn, offset of the opening brace, offset after the closing one)"""
    toks = list(tokens(s))
    out = []
    for k, (kind, a, b) in enumerate(toks):
        if kind != "w" or s[a:b] != "fn" or k + 1 >= len(toks) or toks[k + 1][0] != "w":
            continue
        depth = 0
        for m in range(k + 1, len(toks)):
            t = s[toks[m][1]:toks[m][2]]
            if t in "([":
                depth += 1
            elif t in ")]":
                depth -= 1
            elif t == ";" and depth == 0:
                break
            elif t == "{" and depth == 0:
                d = 0
                for e in range(m, len(toks)):
                    u = s[toks[e][1]:toks[e][2]]
                    d += (u == "{") - (u == "}")
                    if d == 0:
                        out.append((s[toks[k + 1][1]:toks[k + 1][2]], a, toks[m][1], toks[e][2]))
                        break
                break
    return out

MARK = "no answer: reached a function that does not compile: "

def main():
    view = os.path.realpath(sys.argv[1])
    errors = {}
    def spans(m):
        for sp in m["spans"]:
            if sp["is_primary"]:
                while True:
                    f = os.path.realpath(sp["file_name"])
                    if f.startswith(view + "/"):
                        errors.setdefault(f, set()).add((sp["byte_start"], sp["byte_end"]))
                        break
                    if not sp.get("expansion"):
                        break
                    sp = sp["expansion"]["span"]
    for line in sys.stdin:
        try:
            m = json.loads(line)
        except ValueError:
            continue
        m = m.get("message") if m.get("reason") == "compiler-message" else None
        if m and m["level"] == "error":
            spans(m)
    changed = False
    for f, where in errors.items():
        raw = open(f, "rb").read()
        s = raw.decode("latin-1")  # offsets are in bytes
        found = bodies(s)
        do = {}
        for a, b in where:
            inner = [x for x in found if x[1] <= a and b <= x[3]]
            # the outermost function, whose body may use what is inside
            inner.sort(key=lambda x: x[2])
            if inner and MARK not in s[inner[0][2]:inner[0][3]]:
                do[inner[0][2]] = inner[0]
        for name, _, a, b in sorted(do.values(), key=lambda x: -x[2]):
            text = '{ eprintln!("%s%s in %s"); ::std::process::exit(2) }' % (MARK, name, os.path.relpath(f, view))
            s = s[:a] + text + s[b:]
            changed = True
            print("does not compile, left out: fn %s in %s" % (name, os.path.relpath(f, view)), file=sys.stderr)
        open(f, "wb").write(s.encode("latin-1"))
    sys.exit(0 if changed else 1)

main()
