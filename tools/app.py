#!/usr/bin/env python3
"""app.py SRC DST HARNESS: the application (main.rs and its modules) as a crate of the harness: its
main function is renamed, and those of the checks are added."""
import os, re, sys
src, dst, harness = sys.argv[1:4]
have = set()


def put(rel, data):
    b = os.path.join(dst, rel)
    have.add(b)
    if os.path.isfile(b) and open(b).read() == data:
        return
    os.makedirs(os.path.dirname(b), exist_ok=True)
    open(b, "w").write(data)


main = open(os.path.join(src, "main.rs")).read()
main, n = re.subn(r"\bfn\s+main\s*\(\s*\)", "pub fn subsweep_main()", main, count=1)
assert n == 1, "no main function"
# The ranks of the model share a process, which must not finalize MPI.
main = re.sub(r"\.run\(\)", ".run_without_finalize()", main)
for f in sorted(os.listdir(harness)):
    if re.fullmatch(r"app_c\d\d\.rs", f):
        c = f[4:7]
        main += f'''
#[cfg(feature = "{c}")]
#[path = "{harness}/{f}"]
mod verif_{c};
#[cfg(feature = "{c}")]
fn main() {{
    verif_{c}::main()
}}
'''
put("main.rs", main)
# Everything else that does not belong to the library may be a module of it.
lib = open(os.path.join(src, "lib.rs")).read()
for d, _, files in os.walk(src):
    for f in files:
        a = os.path.join(d, f)
        rel = os.path.relpath(a, src)
        top = rel.split(os.sep)[0].removesuffix(".rs")
        if rel in ("main.rs", "lib.rs") or not rel.endswith(".rs") or re.search(rf"\bmod\s+{top}\s*;", lib):
            continue
        put(rel, open(a).read())
for d, _, files in os.walk(dst):
    for f in files:
        if os.path.join(d, f) not in have:
            os.remove(os.path.join(d, f))
