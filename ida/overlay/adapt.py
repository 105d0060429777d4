#!/usr/bin/env python3
"""adapt.py list SRC | adapt.py apply SRC FIELDS HOOKS
Private fields of the integrator may be renamed without any change of behaviour. `list` prints the fields of its
structs; `apply` aligns the fields found in SRC with the recorded list and renames in HOOKS what was renamed."""
import difflib, os, re, sys


def fields(src):
    out = {}
    for f in sorted(os.listdir(src)):
        if not f.endswith(".rs") or f == "verif_hooks.rs":
            continue
        s = open(os.path.join(src, f)).read()
        s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
        s = re.sub(r"//[^\n]*", "", s)
        for m in re.finditer(r"\bstruct\s+(Ida\w*)[^{;]*\{([^}]*)\}", s):
            names = re.findall(r"(?:^|[,{\s])(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:(?!:)", m.group(2))
            out[m.group(1)] = names
    return out


def main():
    now = fields(sys.argv[2])
    if sys.argv[1] == "list":
        for k in sorted(now):
            print(k, *now[k])
        return
    hooks = open(sys.argv[4]).read()
    ren = {}
    for line in open(sys.argv[3]):
        k, *old = line.split()
        new = now.get(k)
        if new is None or new == old:
            continue
        for op, a, b, c, d in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
            if op == "replace" and b - a == d - c:
                for x, y in zip(old[a:b], new[c:d]):
                    if x not in new:
                        ren[x] = y
    for x, y in ren.items():
        hooks = re.sub(r"\.%s\b" % re.escape(x), "." + y, hooks)
    open(sys.argv[4], "w").write(hooks)


main()
