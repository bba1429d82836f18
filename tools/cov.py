"""cov.py DIR FILE...: lines and branches of rsciio/FILE which the checks run with VERIF_COV=DIR never took."""
import dis
import json
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
d = sys.argv[1]
L, B = set(), set()
for f in os.listdir(d):
    l, b = json.load(open(os.path.join(d, f)))
    L |= {tuple(x) for x in l}
    B |= {tuple(x) for x in b}


def codes(c):
    for k in c.co_consts:
        if hasattr(k, "co_code"):
            yield k
            yield from codes(k)


for rel in sys.argv[2:]:
    p = os.path.join(REPO, "rsciio", rel)
    src = open(p).read().split("\n")
    top = compile(open(p).read(), p, "exec")
    miss, part, tot, totb = {}, {}, 0, 0
    for c in codes(top):
        if c.co_name.startswith("<lambda"):
            pass
        lines = {n for _, _, n in c.co_lines() if n} - {c.co_firstlineno}
        tot += len(lines)
        for n in lines:
            if (p, n) not in L:
                miss[n] = 1
        line = c.co_firstlineno
        for ins in dis.get_instructions(c):
            if ins.positions and ins.positions.lineno:
                line = ins.positions.lineno
            if ins.opname in ("POP_JUMP_IF_TRUE", "POP_JUMP_IF_FALSE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE"):
                totb += 2
                seen = {b[4] for b in B if b[0] == p and b[1] == c.co_firstlineno and b[2] == c.co_qualname and b[3] == ins.offset}
                if len(seen) == 1:
                    taken = seen.pop() == ins.argval
                    kind = ins.opname
                    val = (kind.endswith("IF_TRUE") == taken) if kind.endswith(("TRUE", "FALSE")) else ("None" if (kind == "POP_JUMP_IF_NONE") == taken else "not None")
                    part.setdefault(line, []).append(str(val))
    print("== %s: %d of %d lines not run, %d branches one-sided" % (rel, len(miss), tot, len(part)))
    for n in sorted(set(miss) | set(part)):
        print("%5d %s %s" % (n, "-" if n in miss else "always " + ",".join(part[n]), src[n - 1][:110]))
