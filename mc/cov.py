"""Lines and branches of rsciio executed by a check (VERIF_COV=directory), for tools/cov.py."""
import json
import os
import sys

LINES, BRANCHES = set(), set()
M = sys.monitoring if hasattr(sys, "monitoring") else None


def start(repo):
    root = os.path.join(repo, "rsciio")
    M.use_tool_id(3, "verif")

    def line(code, n):
        if code.co_filename.startswith(root):
            LINES.add((code.co_filename, n))
        return M.DISABLE

    def branch(code, a, b):
        if not code.co_filename.startswith(root):
            return M.DISABLE
        BRANCHES.add((code.co_filename, code.co_firstlineno, code.co_qualname, a, b))

    M.register_callback(3, M.events.LINE, line)
    M.register_callback(3, M.events.BRANCH, branch)
    M.set_events(3, M.events.LINE | M.events.BRANCH)


def dump():
    d = os.environ["VERIF_COV"]
    with open(os.path.join(d, "%d.json" % os.getpid()), "w") as f:
        json.dump([sorted(LINES), sorted(BRANCHES)], f)
