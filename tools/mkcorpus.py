"""Write mc/corpus.json: every file of the corpus, what eager and lazy reading give."""
import importlib, json, logging, os, signal, sys, tempfile, time, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore"); logging.disable(50)
import numpy as np, rsciio
from mc import corpus
import dask
dask.config.set(scheduler="sync")
tmp = tempfile.mkdtemp()
corpus.prepare(tmp)
dirs = {s["api"].split(".")[1]: s for s in rsciio.IO_PLUGINS}
out = []
def al(*a): raise TimeoutError
signal.signal(signal.SIGALRM, al)
for root, ds, fs in os.walk(corpus.ROOT):
    if ".zspy" in root: continue
    for f in sorted(list(fs) + [d for d in ds if d.endswith(".zspy")]):
        rel = os.path.relpath(os.path.join(root, f), corpus.ROOT); top = rel.split("/")[0]
        s = dirs.get({"npz": "numpy"}.get(top, top))
        if s is None or f.rsplit(".", 1)[-1] not in s["file_extensions"]: continue
        m = importlib.import_module(s["api"])
        e = dict(plugin=s["api"].split(".")[1], path=rel, size=os.path.getsize(corpus.path(rel)))
        for lazy in (False, True):
            t = time.time(); signal.alarm(60)
            try:
                r = m.file_reader(corpus.path(rel), lazy=lazy)
                e["lazy" if lazy else "eager"] = [[list(np.shape(x["data"])), str(x["data"].dtype)] + ([hasattr(x["data"], "__dask_graph__")] if lazy else []) for x in r]
                del r
            except BaseException as ex:
                e["lazy" if lazy else "eager"] = type(ex).__name__ + ": " + str(ex).replace(corpus.ROOT, "")[:90]
            signal.alarm(0)
            if not lazy: e["t"] = round(time.time() - t, 2)
        out.append(e)
out.sort(key=lambda e: (e["plugin"], e["path"]))
with open(os.path.join(corpus.HERE, "corpus.json"), "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(e) for e in out) + "\n]\n")
print(len(out), [ (e["path"], e["eager"]) for e in out if isinstance(e["eager"], str)])
import shutil; shutil.rmtree(tmp)
