import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
PRELOAD = ("C14",)
if len(sys.argv) > 1 and sys.argv[1] in PRELOAD:
    # the fault injector has to be there when the interpreter starts
    lib = os.environ.pop("VERIF_FAULTIO", None)
    if lib is None:
        import subprocess
        import tempfile
        fd, lib = tempfile.mkstemp(prefix="faultio", suffix=".so")
        os.close(fd)
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-o", lib, os.path.join(here, "mc", "faultio.c"), "-ldl"])
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, LD_PRELOAD=lib, VERIF_FAULTIO=lib))
    os.unlink(lib)
    os.environ.pop("LD_PRELOAD", None)
from mc.core import main
rc = main()
sys.stdout.flush()
os._exit(rc or 0)
