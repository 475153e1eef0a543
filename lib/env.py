"""Environment shared by all drivers; import this before anything of pyconform."""
import os, sys, warnings
REPO = os.environ.get("PYCONFORM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
os.environ.setdefault("OMPI_MCA_ess_singleton_isolated", "1")
os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT", "1")
os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

def patch_ply():
    """ply rewrites pyconform/parsetab.py when the grammar does not match it; keep /repo as it is."""
    import ply.yacc
    if getattr(ply.yacc, "_verif_patched", False):
        return
    orig = ply.yacc.yacc
    def yacc(*a, **k):
        k["write_tables"] = False
        k["debug"] = False
        k.setdefault("errorlog", ply.yacc.NullLogger())
        # the module that calls yacc() is found through the stack: name it explicitly
        if "module" not in k:
            g = sys._getframe(1).f_globals
            if "__file__" in g and g.get("__name__") in sys.modules:
                k["module"] = sys.modules[g["__name__"]]
        return orig(*a, **k)
    ply.yacc.yacc = yacc
    ply.yacc._verif_patched = True

patch_ply()
