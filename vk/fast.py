"""Quick tier: leave out the single precision variants of the numba kernels
(the checks evaluate in double precision), which halves the compile time.
Imported before larch.numba."""
import os
if os.environ.get("VK_FAST"):
    import numba
    _orig = numba.guvectorize

    def guvectorize(sigs, *args, **kw):
        if isinstance(sigs, (list, tuple)) and len(sigs) > 1:
            sigs = [s for s in sigs if "float32" not in str(s)] or sigs
        return _orig(sigs, *args, **kw)

    numba.guvectorize = guvectorize
