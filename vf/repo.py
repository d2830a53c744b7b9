"""Imports the Python packages of the tree under test."""
import os, sys
from . import build

sys.dont_write_bytecode = True
_ready = False


def setup(native=True):
    global _ready
    if _ready:
        return
    if native:
        sys.path.insert(0, build.cffi_ext())
    sys.path.insert(0, build.REPO)
    import horusdemodlib
    if os.path.dirname(os.path.dirname(os.path.abspath(horusdemodlib.__file__))) != os.path.abspath(build.REPO):
        raise RuntimeError("imported %s instead of the tree under test" % horusdemodlib.__file__)
    _ready = True


_state = {}


def forget(mod):
    """Forgets the sensor names of earlier packets. A decoder which keeps them under another name: every module-level
    collection which is empty on import is emptied, and if it has none the module is loaded again, in place."""
    v = getattr(mod, "HORUS_V3_NAME_CACHE", None)
    if isinstance(v, dict):
        v.clear()
        return
    names = _state.get(mod.__name__)
    if names is None:
        # a second, independent load of the file shows what is there before any packet came
        import importlib.util
        spec = importlib.util.spec_from_file_location(mod.__name__, mod.__file__)
        fresh = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(fresh)
        names = _state[mod.__name__] = [k for k, v in vars(fresh).items() if isinstance(v, (dict, list, set)) and not v and not k.startswith("__")]
    if not names:
        import importlib
        importlib.reload(mod)
    for k in names:
        v = getattr(mod, k, None)
        if isinstance(v, (dict, list, set)):
            v.clear()


def asn(mod):
    """The decoder's compiled version 3 specification"""
    v = getattr(mod, "HORUS_ASN", None)
    if v is None:
        v = _state.get("asn")
    if v is None:
        for x in vars(mod).values():
            if hasattr(x, "encode") and hasattr(x, "decode") and "Telemetry" in getattr(x, "types", {}):
                v = x
    if v is None:
        import asn1tools
        for a, _, fs in os.walk(build.REPO):
            for f in fs:
                if f.lower() == "horusbinaryv3.asn1":
                    v = asn1tools.compile_files([os.path.join(a, f)], "uper")
    _state["asn"] = v
    return v
