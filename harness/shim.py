"""Interpreted execution of the jitted kernels.

The real /repo sources are run unchanged, but numba is told not to compile
(`NUMBA_DISABLE_JIT`) and `jitclass`/`typed.List`/`ListType` are replaced with
transparent stand-ins, because the repository's jitclass-based grid cannot be
imported otherwise.  This makes every Grid method observable (and skips the
30 s compile), at the cost of speed.  C25 compares this mode with the compiled
one, so the substitution is itself checked.
"""
import os


def install():
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    import numba
    import numba.experimental
    import numba.typed
    import numba.types

    class _Inst:
        pass

    class _ClassType:
        instance_type = _Inst()

    import numpy as np

    def jitclass(cls_or_spec=None, spec=None):
        if not isinstance(cls_or_spec, type):
            spec = cls_or_spec if cls_or_spec is not None else spec

        def deco(cls):
            cls.class_type = _ClassType()
            items = dict(spec.items() if hasattr(spec, "items") else (spec or []))
            floats = frozenset(
                k for k, v in items.items() if str(v) in ("float64", "float32")
            )
            ints = frozenset(
                k for k, v in items.items() if str(v).startswith(("int", "uint"))
            )

            # jitclass fields are typed: assignment converts
            def __setattr__(self, name, value):
                if name in floats:
                    if type(value) is not float:
                        value = (
                            value.item()
                            if isinstance(value, np.ndarray)
                            else float(value)
                        )
                        value = float(value)
                elif name in ints:
                    value = int(value)
                object.__setattr__(self, name, value)

            cls.__setattr__ = __setattr__
            return cls

        if isinstance(cls_or_spec, type):
            return deco(cls_or_spec)
        return deco

    class PyList(list):
        @classmethod
        def empty_list(cls, *_a, **_k):
            return cls()

    class PyDict(dict):
        @classmethod
        def empty(cls, *_a, **_k):
            return cls()

    numba.experimental.jitclass = jitclass
    numba.typed.List = PyList
    numba.typed.Dict = PyDict
    _real_list_type = numba.types.ListType

    def list_type(t):
        if isinstance(t, _Inst):
            return t
        return _real_list_type(t)

    numba.types.ListType = list_type
    _real_optional = numba.optional

    def optional(t):
        return t if isinstance(t, _Inst) else _real_optional(t)

    numba.optional = optional
