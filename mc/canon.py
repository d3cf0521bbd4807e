"""Generic canonical form of an object graph (all instance state, aliasing included).

Two worlds with the same canonical form have the same instance state bit for bit and
the same sharing structure, hence the same futures under deterministic code; no private
name of the implementation is mentioned, so a refactoring cannot break the abstraction.
"""
import re
import types

import numpy as np
from scipy.sparse import issparse


def canon(obj):
    memo = {}
    keep = []
    consts = {}
    if hasattr(obj, 'canon_state'):
        consts, obj = obj.canon_state()

    def go(o):
        t = type(o)
        if t is str or t is int or t is bool or o is None:
            return o
        if t is float:
            return o if o == o else 'nan'
        if isinstance(o, (bool, int, float, complex, str, bytes)):
            return (t.__name__, o if o == o else 'nan')
        if t is tuple:              # immutable: its identity does not matter
            return tuple([go(v) for v in o])
        if isinstance(o, np.generic):
            return (str(o.dtype), o.tobytes())
        if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType,
                          types.ModuleType, np.dtype)):
            return ('ref', getattr(o, '__module__', ''),
                    getattr(o, '__qualname__', str(o)))
        i = id(o)
        if i in consts:
            return ('const', consts[i])
        if i in memo:
            return ('@', memo[i])
        memo[i] = len(memo)
        keep.append(o)
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                return ('oarr', o.shape, tuple(go(v) for v in o.ravel()))
            return ('arr', str(o.dtype), o.shape, o.flags.writeable, o.tobytes())
        if issparse(o):
            c = o.tocsr()
            c.sort_indices()
            return ('sp', o.format, o.shape, c.indptr.tobytes(), c.indices.tobytes(),
                    c.data.tobytes())
        if isinstance(o, dict):
            try:
                keys = sorted(o)
            except TypeError:
                keys = sorted(o, key=lambda k: (type(k).__name__, repr(k)))
            return ('dict', tuple((go(k) if type(k) is not str else k, go(o[k]))
                                  for k in keys))
        if isinstance(o, (list, tuple)):
            return (type(o).__name__, tuple(go(v) for v in o))
        if isinstance(o, (set, frozenset)):
            return ('set', tuple(sorted((repr(go(v)) for v in o))))
        if isinstance(o, types.MethodType):
            return ('meth', o.__func__.__qualname__, go(o.__self__))
        st = None
        if hasattr(o, '__dict__'):
            st = go(vars(o))
        sl = []
        for c in type(o).__mro__:
            for s in getattr(c, '__slots__', ()) or ():
                if isinstance(s, str) and hasattr(o, s) and s not in (
                        '__dict__', '__weakref__'):
                    sl.append((s, go(getattr(o, s))))
        if st is None and not sl:
            return ('opaque', type(o).__qualname__,
                    re.sub(r'0x[0-9a-f]+|\d{6,}', '', repr(o)))
        return ('obj', type(o).__module__, type(o).__qualname__, st, tuple(sl))

    return hash_(go(obj))


def hash_(t):
    import hashlib
    return hashlib.blake2b(repr(t).encode(), digest_size=16).digest()
