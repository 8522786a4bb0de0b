"""Deep snapshots of the library's values through what a user can observe.

``snap(x)`` is a nested tuple that equals another snapshot exactly when the two
objects look identical; ``same(a, b)`` compares snapshots of *results*, allowing
the last digits of floating point numbers to differ.
"""
import cmath
import math

import numpy as np
import sympy

REL, ABS = 1e-9, 1e-10


def _num(v):
    if isinstance(v, complex):
        return ("c",) + tuple(_num(x)[1:] for x in (v.real, v.imag)) if not cmath.isfinite(v) else ("c", v)
    if isinstance(v, float) and not math.isfinite(v):
        return ("f", "nan" if v != v else str(v))
    return ("n", v, math.copysign(1.0, v) if isinstance(v, float) else 1.0)


def snap(x):
    if x is None or isinstance(x, (str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", x.shape, tuple(snap(e) for e in x.ravel().tolist()))
        return ("array", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, np.generic):
        return ("number", type(x).__name__, _num(x.item()), None)
    if isinstance(x, (bool, int, float, complex)):
        return ("number", type(x).__name__, _num(x), snap(getattr(x, "precision", None)))
    if isinstance(x, sympy.MatrixBase):
        return ("matrix", x.shape, tuple(snap(e) for e in x.flat()))
    if isinstance(x, sympy.Basic):
        return ("expr", type(x).__name__, x)
    if isinstance(x, dict):
        return ("dict", tuple((snap(k), snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(e) for e in x))
    if isinstance(x, (set, frozenset)):
        return ("set", frozenset(snap(e) for e in x))
    if isinstance(x, range) or callable(x) and not type(x).__module__.startswith("orquestra"):
        return ("opaque", repr(x) if isinstance(x, range) else id(x))
    return _library(x)


def _library(x):
    from orquestra.quantum import circuits as c
    from orquestra.quantum.circuits import _gates
    from orquestra.quantum.distributions import MeasurementOutcomeDistribution
    from orquestra.quantum.measurements import Measurements
    from orquestra.quantum.operators import PauliSum, PauliTerm
    from orquestra.quantum.wavefunction import Wavefunction

    if isinstance(x, c.Circuit):
        return ("Circuit", snap(x.n_qubits), tuple(snap(o) for o in x.operations))
    if isinstance(x, c.GateOperation):
        return ("GateOperation", snap(x.gate), snap(x.qubit_indices))
    if isinstance(x, _gates.CustomGateDefinition):
        return ("CustomGateDefinition", x.gate_name, snap(x.matrix), snap(x.params_ordering))
    if isinstance(x, PauliTerm):
        return ("PauliTerm", str(x), snap(x.coefficient), frozenset(x.operations))
    if isinstance(x, PauliSum):
        return ("PauliSum", tuple(snap(t) for t in x.terms))
    if isinstance(x, Measurements):
        return ("Measurements", snap(list(x.bitstrings)))
    if isinstance(x, MeasurementOutcomeDistribution):
        return ("MeasurementOutcomeDistribution", snap(dict(x.distribution_dict)))
    if isinstance(x, Wavefunction):
        return ("Wavefunction", snap(x.amplitudes))
    if hasattr(x, "toarray"):  # scipy sparse
        return ("sparse", snap(x.toarray()))
    if hasattr(x, "wrapped_gate"):
        return (type(x).__name__, snap(x.wrapped_gate), snap(getattr(x, "num_control_qubits", None)), snap(getattr(x, "exponent", None)))
    if hasattr(x, "matrix_factory"):
        d = getattr(x.matrix_factory, "gate_definition", None)
        return (type(x).__name__, x.name, snap(x.params), snap(x.num_qubits), snap(d), snap(x.is_hermitian))
    return (type(x).__name__, tuple((k, snap(v)) for k, v in sorted(vars(x).items()) if not k.startswith("_")))


def _close(a, b):
    try:
        return abs(a - b) <= ABS + REL * max(abs(a), abs(b))
    except TypeError:
        return False


def same(a, b):
    """Do two results agree?  (a, b are snapshots.)"""
    if a == b:
        return True
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b):
        return isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)) and _close(a, b)
    if a[0] != b[0]:
        return False
    if a[0] == "expr":
        syms = sorted(a[2].free_symbols | b[2].free_symbols, key=str)
        at = {s: 0.3 + 0.17 * i for i, s in enumerate(syms)}
        try:
            return _close(complex(a[2].subs(at)), complex(b[2].subs(at)))
        except (TypeError, ValueError, AttributeError):
            return False
    if a[0] == "number":
        va, vb = a[2], b[2]
        if va[0] in "nc" and vb[0] in "nc" and len(va) > 1 and not isinstance(va[1], (str, tuple)) and not isinstance(vb[1], (str, tuple)):
            return _close(va[1], vb[1])
        return va == vb
    if a[0] == "array":
        if a[1:3] != b[1:3] or np.dtype(a[1]).kind not in "fc":
            return False
        x, y = (np.frombuffer(v[3], dtype=v[1]) for v in (a, b))
        return bool(np.allclose(x, y, rtol=REL, atol=ABS, equal_nan=True))
    if a[0] == "PauliTerm":
        return a[3] == b[3] and same(a[2], b[2])
    if len(a) != len(b):
        return False
    return all(same(x, y) for x, y in zip(a, b))
