"""Imports the heavy third-party libraries once, before workers are forked."""
import numpy  # noqa: F401
import scipy.linalg  # noqa: F401
import scipy.special  # noqa: F401
import sympy  # noqa: F401
import numba  # noqa: F401
import pandas  # noqa: F401
try:
    import pyscf  # noqa: F401
except Exception:
    pass
