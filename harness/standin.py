"""Stand-ins for the optional numerical libraries (not installed): documented interfaces, hostile semantics.

Arguments that may be overwritten are destroyed, device arrays (CuPy) refuse to be mixed with host arrays.
"""
import contextlib, sys, types
import numpy as np
import scipy.sparse.linalg as sla

LOG = []


def _destroy(x, flag):
    if flag and isinstance(x, np.ndarray) and x.flags.writeable and np.issubdtype(x.dtype, np.inexact):
        x[...] = np.nan


def _fft_module(name, key):
    m = types.ModuleType(name)

    def make(fct):
        def trf(a, s=None, axes=None, norm=None, shape=None, **kw):
            bad = set(kw)-{key, "threads", "planner_effort", "auto_align_input", "auto_contiguous"}
            if bad:
                raise TypeError("unexpected argument %s" % sorted(bad))
            th = kw.get("threads", 1)
            if not (isinstance(th, (int, np.integer)) and th >= 1):
                raise ValueError("invalid number of threads")
            out = fct(np.array(a), s if shape is None else shape, axes=axes)
            _destroy(a, kw.get(key, False))
            LOG.append(name)
            return out
        return trf
    m.fftn, m.ifftn = make(np.fft.fftn), make(np.fft.ifftn)
    return m


class Device(np.ndarray):
    """Device array: no implicit mixing with host arrays."""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        for x in list(inputs)+list(out or ()):
            if isinstance(x, np.ndarray) and x.ndim > 0 and not isinstance(x, Device):
                raise TypeError("unsupported host array in a device operation")
        cast = lambda x: x.view(np.ndarray) if isinstance(x, Device) else x
        if out is not None:
            kw["out"] = tuple(cast(x) for x in out)
        r = getattr(ufunc, method)(*[cast(x) for x in inputs], **kw)
        if out is not None:
            return out[0]
        return r.view(Device) if isinstance(r, np.ndarray) else r

    def __array_function__(self, func, types_, args, kwargs):
        raise TypeError("implicit conversion of a device array is not allowed")

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.ndim > 0 and not isinstance(v, Device):
            raise TypeError("unsupported host array in a device assignment")
        np.ndarray.__setitem__(self, k, v)


def _dev(x, dtype=None, **kw):
    return np.array(x.view(np.ndarray) if isinstance(x, Device) else x, dtype=dtype).view(Device)


def _host(x):
    return x.view(np.ndarray) if isinstance(x, Device) else x


def _cupy():
    m, f = types.ModuleType("cupy"), types.ModuleType("cupy.fft")

    def need(x):
        if isinstance(x, np.ndarray) and not isinstance(x, Device):
            raise TypeError("host array given to a device function")
        return _host(x)

    def wrap(fct):
        def g(*a, **kw):
            r = fct(*[need(x) for x in a], **{k: need(v) for k, v in kw.items()})
            if isinstance(r, tuple):
                return tuple(_dev(x) for x in r)
            return _dev(r) if isinstance(r, np.ndarray) else r
        return g
    for k in ("ones", "zeros", "empty", "full", "arange", "unravel_index", "isin", "logical_not", "concatenate", "abs", "conj", "where", "nonzero"):
        setattr(m, k, wrap(getattr(np, k)))
    m.in1d = wrap(np.isin)
    m.array = m.asarray = _dev
    m.asnumpy = lambda x: np.array(_host(x))
    m.ndarray = Device
    for k in ("float64", "complex128", "int64", "dtype"):
        setattr(m, k, getattr(np, k))

    def make(fct):
        def trf(a, s=None, axes=None, norm=None):
            LOG.append("cupy")
            return _dev(fct(need(a), s, axes=axes))
        return trf
    f.fftn, f.ifftn = make(np.fft.fftn), make(np.fft.ifftn)
    m.fft = f
    return {"cupy": m, "cupy.fft": f}


def _pyfftw():
    m, i, c = types.ModuleType("pyfftw"), types.ModuleType("pyfftw.interfaces"), types.ModuleType("pyfftw.interfaces.cache")
    n = _fft_module("pyfftw.interfaces.numpy_fft", "overwrite_input")
    state = {"on": False}

    def keep(t):
        if not state["on"]:
            raise RuntimeError("cache is not enabled")
        if not t > 0:
            raise ValueError("invalid time")
    c.enable, c.disable, c.set_keepalive_time = (lambda: state.update(on=True)), (lambda: state.update(on=False)), keep
    c.is_enabled = lambda: state["on"]

    def byte_align(a, n=None, dtype=None):
        if n is not None and not (isinstance(n, (int, np.integer)) and n >= 1):
            raise ValueError("invalid alignment")
        return np.array(a)
    m.byte_align = byte_align
    m.interfaces, i.cache, i.numpy_fft = i, c, n
    return {"pyfftw": m, "pyfftw.interfaces": i, "pyfftw.interfaces.cache": c, "pyfftw.interfaces.numpy_fft": n}


class _LU:
    def __init__(self, mat):
        if mat.shape[0] != mat.shape[1]:
            raise ValueError("square matrix expected")
        self.f = sla.splu(mat.tocsc())

    def solve(self, rhs, *_, **kw):
        return self.f.solve(np.array(rhs))


def _pydiso():
    m, s = types.ModuleType("pydiso"), types.ModuleType("pydiso.mkl_solver")

    class MKLPardisoSolver:
        def __init__(self, A, matrix_type=None, factor=True, verbose=False):
            if A.format != "csr":
                raise ValueError("CSR matrix expected")
            LOG.append("pydiso")
            self.lu = _LU(A)

        def solve(self, b):
            return self.lu.solve(b)

    def threads(n):
        if not (isinstance(n, (int, np.integer)) and n >= 1):
            raise ValueError("invalid number of threads")
    s.MKLPardisoSolver, s.set_mkl_pardiso_threads, s.set_mkl_threads = MKLPardisoSolver, threads, threads
    m.mkl_solver = s
    return {"pydiso": m, "pydiso.mkl_solver": s}


def _pyamg():
    m, s = types.ModuleType("pyamg"), types.ModuleType("pyamg.aggregation")

    class Solver(_LU):
        def solve(self, b, x0=None, tol=1e-5, maxiter=100, cycle="V", accel=None, **kw):
            if not tol > 0:
                raise ValueError("invalid tolerance")
            return _LU.solve(self, b)

    def root(A, **kw):
        if A.format != "csr":
            raise ValueError("CSR matrix expected")
        LOG.append("pyamg root")
        return Solver(A)

    def adapt(A, **kw):
        if A.format != "csr":
            raise ValueError("CSR matrix expected")
        LOG.append("pyamg adapt")
        return [Solver(A), 1.0]
    s.rootnode_solver, s.adaptive_sa_solver = root, adapt
    m.aggregation = s
    return {"pyamg": m, "pyamg.aggregation": s}


@contextlib.contextmanager
def installed():
    mod = {"mkl_fft": _fft_module("mkl_fft", "overwrite_x")}
    for f in (_cupy, _pyfftw, _pydiso, _pyamg):
        mod.update(f())
    old = {k: sys.modules.get(k) for k in mod}
    sys.modules.update(mod)
    LOG.clear()
    try:
        yield LOG
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
