"""Independent quadrature of the voxel-voxel Green integrals (no closed form of the code is used).

g(off)  = int_A int_B 1/(4 pi |r-r'|)         off = centre(A) - centre(B)
k(off)  = int_A int_B (r-r')/(4 pi |r-r'|^3)   (vector)
Both reduce to a 3D integral over u = r-r' with triangular weights; the weight is piecewise
polynomial, the boxes are split towards the origin, and the corner boxes use a Duffy map.
"""
import itertools
import numpy as np

_GL = {}


def gl(n):
    if n not in _GL:
        x, w = np.polynomial.legendre.leggauss(n)
        _GL[n] = ((x+1)/2, w/2)
    return _GL[n]


def _split(lo, hi, m0):
    """Split a box of the positive octant in cells with edge <= distance to the origin; corner cubes are kept apart."""
    out, corner = [], []
    stack = [(np.array(lo, float), np.array(hi, float))]
    while stack:
        (a, b) = stack.pop()
        e = b-a
        dist = np.sqrt(np.sum(a**2))
        if dist < 1e-9*m0:
            m = np.min(e)
            if np.max(e) <= 1.0001*m:
                corner.append((a, b))
                continue
            k = int(np.argmax(e))
            cut = a[k]+m
        else:
            if np.max(e) <= 1.0001*dist:
                out.append((a, b))
                continue
            k = int(np.argmax(e))
            # octree-like split, at most halving (geometric grading towards the origin)
            cut = a[k]+e[k]/2
        b1 = b.copy(); b1[k] = cut
        a2 = a.copy(); a2[k] = cut
        stack.append((a, b1))
        stack.append((a2, b))
    return out, corner


def integrals(off, d, p=10):
    off = np.asarray(off, float)
    d = np.asarray(d, float)
    s = np.max(d)
    off = off/s
    dd = d/s
    # snap to multiples (offsets are exact multiples of the voxel size)
    q = off/dd
    if np.max(np.abs(q-np.round(q))) < 1e-6:
        off = np.round(q)*dd
    g = 0.0
    k = np.zeros(3)
    x, w = gl(p)
    xd, wd = gl(14)
    for sg in itertools.product((0, 1), repeat=3):
        lo = np.array([off[i]-dd[i] if sg[i] == 0 else off[i] for i in range(3)])
        hi = lo+dd
        slope = np.array([1.0 if sg[i] == 0 else -1.0 for i in range(3)])   # derivative of tri with respect to u
        # split an interval strictly containing zero (offset not a multiple of d)
        parts = []
        for i in range(3):
            if lo[i] < -1e-12 and hi[i] > 1e-12:
                parts.append([(lo[i], 0.0), (0.0, hi[i])])
            else:
                parts.append([(lo[i], hi[i])])
        for box in itertools.product(*parts):
            a = np.array([t[0] for t in box]); b = np.array([t[1] for t in box])
            # reflect in the positive octant
            f = np.where(b <= 1e-12, -1.0, 1.0)
            ra = np.where(f < 0, -b, a); rb = np.where(f < 0, -a, b)
            ra = np.where(np.abs(ra) < 1e-12, 0.0, ra)
            cells, corner = _split(ra, rb, np.min(dd))

            def weights(U):
                t = U*f-off
                tri = dd-np.abs(t)
                return tri
            if cells:
                A = np.array([c[0] for c in cells]); E = np.array([c[1]-c[0] for c in cells])
                P = [A[:, i, None]+E[:, i, None]*x[None, :] for i in range(3)]
                W = [E[:, i, None]*w[None, :] for i in range(3)]
                R = np.sqrt(P[0][:, :, None, None]**2+P[1][:, None, :, None]**2+P[2][:, None, None, :]**2)
                T = [dd[i]-np.abs(P[i]*f[i]-off[i]) for i in range(3)]
                inv = 1/(4*np.pi*R)
                WT = [W[i]*T[i] for i in range(3)]
                WS = [W[i]*slope[i] for i in range(3)]
                g += np.einsum("cijk,ci,cj,ck->", inv, WT[0], WT[1], WT[2], optimize=True)
                k[0] += np.einsum("cijk,ci,cj,ck->", inv, WS[0], WT[1], WT[2], optimize=True)
                k[1] += np.einsum("cijk,ci,cj,ck->", inv, WT[0], WS[1], WT[2], optimize=True)
                k[2] += np.einsum("cijk,ci,cj,ck->", inv, WT[0], WT[1], WS[2], optimize=True)
            for (ca, cb) in corner:
                e = cb-ca
                t1, t2, t3 = np.meshgrid(xd, xd, xd, indexing="ij")
                ww = wd[:, None, None]*wd[None, :, None]*wd[None, None, :]
                for ax in range(3):
                    V = [None]*3
                    V[ax] = t1
                    V[(ax+1) % 3] = t1*t2
                    V[(ax+2) % 3] = t1*t3
                    U = np.stack(V, axis=-1)*e
                    jac = t1**2*np.prod(e)
                    Rr = np.sqrt(np.sum(U**2, axis=-1))
                    tri = weights(U)
                    base = ww*jac/(4*np.pi*Rr)
                    g += np.sum(base*tri[..., 0]*tri[..., 1]*tri[..., 2])
                    k[0] += np.sum(base*slope[0]*tri[..., 1]*tri[..., 2])
                    k[1] += np.sum(base*tri[..., 0]*slope[1]*tri[..., 2])
                    k[2] += np.sum(base*tri[..., 0]*tri[..., 1]*slope[2])
    return g*s**5, k*s**4


class Kernel:
    """Cache of the integrals by integer offset, for one voxel size."""
    def __init__(self, d):
        self.d = np.asarray(d, float)
        self.c = {}

    def get(self, off):
        key = tuple(int(abs(v)) for v in off)
        if key not in self.c:
            self.c[key] = integrals(np.array(key)*self.d, self.d)
        g, k = self.c[key]
        return g, k*np.where(np.asarray(off) < 0, -1.0, 1.0)
