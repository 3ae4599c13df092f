"""C26: Fourier helpers."""
import copy
import numpy as np
from pypeec.utils import fourier

RULE = ("random real trigonometric series with known amplitudes and phases sampled at even and odd counts, and random real signals; spectra, reconstructed samples and axes are compared with explicit sums; "
        "non-trivial: at least one harmonic besides the DC term")
ASSUMPTIONS = ["amplitudes are defined for harmonics below half of the sample count; the harmonic exactly at half is only required to survive the round trip",
               "get_ifft without sample count returns an even number of samples"]


def series(c, n):
    """Samples of a0 + sum |c_k| cos(2 pi k j/n + arg c_k)."""
    j = np.arange(n)
    v = np.full(n, c[0].real)
    for k in range(1, len(c)):
        v = v+np.abs(c[k])*np.cos(2*np.pi*((k*j) % n)/n+np.angle(c[k]))
    return v


def dft(v):
    n = len(v)
    j = np.arange(n)
    m = (n-1)//2+1
    out = np.array([2/n*np.sum(v*np.exp(-2j*np.pi*((k*j) % n)/n)) for k in range(m)])
    out[0] *= 0.5
    return out


def run(ctx):
    def known(rng, i):
        n = int(rng.integers(1, 60)) if i % 25 else int(rng.integers(200, 1500))
        kmax = (n-1)//2
        K = int(rng.integers(0, kmax+1))
        s = 10**rng.uniform(-6, 6)
        c = s*(rng.normal(size=K+1)+1j*rng.normal(size=K+1))
        c[0] = c[0].real
        if rng.random() < 0.3:
            c = np.where(rng.random(K+1) < 0.6, 0, c)
        v = series(c, n)
        ctx.case({"n": n, "c": c}, bool(np.any(c[1:])))
        form = list(v) if rng.random() < 0.3 else v.copy()
        keep = copy.deepcopy(form)
        got = np.asarray(ctx.call(fourier.get_fft, form))
        ctx.expect(np.array_equal(np.asarray(form), np.asarray(keep)), "signal is not modified")
        ctx.expect(len(got) == n//2+1, "number of harmonics", got=len(got))
        full = np.zeros(kmax+1, complex); full[:K+1] = c
        ctx.close(got[:kmax+1], full, 1e-9, "harmonics of a known series", scale=s)
        if n % 2 == 0:
            ctx.close(got[kmax+1:], np.zeros(1), 1e-9, "no content at half of the sample count", scale=s)
        # truncation and padding
        q = int(rng.integers(1, 2*n+4))
        t = np.asarray(ctx.call(fourier.get_fft, v, q))
        ref = np.zeros(max(q, kmax+1), complex); ref[:kmax+1] = full
        ctx.expect(t.shape == (q,), "requested number of harmonics")
        ctx.close(t, ref[:q], 1e-9, "truncated or padded harmonics", scale=s)
        # Parseval
        ctx.close(np.mean(v**2), abs(got[0])**2+0.5*np.sum(np.abs(got[1:])**2), 1e-9, "mean square of the signal", scale=max(np.mean(v**2), 1e-12*s*s))
        # spectrum to signal, other sample counts included
        spec = list(c) if rng.random() < 0.3 else c.copy()
        keep = copy.deepcopy(spec)
        m = int(rng.integers(2*K+1, 4*n+4))
        w = np.asarray(ctx.call(fourier.get_ifft, spec, m))
        ctx.expect(np.array_equal(np.asarray(spec), np.asarray(keep)), "spectrum is not modified")
        ctx.expect(w.shape == (m,) and np.isrealobj(w), "requested number of samples")
        ctx.close(w, series(c, m), 1e-9, "samples of a known series", scale=s)
        # undersampling drops the harmonics that cannot be represented
        if K >= 1:
            u = int(rng.integers(1, 2*K+1))
            if u % 2 == 1:
                w = np.asarray(ctx.call(fourier.get_ifft, c, u))
                ctx.close(w, series(c[:(u-1)//2+1], u), 1e-9, "undersampled series", scale=s)
        if K >= 2:
            p = np.append(c, 0.0)
            w = np.asarray(ctx.call(fourier.get_ifft, p))
            ctx.expect(len(w) == 2*K+2, "default number of samples")
            ctx.close(w, series(c, 2*K+2), 1e-9, "samples with the default count", scale=s)

    def signal(rng, i):
        n = int(rng.integers(1, 80)) if i % 25 else int(rng.integers(200, 1500))
        s = 10**rng.uniform(-6, 6)
        v = s*rng.normal(size=n)
        kind = int(rng.integers(4))
        if kind == 1:
            v = s*np.where(np.arange(n) < n//3, 1.0, -0.5)
        elif kind == 2:
            v = s*((-1.0)**np.arange(n)+0.3)
        elif kind == 3:
            v = np.rint(3*rng.normal(size=n)).astype(int)
            s = 3.0
        ctx.case({"n": n, "v": v}, n >= 3)
        f = np.asarray(ctx.call(fourier.get_fft, v))
        f0 = f.copy()
        w = np.asarray(ctx.call(fourier.get_ifft, f, n))
        ctx.expect(np.array_equal(f, f0), "spectrum is not modified (round trip)")
        ctx.close(w, v, 1e-9, "signal after the round trip", scale=s)
        if n % 2 == 0 and n >= 2:
            ctx.close(np.asarray(ctx.call(fourier.get_ifft, f)), v, 1e-9, "round trip with the default count", scale=s)
        g = np.asarray(ctx.call(fourier.get_fft, w))
        ctx.close(g, f, 1e-9, "spectrum after the round trip", scale=s)
        r = dft(np.asarray(v, float))
        ctx.close(f[:len(r)], r, 1e-9, "harmonics by explicit sums", scale=s)
        # linearity and shift
        k = int(rng.integers(0, n))
        h = np.asarray(ctx.call(fourier.get_fft, np.roll(v, k)))
        ctx.close(h[:len(r)], r*np.exp(-2j*np.pi*k*np.arange(len(r))/n), 1e-9, "shifted signal", scale=s)
        # oversampling passes through the samples
        if n % 2 == 1:
            b = int(rng.integers(2, 5))
            ctx.close(np.asarray(ctx.call(fourier.get_ifft, f, b*n))[::b], v, 1e-9, "oversampled signal passes through the samples", scale=s)

    def axes(rng, i):
        f = float(10**rng.uniform(-3, 9))
        n = int(rng.integers(1, 200))
        ctx.case({"f": f, "n": n}, n >= 2)
        t = np.asarray(ctx.call(fourier.get_time, f, n))
        ctx.close(t, np.array([k/n/f for k in range(n)]), 1e-12, "time axis covers one period without the end point")
        q = np.asarray(ctx.call(fourier.get_freq, f, n))
        ctx.close(q, np.array([k*f for k in range(n)]), 1e-12, "frequency axis")
        ctx.expect(t[0] == 0 and q[0] == 0 and t.shape == q.shape == (n,), "axes start at zero")
        # a cosine evaluated on the axes
        k = int(rng.integers(0, (n-1)//2+1))
        a, p = rng.normal(), rng.uniform(-3, 3)
        c = np.asarray(ctx.call(fourier.get_fft, a*np.cos(2*np.pi*q[k]*t+p)))
        ref = np.zeros(len(c), complex)
        ref[k] = a*np.exp(1j*p) if k else a*np.cos(p)
        m = (n-1)//2+1
        ctx.close(c[:m], ref[:m], 1e-8, "cosine on the axes", scale=max(abs(a), 1e-3))

    ctx.ploop("known", ctx.n(1500, 20000), known)
    ctx.ploop("signal", ctx.n(1500, 20000), signal)
    ctx.ploop("axes", ctx.n(400, 4000), axes)
