"""Independent dense reference of the voxel PEEC system and of the extracted quantities.

A problem is described by plain data:
  n, d, c            grid
  dom                {domain: [linear voxel indices]}
  material_def, source_def   as in the problem file
  param              {"freq", "material_val", "source_val"} as in the problem file
Nothing of pypeec is used here.
"""
import numpy as np
import kernels

MU0 = 1.25663706212e-06
try:
    import scipy.constants as _c
    MU0 = _c.mu_0
except Exception:
    pass

_KER = {}


def kernel(d):
    key = tuple(float(x) for x in d)
    if key not in _KER:
        _KER[key] = kernels.Kernel(key)
    return _KER[key]


def unlin(n, i):
    i = int(i)
    return np.array([i % n[0], (i//n[0]) % n[1], i//(n[0]*n[1])])


def lin(n, ijk):
    return int(ijk[0]+n[0]*(ijk[1]+n[1]*ijk[2]))


def centre(n, d, c, i):
    n, d, c = np.array(n), np.array(d, float), np.array(c, float)
    return c-n*d/2+d/2+d*unlin(n, i)


def dom_idx(dom, lst):
    return [int(i) for t in lst for i in dom[t]]


def mat_values(mdef, val, nvox):
    """Complex rho (electric) and rho (magnetic) per voxel and axis."""
    def field(tag):
        v = val[tag]
        out = np.zeros((nvox, 3))
        for k in range(nvox):
            for a in range(3):
                x = v
                if mdef["var_type"] == "distributed":
                    x = x[k]
                if mdef["orientation_type"] == "anisotropic":
                    x = x[a]
                out[k, a] = x
        return out
    e = m = None
    if mdef["material_type"] in ("electric", "electromagnetic"):
        e = field("rho_re")+1j*field("rho_im")
    if mdef["material_type"] in ("magnetic", "electromagnetic"):
        chi = field("chi_re")-1j*field("chi_im")
        m = 1/(MU0*chi)
    return e, m


class Net:
    """Voxels and internal faces of one physics (electric or magnetic)."""
    def __init__(self, n, d, vox, rho):
        self.n, self.d = list(n), np.array(d, float)
        self.vox = list(vox)
        self.rho = rho
        pos = {v: k for k, v in enumerate(self.vox)}
        self.pos = pos
        area = np.array([d[1]*d[2], d[0]*d[2], d[0]*d[1]], float)
        self.area = area
        self.faces = []      # (axis, lower position, upper position)
        for ax in range(3):
            for v in sorted(self.vox):
                ijk = unlin(n, v)
                ijk[ax] += 1
                if ijk[ax] < n[ax]:
                    u = lin(n, ijk)
                    if u in pos:
                        self.faces.append((ax, pos[v], pos[u]))
        nf, nv = len(self.faces), len(self.vox)
        self.A = np.zeros((nv, nf))
        self.Aabs = np.zeros((nv, nf))
        self.R = np.zeros(nf, complex)
        self.ax = np.array([f[0] for f in self.faces], int)
        for k, (ax, lo, up) in enumerate(self.faces):
            self.A[lo, k] = 1.0
            self.A[up, k] = -1.0
            self.Aabs[lo, k] = self.Aabs[up, k] = 1.0
            self.R[k] = self.d[ax]/area[ax]*0.5*(rho[lo, ax]+rho[up, ax])
        self.ijk = np.array([unlin(n, v) for v in self.vox]).reshape(-1, 3)

    def face_ijk(self, k):
        return self.ijk[self.faces[k][1]]


def assemble(P):
    n, d = P["n"], np.array(P["d"], float)
    dom = P["dom"]
    param = P["param"]
    ker = kernel(d)
    vc, vm, rc, rm = [], [], [], []
    mat_vox = {}
    for tag, md in P["material_def"].items():
        idx = dom_idx(dom, md["domain_list"])
        e, m = mat_values(md, param["material_val"][tag], len(idx))
        mat_vox[tag] = (idx, md["material_type"])
        if e is not None:
            vc += idx; rc.append(e)
        if m is not None:
            vm += idx; rm.append(m)
    rc = np.concatenate(rc) if rc else np.zeros((0, 3), complex)
    rm = np.concatenate(rm) if rm else np.zeros((0, 3), complex)
    c, m = Net(n, d, vc, rc), Net(n, d, vm, rm)
    # partial inductances between parallel faces
    nf = len(c.faces)
    L = np.zeros((nf, nf))
    for a in range(3):
        sel = np.flatnonzero(c.ax == a)
        for p in sel:
            for q in sel:
                if q < p:
                    continue
                g, _ = ker.get(c.face_ijk(p)-c.face_ijk(q))
                L[p, q] = L[q, p] = MU0*g/c.area[a]**2
    # potential coefficients
    nvm = len(vm)
    Pm = np.zeros((nvm, nvm))
    vol = np.prod(d)
    for p in range(nvm):
        for q in range(p, nvm):
            g, _ = ker.get(m.ijk[p]-m.ijk[q])
            Pm[p, q] = Pm[q, p] = g/(MU0*vol**2)
    # coupling: magneto-motive force on magnetic faces by electric faces, projected on voxels
    Km = np.zeros((len(m.faces), nf))
    if len(m.faces) and nf:
        # voxel to voxel, axis to axis: H = J x R / (4 pi R^3)
        KV = np.zeros((nvm, 3, len(vc), 3))
        for p in range(nvm):
            for q in range(len(vc)):
                _, k = ker.get(m.ijk[p]-c.ijk[q])
                for b in range(3):
                    J = np.zeros(3); J[b] = 1.0
                    H = np.cross(J, k)
                    for a in range(3):
                        if a != b:
                            KV[p, a, q, b] = H[a]/(m.area[a]*c.area[b])
        for f, (a, p0, p1) in enumerate(m.faces):
            row = 0.5*(KV[p0, a]+KV[p1, a])          # (vc, 3)
            for g_, (b, q0, q1) in enumerate(c.faces):
                Km[f, g_] = 0.5*(row[q0, b]+row[q1, b])
    # sources
    src = []
    for typ in ("current", "voltage"):
        for tag, sd in P["source_def"].items():
            if sd["source_type"] != typ:
                continue
            idx = dom_idx(dom, sd["domain_list"])
            v = param["source_val"][tag]
            N = len(idx)
            a, b = (("I", "Y") if typ == "current" else ("V", "Z"))
            for k, i in enumerate(idx):
                if sd["var_type"] == "lumped":
                    x = v[a+"_re"]+1j*v[a+"_im"]
                    y = v[b+"_re"]+1j*v[b+"_im"]
                    if typ == "current":
                        x, y = x/N, y/N
                    else:
                        y = y*N
                else:
                    x = v[a+"_re"][k]+1j*v[a+"_im"][k]
                    y = v[b+"_re"][k]+1j*v[b+"_im"][k]
                src.append((tag, typ, c.pos[i], x, y))
    return dict(c=c, m=m, L=L, P=Pm, Km=Km, src=src, mat_vox=mat_vox, freq=param["freq"])


def solve(P):
    S = assemble(P)
    c, m, L, Pm, Km, src = S["c"], S["m"], S["L"], S["P"], S["Km"], S["src"]
    s = 2j*np.pi*S["freq"]
    nfc, nvc, nfm, nvm, ns = len(c.faces), len(c.vox), len(m.faces), len(m.vox), len(src)
    o1, o2, o3, o4 = nfc, nfc+nvc, nfc+nvc+nfm, nfc+nvc+nfm+nvm
    N = o4+ns
    M = np.zeros((N, N), complex)
    rhs = np.zeros(N, complex)
    M[:o1, :o1] = np.diag(c.R)+s*L
    M[:o1, o1:o2] = -c.A.T
    M[:o1, o2:o3] = s*Km.T
    M[o1:o2, :o1] = c.A
    for k, (_, typ, pos, x, y) in enumerate(src):
        M[o1+pos, o4+k] = -1.0
        if typ == "current":
            M[o4+k, o4+k] = 1.0
            M[o4+k, o1+pos] = y
        else:
            M[o4+k, o1+pos] = 1.0
            M[o4+k, o4+k] = y
        rhs[o4+k] = x
    M[o2:o3, :o1] = -Km
    M[o2:o3, o2:o3] = np.diag(m.R)
    M[o2:o3, o3:o4] = -m.A.T
    M[o3:o4, o2:o3] = Pm@m.A
    M[o3:o4, o3:o4] = np.eye(nvm)
    # symmetric-ish equilibration
    r = np.ones(N); q = np.ones(N)
    for _ in range(6):
        B = np.abs(M)*r[:, None]*q[None, :]
        r /= np.sqrt(np.max(B, axis=1)+1e-300)
        B = np.abs(M)*r[:, None]*q[None, :]
        q /= np.sqrt(np.max(B, axis=0)+1e-300)
    Ms = M*r[:, None]*q[None, :]
    cond = np.linalg.cond(Ms)
    lu = np.linalg.solve
    x = lu(Ms, rhs*r)*q
    dx = lu(Ms, (rhs-M@x)*r)*q
    x = x+dx
    out = dict(I_fc=x[:o1], V_c=x[o1:o2], I_fm=x[o2:o3], V_m=x[o3:o4], I_src=x[o4:], S=S, cond=cond, M=M, rhs=rhs, sol=x)
    out.update(extract(P, out))
    return out


def extract(P, X):
    S = X["S"]
    c, m, L, Km, src = S["c"], S["m"], S["L"], S["Km"], S["src"]
    d = np.array(P["d"], float)
    vol = np.prod(d)
    f = S["freq"]
    s = 2j*np.pi*f
    fp = 1.0 if f == 0 else 0.5
    fw = 0.5 if f == 0 else 0.25
    Ic, Im = X["I_fc"], X["I_fm"]
    Pfc = fp*np.real(c.R)*np.abs(Ic)**2
    Pfm = fp*np.real(np.conj(s*Im)*m.R*Im)
    Wc = fw*np.real(np.conj(Ic)@(L@Ic))
    Wm = fw*np.real(np.conj(Ic)@(Km.T@Im))
    Pvc, Pvm = 0.5*c.Aabs@Pfc, 0.5*m.Aabs@Pfm

    def dens(net, x):
        out = np.zeros((len(net.vox), 3), complex)
        for a in range(3):
            sel = net.ax == a
            out[:, a] = 0.5*(net.Aabs[:, sel]@x[sel])/net.area[a]
        return out
    out = dict(
        J_c=dens(c, Ic), B_m=dens(m, Im),
        P_c=Pvc/vol, P_m=Pvm/vol, S_c=c.A@Ic/vol, Q_m=m.A@Im/vol,
        P_electric=Pfc.sum(), P_magnetic=Pfm.sum(), W_electric=Wc, W_magnetic=Wm,
        P_total=Pfc.sum()+Pfm.sum(), W_total=Wc+Wm)
    source = {}
    for k, (tag, typ, pos, x, y) in enumerate(src):
        V, I = X["V_c"][pos], X["I_src"][k]
        source.setdefault(tag, []).append((V, I))
    out["source"] = {t: dict(V=np.mean([a for a, b in v]), I=np.sum([b for a, b in v]), S=fp*np.sum([a*np.conj(b) for a, b in v])) for t, v in source.items()}
    out["S_total"] = sum(v["S"] for v in out["source"].values())
    mat = {}
    for t, (idx, typ) in S["mat_vox"].items():
        e = sum(Pvc[c.pos[i]] for i in idx) if typ in ("electric", "electromagnetic") else 0.0
        g = sum(Pvm[m.pos[i]] for i in idx) if typ in ("magnetic", "electromagnetic") else 0.0
        mat[t] = dict(P_electric=e, P_magnetic=g, P_total=e+g)
    out["material"] = mat
    return out


def cloud_field(P, X, pts, mode):
    """Biot-Savart of currents at face or voxel centres, plus magnetic point charges."""
    S = X["S"]
    c, m = S["c"], S["m"]
    n, d, cc = P["n"], np.array(P["d"], float), P["c"]
    pc = np.array([centre(n, d, cc, v) for v in c.vox]).reshape(-1, 3)
    pm = np.array([centre(n, d, cc, v) for v in m.vox]).reshape(-1, 3)
    qm = m.A@X["I_fm"]
    He, Hm = np.zeros((len(pts), 3), complex), np.zeros((len(pts), 3), complex)
    for k, p in enumerate(np.asarray(pts, float).reshape(-1, 3)):
        for f, (ax, lo, up) in enumerate(c.faces):
            mom = np.zeros(3, complex); mom[ax] = d[ax]*X["I_fc"][f]
            if mode == "face":
                srcs = [(0.5*(pc[lo]+pc[up]), mom)]
            else:
                srcs = [(pc[lo], 0.5*mom), (pc[up], 0.5*mom)]
            for (q, mm) in srcs:
                R = p-q
                He[k] += np.cross(mm, R)/(4*np.pi*np.linalg.norm(R)**3)
        for v in range(len(m.vox)):
            R = p-pm[v]
            Hm[k] += qm[v]*R/(4*np.pi*MU0*np.linalg.norm(R)**3)
    return He, Hm
