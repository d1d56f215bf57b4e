"""Independent reference implementations (numpy, dense, written from the documentation's equations)."""
import numpy as np
import itertools


def rng(*key):
    return np.random.default_rng([int(k) & 0x7fffffff for k in key])


def gidx(n):
    """planewave index of array position x (transform e^{-2 pi i x j/n}): the integers nearest zero"""
    x = np.arange(n)
    return np.where(x >= max(1, (n + 1) // 2), x - n, x)


def kplusg(n, k, G):
    """Cartesian k+G for every array position, shape n+(3,).  Rows of G are the reciprocal vectors."""
    g = np.stack(np.meshgrid(*[gidx(m) for m in n], indexing="ij"), -1).astype(float)
    return (np.asarray(k) @ G) - g @ G


def cross(a, b):
    return np.cross(a, b)


def halfshape(n):
    """storage of position-space fields in the real-scalar (inversion) library: last nontrivial axis is halved"""
    last = 2 if n[2] > 1 else (1 if n[1] > 1 else 0)
    s = list(n)
    s[last] = n[last] // 2 + 1
    return tuple(s), last


def expand_half(f, n, conj=True):
    """complete f(r) given on the stored half from f(-r) = conj f(r)"""
    s, last = halfshape(n)
    f = f.reshape(s + f.shape[1:] if f.ndim > 1 else s)
    full = np.empty(tuple(n) + f.shape[3:], f.dtype)
    for idx in np.ndindex(*n):
        if idx[last] < s[last]:
            full[idx] = f[idx]
        else:
            m = tuple((-i) % q for i, q in zip(idx, n))
            full[idx] = np.conj(f[m]) if conj else f[m]
    return full


def to_grid(f, n, cplx):
    """driver field (npts, ...) -> full grid array n+(...)"""
    if cplx:
        return f.reshape(tuple(n) + f.shape[1:])
    return expand_half(f, n)


class RefOp:
    """the discretised Maxwell operator, acting on Cartesian Fourier amplitudes H[n0,n1,n2,3]
    with h(r_j) = sum_x H_x exp(-2 pi i x.j/n), i.e. h = fftn(H)."""

    def __init__(self, n, k, G, epsinv, muinv=None):
        self.n = tuple(n)
        self.K = kplusg(n, k, G)
        self.epsinv, self.muinv = epsinv, muinv
        k2 = np.sum(self.K ** 2, -1)
        self.k2 = k2

    def F(self, H):
        return np.fft.fftn(H, axes=(0, 1, 2))

    def Fi(self, h):
        return np.fft.ifftn(h, axes=(0, 1, 2))

    def mul(self, T, f):
        return np.einsum("...ij,...j->...i", T, f)

    def transverse(self, H):
        """remove the part along k+G (at k+G=0 the library keeps x- and.. a fixed pair of directions)"""
        k2 = np.where(self.k2 == 0, 1, self.k2)
        out = H - self.K * (np.sum(self.K * H, -1) / k2)[..., None]
        z = self.k2 == 0
        out[z] = H[z] * np.array([0, 1, 1])  # basis chosen there: y and z
        return out

    def muop(self, H):
        if self.muinv is None:
            return H
        return self.transverse(self.Fi(self.mul(self.muinv, self.F(H))))

    def d(self, H):
        return self.F(cross(self.K, H))

    def e(self, H):
        return self.mul(self.epsinv, self.d(H))

    def curlback(self, e):
        return -cross(self.K, self.Fi(e))

    def A(self, H):
        return self.muop(self.curlback(self.e(self.muop(H))))

    def ucross(self, H, u):
        return self.curlback(self.mul(self.epsinv, self.F(cross(np.asarray(u), H))))

    # -- dense form in a transverse orthonormal basis
    def basis(self):
        K = self.K.reshape(-1, 3)
        N = len(K)
        m, nn = np.zeros((N, 3)), np.zeros((N, 3))
        for i, v in enumerate(K):
            if not v.any():
                m[i], nn[i] = (0, 1, 0), (0, 0, 1)
                continue
            a = np.eye(3)[np.argmin(np.abs(v))]
            t = np.cross(v, a); t /= np.linalg.norm(t)
            m[i], nn[i] = t, np.cross(v, t) / np.linalg.norm(v)
        return m, nn

    def dense(self):
        """(A, B) matrices on the 2N transverse amplitudes, through explicit DFT matrices"""
        N = int(np.prod(self.n))
        m, nn = self.basis()
        grids = [np.arange(q) for q in self.n]
        W = np.ones((1, 1), complex)
        for q in self.n:
            w = np.exp(-2j * np.pi * np.outer(np.arange(q), np.arange(q)) / q)
            W = np.kron(W, w)
        K = self.K.reshape(-1, 3)
        T = np.zeros((3, N, 2 * N), complex)   # transverse coefficients -> Cartesian amplitudes
        for c in range(3):
            T[c][np.arange(N), np.arange(N)] = m[:, c]
            T[c][np.arange(N), N + np.arange(N)] = nn[:, c]
        C = np.zeros((3, N, 2 * N), complex)   # curl
        cm, cn = np.cross(K, m), np.cross(K, nn)
        for c in range(3):
            C[c][np.arange(N), np.arange(N)] = cm[:, c]
            C[c][np.arange(N), N + np.arange(N)] = cn[:, c]
        Wi = W.conj().T / N

        def sandwich(X, ten):
            ten = ten.reshape(N, 3, 3)
            f = np.stack([W @ X[c] for c in range(3)])         # position space
            g = np.einsum("nij,jnk->ink", ten, f)
            r = np.zeros((X.shape[2], X.shape[2]), complex)
            for c in range(3):
                r += X[c].conj().T @ (Wi @ g[c])
            return r
        A = sandwich(C, self.epsinv)
        if self.muinv is None:
            return A, None
        B = sandwich(T, self.muinv)
        return B @ A @ B, B

    def eigs(self, nb=None):
        import scipy.linalg as sl
        A, B = self.dense()
        A = (A + A.conj().T) / 2
        if B is not None:
            B = (B + B.conj().T) / 2
            # A = B M B : generalised problem A x = w B x has the eigenvalues of M B
            w = sl.eigh(A, B, eigvals_only=True)
        else:
            w = sl.eigh(A, eigvals_only=True)
        return w if nb is None else w[:nb]


def recip(R):
    """rows of R are lattice vectors; rows of the result satisfy b_i . R_j = delta_ij"""
    return np.linalg.inv(np.asarray(R, float)).T


def rand_lattice(r, dim=3):
    while True:
        A = np.eye(3) + 0.45 * r.uniform(-1, 1, (3, 3)) * (r.random() < 0.7)
        A *= r.uniform(0.6, 1.5, 3)[:, None]
        if dim < 3:
            A[2, :2] = 0; A[:2, 2] = 0
        if dim < 2:
            A[1, 0] = 0; A[0, 1] = 0
        if abs(np.linalg.det(A)) > 0.25 * np.prod(np.linalg.norm(A, axis=1)):
            return A


def rand_tensor(r, lo=1.0, hi=10.0, kind="aniso", herm=False):
    if kind == "iso":
        return np.eye(3) * r.uniform(lo, hi) + 0j
    if kind == "diag":
        return np.diag(r.uniform(lo, hi, 3)) + 0j
    M = r.normal(size=(3, 3)) + (1j * r.normal(size=(3, 3)) if herm else 0)
    Q, _ = np.linalg.qr(M)
    T = Q @ np.diag(r.uniform(lo, hi, 3)) @ Q.conj().T
    T = (T + T.conj().T) / 2
    return T if herm else T.real + 0j


def rand_tensor_field(r, n, kind, herm=False, inv=False, smooth=False):
    """tensor at every grid point; with inversion symmetry (T(-r) = T(r)) when inv"""
    T = np.empty(tuple(n) + (3, 3), complex)
    for idx in np.ndindex(*n):
        T[idx] = rand_tensor(r, kind=kind, herm=herm)
    if inv:
        for idx in np.ndindex(*n):
            m = tuple((-i) % q for i, q in zip(idx, n))
            if m > idx:
                T[m] = T[idx]
    return T


def stored_points(T, n, cplx):
    """tensor field on the full grid -> the order in which the library stores it"""
    if cplx:
        return T.reshape((-1,) + T.shape[3:])
    s, last = halfshape(n)
    sl = tuple(slice(0, q) for q in s)
    return T[sl].reshape((-1,) + T.shape[3:])


def mirror(H, axis):
    """mirror image of an axial vector field given by its planewave amplitudes (grid axes 0..2), axis 1 (y) or 2 (z)"""
    n = H.shape[axis]
    s = -np.ones(3); s[axis] = 1
    return np.take(H, (-np.arange(n)) % n, axis=axis) * s


def mirror_matrix(ref, axis):
    """the mirror operation on the transverse amplitudes of RefOp.dense()"""
    N = int(np.prod(ref.n))
    m, nn = ref.basis()
    idx = np.arange(N).reshape(ref.n)
    img = np.take(idx, (-np.arange(ref.n[axis])) % ref.n[axis], axis=axis).ravel()
    s = -np.ones(3); s[axis] = 1
    M = np.zeros((2 * N, 2 * N))
    for a, u in ((0, m), (1, nn)):
        for b, v in ((0, m), (1, nn)):
            M[a * N + img, b * N + np.arange(N)] = np.sum(u[img] * s * v, -1)
    return M


def sector_eigs(ref, ops, nb=None):
    """lowest eigenvalues within a symmetry sector; ops: list of (axis, +-1)"""
    import scipy.linalg as sl
    A, B = ref.dense()
    n = A.shape[0]
    Pm = np.eye(n)
    for axis, sgn in ops:
        Pm = Pm @ (np.eye(n) + sgn * mirror_matrix(ref, axis)) / 2
    w, Q = np.linalg.eigh((Pm + Pm.T) / 2)
    Q = Q[:, w > .5]
    A = Q.conj().T @ A @ Q
    if B is not None:
        B = Q.conj().T @ B @ Q
        B = (B + B.conj().T) / 2
    w = sl.eigh((A + A.conj().T) / 2, B, eigvals_only=True) if len(A) else np.zeros(0)
    return w if nb is None else w[:nb]
