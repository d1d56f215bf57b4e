"""ctypes front end of /verif/harness/drv.c (must run with libasan preloaded)."""
import ctypes as C, os, numpy as np

D = C.c_double; I = C.c_int; P = C.c_void_p; S = C.c_char_p
CB_EPS = C.CFUNCTYPE(None, C.POINTER(D), C.POINTER(D), C.POINTER(D))
CB_MEAN = C.CFUNCTYPE(I, C.POINTER(D), C.POINTER(D), C.POINTER(D), D, D, D, D, C.POINTER(D))

SIG = {
    "scalar_size": (I, []), "hermitian": (I, []), "verbosity": (None, [I]),
    "ev_create": (P, [I] * 6), "ev_destroy": (None, [P]), "ev_info": (I, [P, P]), "ev_set": (None, [P, P]),
    "ev_get": (None, [P, P]), "ev_resize": (None, [P, I, I]), "ev_copy": (None, [P, P]),
    "ev_copy_slice": (None, [P, P, I, I, I]), "ev_aXpbY": (None, [D, P, D, P]),
    "sq_create": (P, [I]), "sq_destroy": (None, [P]), "sq_set": (None, [P, P]), "sq_get": (None, [P, P]),
    "sq_p": (I, [P]), "sq_resize": (None, [P, I, I]),
    "ev_aXpbYS_sub": (None, [D, P, D, P, P, I, I]), "ev_XeYS": (None, [P, P, P, I]), "ev_XpaYS": (None, [P, D, P, P, I]),
    "ev_XtX": (None, [P, P, P]), "ev_XtY": (None, [P, P, P, P]), "ev_XtY_slice": (None, [P, P, P, I, I, I, P]),
    "ev_XtY_slice2": (None, [P, P, P, I, I, I, I, I, P, P]), "ev_XtY_sub": (None, [P, I, P, P, P]),
    "ev_XtY_diag": (None, [P, P, P, P]), "ev_XtY_diag_real": (None, [P, P, P, P]), "ev_XtX_diag_real": (None, [P, P, P]),
    "ev_traceXtY": (None, [P, P, P]),
    "sq_copy": (None, [P, P]), "sq_copy_upper2full": (None, [P, P]), "sq_symmetrize": (None, [P, P]),
    "sq_trace": (None, [P, P]), "sq_traceAtB": (None, [P, P, P]), "sq_AeBC": (None, [P, P, I, P, I]),
    "sq_ApaBC": (None, [P, D, P, I, P, I]), "sq_ApaB": (None, [P, D, P]), "sq_aApbB": (None, [D, P, D, P]),
    "sq_invert": (I, [P, I, P]), "sq_eigensolve": (None, [P, P, P]), "sq_gen_eigensolve": (None, [P, P, P, P]),
    "sq_eigenvalues": (None, [P, P]), "sq_sqrt": (None, [P, P, P]),
    "XtY_diag": (None, [P, P, I, I, P]), "XtY_diag_real": (None, [P, P, I, I, P]), "XtX_diag_real": (None, [P, I, I, P]),
    "XpaY_diag": (None, [P, D, P, P, I, I]), "XpaY_diag_real": (None, [P, D, P, P, I, I]),
    "X_diag_pY_diag": (None, [P, P, P, P, I, I]), "re_trace_A_diag": (D, [P, P, I]), "diag_trace": (None, [P, I, P]),
    "diag_real_trace": (D, [P, I]),
    "axpy": (None, [I, D, P, I, P, I]), "scal": (None, [I, D, D, P, I]), "rscal": (None, [I, D, P, I]),
    "copy": (None, [I, P, I, P, I]), "dotc": (None, [I, P, I, P, I, P]),
    "gemm": (None, [I, I, I, I, I, D, P, I, P, I, D, P, I]), "herk": (None, [I, I, I, I, D, P, I, D, P, I]),
    "potrf": (I, [I, I, P, I]), "potri": (I, [I, I, P, I]),
    "md_create": (P, [I, I, I, I, I, P]), "md_destroy": (None, [P]), "md_info": (None, [P, P]), "md_num_bands": (None, [P, I]),
    "md_set_k": (None, [P, P, P]), "md_set_parity": (None, [P, I]), "md_put_inv": (None, [P, I, P, D]),
    "md_get_inv": (D, [P, I, P]), "set_dielectric": (None, [P, I, P, P, P, CB_EPS, P]),
    "sm_eigs": (None, [P, P]), "sm_invert": (None, [P, P]), "sm_invert_inplace": (None, [P, P]), "sm_rotate": (None, [P, P, P]),
    "sm_posdef": (I, [P]), "rotmat": (None, [P, P]), "sm_vec": (None, [P, P, P]), "check_dielectric": (I, [P, I]),
    "op": (None, [P, I, P, P, P, D]), "ucross": (None, [P, P, P, P]), "precond": (None, [P, I, P, P, P, P, P, D]),
    "constraint": (None, [P, I, P]), "num_const": (I, [P, P]), "parities": (None, [P, I, P, P]),
    "field": (None, [P, I, P, I, I, P]), "H_from_B": (None, [P, P, P, I, I, I]),
    "otherhalf": (I, [P, I, P, D, D, D]), "dominant": (None, [P, P, I, P]), "planewave": (None, [P, P, I, P, P, P, P]),
    "solve": (I, [P, P, P, I, D, I, I, I, I, D, I]), "dense_solve": (I, [I, P, P, P, P, P, I, I, D, I]),
    "get_eigenvals": (None, [P, P, P, P, P]),
    "io_create": (P, [S]), "io_open": (P, [S, I]), "io_close": (None, [P]), "io_dataset": (P, [P, S, S, I, P]),
    "io_open_dataset": (P, [P, S, I, P]), "io_close_dataset": (None, [P]), "io_exists": (I, [P, S]), "io_delete": (None, [P, S]),
    "io_write": (None, [P, P, P, I, P]), "io_read": (C.POINTER(D), [P, S, P, P, I, I, I, P]),
    "io_wsattr": (None, [P, S, S]), "io_wdattr": (None, [P, S, P, I, P]), "io_rsattr": (P, [P, S]),
    "io_rdattr": (C.POINTER(D), [P, S, P, I, P]), "free": (None, [P]), "ev_write": (None, [S, P]), "ev_read": (None, [S, P]),
}


def ptr(a):
    return a.ctypes.data if a is not None else None


class Lib:
    def __init__(self, path):
        self.so = C.CDLL(path)
        for n, (r, a) in SIG.items():
            f = getattr(self.so, "drv_" + n)
            f.restype, f.argtypes = r, a
            setattr(self, n, f)
        self.ss = self.scalar_size()
        self.cplx = self.ss == 2
        self.herm = bool(self.hermitian())
        self.dtype = np.complex128 if self.cplx else np.float64
        self.verbosity(0)

    def arr(self, a):
        return np.ascontiguousarray(a, dtype=self.dtype)

    def ev(self, n, c, p, data=None, N=None, localN=None, start=0, alloc=None):
        return Ev(self, n if N is None else N, c, p, n if localN is None else localN, start, n if alloc is None else alloc, data)

    def sq(self, p, data=None):
        return Sq(self, p, data)


class Ev:
    def __init__(self, L, N, c, p, localN, start, alloc, data=None):
        self.L = L
        self.h = L.ev_create(N, c, p, localN, start, alloc)
        if data is not None:
            self.set(data)

    def info(self):
        o = np.zeros(8, np.int32)
        self.L.ev_info(self.h, ptr(o))
        return dict(zip(("N", "localN", "Nstart", "allocN", "c", "n", "p", "alloc_p"), o.tolist()))

    def set(self, a):
        i = self.info()
        a = self.L.arr(a)
        assert a.size == i["n"] * i["p"], (a.shape, i)
        self.L.ev_set(self.h, ptr(a))
        return self

    def get(self):
        i = self.info()
        a = np.empty((i["n"], i["p"]), self.L.dtype)
        self.L.ev_get(self.h, ptr(a))
        return a

    def free(self):
        if self.h:
            self.L.ev_destroy(self.h)
            self.h = None


class Sq:
    def __init__(self, L, p, data=None):
        self.L = L
        self.h = L.sq_create(p)
        if data is not None:
            self.set(data)

    def set(self, a):
        a = self.L.arr(a)
        assert a.size == self.L.sq_p(self.h) ** 2
        self.L.sq_set(self.h, ptr(a))
        return self

    def get(self):
        p = self.L.sq_p(self.h)
        a = np.empty((p, p), self.L.dtype)
        self.L.sq_get(self.h, ptr(a))
        return a

    def free(self):
        if self.h:
            self.L.sq_destroy(self.h)
            self.h = None


def pack9(T):
    """Hermitian 3x3 tensors (...,3,3) -> (...,9) as the driver wants them"""
    T = np.asarray(T, complex)
    o = np.empty(T.shape[:-2] + (9,))
    for i in range(3):
        o[..., i] = T[..., i, i].real
    for j, (a, b) in enumerate(((0, 1), (0, 2), (1, 2))):
        o[..., 3 + 2 * j] = T[..., a, b].real
        o[..., 4 + 2 * j] = T[..., a, b].imag
    return np.ascontiguousarray(o)


def unpack9(v):
    v = np.asarray(v)
    T = np.zeros(v.shape[:-1] + (3, 3), complex)
    for i in range(3):
        T[..., i, i] = v[..., i]
    for j, (a, b) in enumerate(((0, 1), (0, 2), (1, 2))):
        T[..., a, b] = v[..., 3 + 2 * j] + 1j * v[..., 4 + 2 * j]
        T[..., b, a] = np.conj(T[..., a, b])
    return T


class MD:
    """a maxwell_data with the numbers of its layout"""

    def __init__(self, L, n, nb, nfft):
        self.L = L
        o = np.zeros(3, np.int32)
        self.h = L.md_create(n[0], n[1], n[2], nb, nfft, ptr(o))
        self.localN, self.Nstart, self.allocN = o.tolist()
        self.n = tuple(n)
        self.N = n[0] * n[1] * n[2]

    def info(self):
        o = np.zeros(18, np.int32)
        self.L.md_info(self.h, ptr(o))
        return dict(zip(("nx", "ny", "nz", "local_nx", "local_ny", "x0", "y0", "last_dim_size", "other_dims", "fft_output_size",
                         "N", "local_N", "N_start", "alloc_N", "parity", "zero_k", "num_bands", "max_fft_bands"), o.tolist()))

    def ev(self, p, data=None):
        return Ev(self.L, self.N, 2, p, self.localN, self.Nstart, self.allocN, data)

    def set_k(self, k, G):
        k = np.ascontiguousarray(k, float)
        G = np.ascontiguousarray(G, float)
        self.L.md_set_k(self.h, ptr(k), ptr(G))

    def put_inv(self, T, mu=False):
        v = pack9(T)
        mean = float(np.mean((v[:, 0] + v[:, 1] + v[:, 2]) / 3))
        self.L.md_put_inv(self.h, int(mu), ptr(v), mean)

    def get_inv(self, mu=False):
        v = np.empty((self.info()["fft_output_size"], 9))
        mean = self.L.md_get_inv(self.h, int(mu), ptr(v))
        return unpack9(v), mean

    def field(self, kind, X, b0, nb):
        f = np.empty((self.info()["fft_output_size"], nb, 3), complex)
        self.L.field(self.h, kind, X.h, b0, nb, ptr(f))
        return f

    def op(self, which, X, target=0.0):
        p = X.info()["p"]
        Y, W = self.ev(p), self.ev(p)
        self.L.op(self.h, which, X.h, Y.h, W.h, target)
        r = Y.get()
        Y.free(); W.free()
        return r

    def free(self):
        self.L.md_destroy(self.h)
        self.h = None
