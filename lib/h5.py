"""Minimal HDF5 reader/writer on top of the installed C library (independent of the package's own I/O layer)."""
import ctypes as C
import numpy as np

_p = "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so"
try:
    H = C.CDLL(_p)
except OSError:
    import glob
    H = C.CDLL(sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libhdf5_serial.so*"))[0])
hid = C.c_int64
hs = C.c_uint64
H.H5open()
DBL = hid.in_dll(H, "H5T_NATIVE_DOUBLE_g").value
IEEE = hid.in_dll(H, "H5T_IEEE_F64LE_g").value
INT = hid.in_dll(H, "H5T_NATIVE_INT_g").value
CS1 = hid.in_dll(H, "H5T_C_S1_g").value
for f, a in {"H5Fopen": [C.c_char_p, C.c_uint, hid], "H5Fcreate": [C.c_char_p, C.c_uint, hid, hid], "H5Dopen2": [hid, C.c_char_p, hid], "H5Gopen2": [hid, C.c_char_p, hid],
             "H5Dget_space": [hid], "H5Dget_type": [hid], "H5Screate_simple": [C.c_int, C.c_void_p, C.c_void_p], "H5Screate": [C.c_int],
             "H5Dcreate2": [hid, C.c_char_p, hid, hid, hid, hid, hid], "H5Aopen": [hid, C.c_char_p, hid], "H5Aget_space": [hid],
             "H5Aget_type": [hid], "H5Acreate2": [hid, C.c_char_p, hid, hid, hid, hid], "H5Tcopy": [hid],
             "H5Aopen_by_idx": [hid, C.c_char_p, C.c_int, C.c_int, hs, hid, hid]}.items():
    getattr(H, f).argtypes = a
    getattr(H, f).restype = hid
for f, a in {"H5Dread": [hid, hid, hid, hid, hid, C.c_void_p], "H5Dwrite": [hid, hid, hid, hid, hid, C.c_void_p],
             "H5Aread": [hid, hid, C.c_void_p], "H5Awrite": [hid, hid, C.c_void_p], "H5Fclose": [hid], "H5Dclose": [hid], "H5Gclose": [hid],
             "H5Sclose": [hid], "H5Aclose": [hid], "H5Tclose": [hid], "H5Sget_simple_extent_ndims": [hid],
             "H5Sget_simple_extent_dims": [hid, C.c_void_p, C.c_void_p], "H5Tget_class": [hid], "H5Tset_size": [hid, C.c_size_t]}.items():
    getattr(H, f).argtypes = a
    getattr(H, f).restype = C.c_int
H.H5Tget_size.argtypes = [hid]; H.H5Tget_size.restype = C.c_size_t
H.H5Lget_name_by_idx.argtypes = [hid, C.c_char_p, C.c_int, C.c_int, hs, C.c_char_p, C.c_size_t, hid]
H.H5Lget_name_by_idx.restype = C.c_ssize_t
H.H5Aget_name.argtypes = [hid, C.c_size_t, C.c_char_p]; H.H5Aget_name.restype = C.c_ssize_t
H.H5Aget_num_attrs.argtypes = [hid]; H.H5Aget_num_attrs.restype = C.c_int
H.H5Eset_auto2.argtypes = [hid, C.c_void_p, C.c_void_p]


class H5(dict):
    """name -> array; .attrs: name -> array or string"""
    attrs = None


def _dims(s):
    n = H.H5Sget_simple_extent_ndims(s)
    d = (hs * max(n, 1))()
    if n > 0:
        H.H5Sget_simple_extent_dims(s, d, None)
    return tuple(int(x) for x in d[:n])


def _attrs(o):
    r = {}
    for i in range(H.H5Aget_num_attrs(o)):
        a = H.H5Aopen_by_idx(o, b".", 0, 0, i, 0, 0)
        nm = C.create_string_buffer(256)
        H.H5Aget_name(a, 256, nm)
        t, s = H.H5Aget_type(a), H.H5Aget_space(a)
        if H.H5Tget_class(t) == 3:
            buf = C.create_string_buffer(H.H5Tget_size(t) + 1)
            H.H5Aread(a, t, buf)
            r[nm.value.decode()] = buf.value.decode("latin1")
        else:
            v = np.empty(_dims(s))
            H.H5Aread(a, DBL, v.ctypes.data)
            r[nm.value.decode()] = v
        H.H5Tclose(t); H.H5Sclose(s); H.H5Aclose(a)
    return r


def read(path):
    H.H5Eset_auto2(0, None, None)
    f = H.H5Fopen(path.encode(), 0, 0)
    if f < 0:
        raise OSError("cannot open " + path)
    out = H5()
    i = 0
    g = H.H5Gopen2(f, b"/", 0)
    out.attrs = _attrs(g)
    H.H5Gclose(g)
    while True:
        nm = C.create_string_buffer(512)
        if H.H5Lget_name_by_idx(f, b".", 0, 0, i, nm, 512, 0) < 0:
            break
        i += 1
        d = H.H5Dopen2(f, nm.value, 0)
        if d < 0:
            continue
        s, t = H.H5Dget_space(d), H.H5Dget_type(d)
        if H.H5Tget_class(t) == 3:
            buf = C.create_string_buffer(H.H5Tget_size(t) + 1)
            H.H5Dread(d, t, 0, 0, 0, buf)
            out[nm.value.decode()] = buf.value.decode("latin1")
        else:
            v = np.empty(_dims(s))
            H.H5Dread(d, DBL, 0, 0, 0, v.ctypes.data)
            out[nm.value.decode()] = v
            out.attrs.update({nm.value.decode() + "/" + k: w for k, w in _attrs(d).items()})
        H.H5Sclose(s); H.H5Tclose(t); H.H5Dclose(d)
    H.H5Fclose(f)
    return out


def write(path, data, attrs=None):
    f = H.H5Fcreate(path.encode(), 2, 0, 0)
    assert f >= 0
    for k, v in data.items():
        if isinstance(v, str):
            b = v.encode() + b"\0"
            t = H.H5Tcopy(CS1); H.H5Tset_size(t, len(b)); s = H.H5Screate(0)
            d = H.H5Dcreate2(f, k.encode(), t, s, 0, 0, 0)
            H.H5Dwrite(d, t, 0, 0, 0, C.create_string_buffer(b)); H.H5Tclose(t)
        else:
            v = np.asarray(v, float, order="C")
            if v.ndim:
                dm = (hs * v.ndim)(*v.shape); s = H.H5Screate_simple(v.ndim, dm, None)
            else:
                s = H.H5Screate(0)
            d = H.H5Dcreate2(f, k.encode(), IEEE, s, 0, 0, 0)
            v = np.ascontiguousarray(v)
            H.H5Dwrite(d, DBL, 0, 0, 0, v.ctypes.data)
        H.H5Sclose(s); H.H5Dclose(d)
    g = H.H5Gopen2(f, b"/", 0)
    for k, v in (attrs or {}).items():
        if isinstance(v, str):
            b = v.encode() + b"\0"
            t = H.H5Tcopy(CS1); H.H5Tset_size(t, len(b)); s = H.H5Screate(0)
            a = H.H5Acreate2(g, k.encode(), t, s, 0, 0)
            H.H5Awrite(a, t, C.create_string_buffer(b)); H.H5Tclose(t)
        else:
            v = np.ascontiguousarray(np.asarray(v, float))
            dm = (hs * max(1, v.ndim))(*(v.shape or (1,))); s = H.H5Screate_simple(max(1, v.ndim), dm, None)
            a = H.H5Acreate2(g, k.encode(), IEEE, s, 0, 0)
            H.H5Awrite(a, DBL, v.ctypes.data)
        H.H5Sclose(s); H.H5Aclose(a)
    H.H5Gclose(g)
    H.H5Fclose(f)
