"""Reference definitions: array helpers and input preparation (analysed, never run)."""
import numpy as np
import xarray as xr
from neutralocean.eos.tools import make_eos, make_eos_s_t


def first_nan(a):
    """index of the first NaN along the middle dimension, its length when there is none"""
    I, J, K = a.shape
    out = np.full((I, K), J, dtype=np.int64)
    for i in range(I):
        for k in range(K):
            for j in range(J):
                if np.isnan(a[i, j, k]):
                    out[i, k] = j
                    break
    return out


def find_first_nan(a, axis=-1):
    m = axis % a.ndim
    before, after = a.shape[:m], a.shape[m + 1 :]
    b = np.reshape(a, (np.prod(before, dtype=int), a.shape[m], np.prod(after, dtype=int)))
    return np.reshape(first_nan(b), (*before, *after))


def take_fill(a, idx, fillval=np.nan):
    """a[idx], and fillval where idx is negative"""
    n = idx.size
    out = np.empty(n, dtype=a.dtype)
    flat = a.reshape(-1)
    for i in range(n):
        out[i] = flat[idx[i]] if idx[i] >= 0 else fillval
    return out


def aggsum(a, idx, n):
    """out[k] = sum of a[i] over i with idx[i] == k; negative idx are ignored"""
    out = np.zeros(n, dtype=a.dtype)
    for i in range(len(idx)):
        k = idx[i]
        if k >= 0:
            out[k] = out[k] + a[i]
    return out


def val_at(T, k):
    if isinstance(k, int) or T.ndim == 1:
        r = np.array(T[..., k])
    elif T.ndim == k.ndim + 1:
        r = np.take_along_axis(T, k[..., None], -1).squeeze(-1)
    else:
        raise ValueError("dimensions do not match")
    r[k < 0] = np.nan
    return r


def xr_to_np(S):
    return S.values if hasattr(S, "values") else S


def xr_in(S, vert_dim):
    if not isinstance(S, xr.core.dataarray.DataArray):
        return None
    if vert_dim is None:
        return xr.full_like(S, 0)
    if isinstance(vert_dim, int):
        name = S.dims[vert_dim]
    else:
        name = vert_dim
    return xr.full_like(S.isel({name: 0}, drop=True), 0)


def xr_out(s, sxr):
    if not isinstance(sxr, xr.core.dataarray.DataArray):
        return s
    sxr.data = s
    return sxr


def xrs_in(S, T, P, vert_dim):
    a = xr_in(S, vert_dim)
    b = xr_in(T, vert_dim)
    if a is None:
        c = None
    else:
        c = a.copy()
        try:
            c.attrs.update(P.attrs)
            c.name = P.name
        except:
            c.attrs.clear()
            c.name = None
    return a, b, c


def process_vert_dim(vert_dim, S):
    if isinstance(vert_dim, str) and hasattr(S, "dims"):
        try:
            v = S.dims.index(vert_dim)
        except:
            raise ValueError("no such dimension")
    else:
        v = vert_dim
    return np.mod(v, S.ndim)


def contiguous(S, vert_dim=-1):
    if S.ndim > 1 and vert_dim != -1 and vert_dim != S.ndim - 1:
        S = np.moveaxis(S, vert_dim, -1)
    return np.require(S, dtype=np.float64, requirements="C")


def process_casts(S, T, P, vert_dim):
    """plain float64 arrays with the vertical dimension last; a P with fewer dimensions runs along the vertical"""
    v = process_vert_dim(vert_dim, S)
    S = xr_to_np(S)
    T = xr_to_np(T)
    P = xr_to_np(P)
    if P.ndim < S.ndim:
        P = np.broadcast_to(np.reshape(P, tuple(-1 if d == v else 1 for d in range(S.ndim))), S.shape)
    return contiguous(S, v), contiguous(T, v), contiguous(P, v)


def interp_casts(S, T, P, interp_fn, Sppc=None, Tppc=None):
    ni, nj, nk = S.shape
    if Sppc is None or Sppc.shape[0:-1] != (ni, nj, nk - 1):
        Sppc = interp_fn(P, S)
    if Tppc is None or Tppc.shape[0:-1] != (ni, nj, nk - 1):
        Tppc = interp_fn(P, T)
    return Sppc, Tppc


def process_pin_cast(pin_cast, S):
    if isinstance(pin_cast, dict):
        return tuple(int(S.get_index(k).searchsorted(pin_cast[k])) for k in S.dims if k in pin_cast)
    if isinstance(pin_cast, int):
        return (pin_cast,)
    return pin_cast


def process_eos(eos, grav=None, rho_c=None, need_s_t=False):
    if isinstance(eos, str):
        if need_s_t:
            d = make_eos_s_t(eos, grav, rho_c)
        else:
            d = None
        return make_eos(eos, grav, rho_c), d
    if need_s_t:
        f, d = eos, None
        if isinstance(eos, (tuple, list)) and len(eos) == 2:
            f, d = eos[0], eos[1]
        if not (callable(f) and callable(d)):
            raise ValueError("need two functions")
        return f, d
    f = eos
    if isinstance(eos, (tuple, list)) and len(eos) >= 1:
        f = eos[0]
    if not callable(f):
        raise ValueError("need a function")
    return f, None


def divergence(vector, a, b, distperp, area):
    n = max(max(a), max(b)) + 1
    e = vector * distperp
    return (aggsum(e, a, n) - aggsum(e, b, n)) / area
