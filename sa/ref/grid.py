"""Reference definitions: grids as graphs (analysed, never run)."""
import numpy as np
import xarray as xr
import xgcm
from scipy.sparse import coo_matrix, csr_matrix, find, triu, issparse
from scipy.linalg import issymmetric


# ---- graphs
def graph_binary_fcn(edges, nodevals, binary_fcn):
    """out[e] = f(value at the first node of e, value at its second node)"""
    a = edges[0]
    b = edges[1]
    v = nodevals.reshape(-1)
    out = np.empty(len(a), dtype=nodevals.dtype)
    for e in range(len(a)):
        out[e] = binary_fcn(v[a[e]], v[b[e]])
    return out


def edges_to_graph(edges, N=-1, weights=None):
    """symmetric sparse adjacency matrix with the weights (default 1)"""
    a, b = edges
    n = N if N >= 0 else 1 + max(np.max(a), np.max(b))
    w = np.ones(len(a), dtype=int) if weights is None else weights
    G = coo_matrix((w, edges), shape=(n, n))
    return csr_matrix(G + G.T)


def edges_to_csr(edges, N=-1):
    """for every node, its neighbours, as (indptr, indices); an edge is listed from both ends"""
    a, b = edges
    n = N if N >= 0 else 1 + max(np.max(a), np.max(b))
    deg = np.zeros(n, dtype=np.int_)
    for e in range(len(a)):
        deg[a[e]] = deg[a[e]] + 1
        deg[b[e]] = deg[b[e]] + 1
    ptr = np.empty(n + 1, dtype=np.int_)
    ptr[0] = 0
    for i in range(n):
        ptr[i + 1] = ptr[i] + deg[i]
    ind = np.empty(np.sum(deg), dtype=np.int_)
    pos = ptr.copy()
    for e in range(len(a)):
        ind[pos[a[e]]] = b[e]
        pos[a[e]] = pos[a[e]] + 1
        ind[pos[b[e]]] = a[e]
        pos[b[e]] = pos[b[e]] + 1
    return ptr, ind


def _sym(A):
    if issparse(A):
        return (A != A.T).nnz == 0
    return issymmetric(A)


def _sym_structure(A):
    if len(A.shape) != 2 or A.shape[0] != A.shape[1]:
        return False
    if issparse(A):
        return ((A != 0) != (A.T != 0)).nnz == 0
    return np.all((A == 0) == (A.T == 0))


def graph_build_grid(G):
    """each undirected edge once; its dist and distperp are the entries of the matrices"""
    if isinstance(G, dict):
        if "dist" not in G or "distperp" not in G:
            raise ValueError("need dist and distperp")
        D = triu(G["dist"]) if _sym(G["dist"]) else G["dist"]
        P = triu(G["distperp"]) if _sym(G["distperp"]) else G["distperp"]
        a, b, d = find(D)
        a2, b2, p = find(P)
        if not (np.array_equal(a, a2) and np.array_equal(b, b2)):
            raise ValueError("structures differ")
        return {"edges": (a, b), "dist": d, "distperp": p}
    if _sym_structure(G):
        G = triu(G)
    a, b, w = find(G)
    one = np.ones(len(a))
    return {"edges": (a, b), "dist": one, "distperp": one}


# ---- rectilinear: the neighbour of (i, j) is (i-1, j) and (i, j-1), wrapping where periodic
def rectilinear_build_grid(dims, periodic, dxC=1.0, dyC=1.0, dyG=1.0, dxG=1.0):
    assert len(dims) == 2
    assert len(periodic) == len(dims)
    ni, nj = dims
    idx = np.arange(ni * nj).reshape((ni, nj))
    n0 = ni * nj if periodic[0] else (ni - 1) * nj
    n1 = ni * nj if periodic[1] else ni * (nj - 1)
    a = np.empty(n0 + n1, dtype=int)
    b = np.empty(n0 + n1, dtype=int)
    if periodic[0]:
        a[:n0] = idx.reshape(-1)
        b[:n0] = np.roll(idx, 1, axis=0).reshape(-1)
    else:
        a[:n0] = idx[1:, :].reshape(-1)
        b[:n0] = idx[: ni - 1, :].reshape(-1)
    if periodic[1]:
        a[n0:] = idx.reshape(-1)
        b[n0:] = np.roll(idx, 1, axis=1).reshape(-1)
    else:
        a[n0:] = idx[:, 1:].reshape(-1)
        b[n0:] = idx[:, : nj - 1].reshape(-1)
    # distances live at the larger-index end of each edge: first those along dimension 0, then along dimension 1
    return {
        "edges": (a, b),
        "dist": _rect_data(dims, periodic, dxC, dyC),
        "distperp": _rect_data(dims, periodic, dyG, dxG),
    }


def _rect_data(dims, periodic, along0, along1):
    x = np.broadcast_to(along0, dims)
    y = np.broadcast_to(along1, dims)
    if not periodic[0]:
        x = x[1:, :]
    if not periodic[1]:
        y = y[:, 1:]
    return np.concatenate((x.reshape(-1), y.reshape(-1)))


def rectilinear_maps(edgedata, dims, periodic):
    ni, nj = dims
    F = np.full((ni, nj), np.nan)
    G = np.full((ni, nj), np.nan)
    if periodic[0]:
        n0 = ni * nj
        F[:, :] = edgedata[:n0].reshape((ni, nj))
    else:
        n0 = (ni - 1) * nj
        F[1:, :] = edgedata[:n0].reshape((ni - 1, nj))
    if periodic[1]:
        G[:, :] = edgedata[n0:].reshape((ni, nj))
    else:
        G[:, 1:] = edgedata[n0:].reshape((ni, nj - 1))
    return F, G


# ---- tripolar: (j, i) is next to (j+1, i) and (j, i+1); i wraps; the last row is folded onto itself, reversed
def tripolar_build_grid(dims, e1u=1.0, e2v=1.0, e2u=1.0, e1v=1.0):
    assert len(dims) == 2
    nj, ni = dims
    n = nj * ni
    idx = np.arange((nj + 1) * ni).reshape((nj + 1, ni))
    idx[-1, :] = np.flip(idx[-2, :])
    own = idx[0:-1, :]
    a = np.empty(2 * n, dtype=int)
    b = np.empty(2 * n, dtype=int)
    a[:n] = idx[:nj, :].reshape(-1)
    b[:n] = idx[1:, :].reshape(-1)
    a[n:] = own.reshape(-1)
    b[n:] = np.roll(own, -1, axis=1).reshape(-1)
    return {"edges": (a, b), "dist": _tri_data(dims, e2v, e1u), "distperp": _tri_data(dims, e1v, e2u)}


def _tri_data(dims, v, u):
    nj, ni = dims
    if np.shape(v) == (nj + 1, ni + 2):
        v = v[:-1, 1:-1]
    if np.shape(u) == (nj + 1, ni + 2):
        u = u[:-1, 1:-1]
    return np.concatenate((np.broadcast_to(v, dims).reshape(-1), np.broadcast_to(u, dims).reshape(-1)))


def tripolar_maps(edgedata, dims):
    nj, ni = dims
    return np.reshape(edgedata[: ni * nj], dims), np.reshape(edgedata[ni * nj :], dims)


# ---- xgcm
def xgcm_neighbours(n, face_connections, dims, xsh, ysh):
    tile = next(iter(face_connections.keys()))
    nf = len(next(iter(face_connections.values())))
    try:
        t = dims.index(tile)
    except:
        raise ValueError("tile dimension missing")
    if not (dims.__contains__("i") and dims.__contains__("j")):
        raise ValueError("need i and j")
    shape = [n, n, n]
    shape[t] = nf
    coords = {"i": np.arange(n), "j": np.arange(n), tile: np.arange(nf)}
    grid = xgcm.Grid(
        xr.Dataset(None, coords),
        periodic=False,
        face_connections=face_connections,
        coords={"X": {"center": "i", "left": "i", "right": "i"}, "Y": {"center": "j", "left": "j", "right": "j"}},
    )
    idx = xr.DataArray(np.arange(nf * n * n).reshape(shape), dims=dims, coords=coords)
    if xsh[0] == "l":
        im1 = _shift_left(grid, idx, "X")
    else:
        im1 = _shift_right(grid, idx, "X")
    if ysh[0] == "l":
        jm1 = _shift_left(grid, idx, "Y")
    else:
        jm1 = _shift_right(grid, idx, "Y")
    return im1.transpose(*idx.dims), jm1.transpose(*idx.dims)


def _shift_left(grid, idx, ax):
    return grid.apply_as_grid_ufunc(
        lambda a: a[:, :, 0:-1], idx, axis=[[ax]], signature="(ax1:center)->(ax1:center)", boundary_width={"ax1": (1, 0)}, boundary="fill", fill_value=-1
    )


def _shift_right(grid, idx, ax):
    return grid.apply_as_grid_ufunc(
        lambda a: a[:, :, 1:], idx, axis=[[ax]], signature="(ax1:center)->(ax1:center)", boundary_width={"ax1": (0, 1)}, boundary="fill", fill_value=-1
    )


def xgcm_build_grid(n, face_connections, dims, xsh, ysh, dxC=1.0, dyC=1.0, dyG=1.0, dxG=1.0):
    assert xsh[0] in ("l", "r")
    assert ysh[0] in ("l", "r")
    if hasattr(dxC, "dims") and hasattr(dyC, "dims") and hasattr(dyG, "dims") and hasattr(dxG, "dims"):
        assert dxC.dims == dyG.dims
        assert dyC.dims == dxG.dims
    dxC = _values(dxC)
    dyC = _values(dyC)
    dyG = _values(dyG)
    dxG = _values(dxG)
    im1, jm1 = xgcm_neighbours(n, face_connections, dims, xsh, ysh)
    N = im1.size
    a = np.tile(np.arange(N), 2)
    b = np.empty(N * 2, dtype=int)
    b[:N] = im1.values.reshape(-1)
    b[N:] = jm1.values.reshape(-1)
    d = np.empty(N * 2, dtype=float)
    d[:N] = np.broadcast_to(dxC, im1.shape).reshape(-1)
    d[N:] = np.broadcast_to(dyC, im1.shape).reshape(-1)
    p = np.empty(N * 2, dtype=float)
    p[:N] = np.broadcast_to(dyG, im1.shape).reshape(-1)
    p[N:] = np.broadcast_to(dxG, im1.shape).reshape(-1)
    ok = b >= 0
    return {"edges": (a[ok], b[ok]), "dist": d[ok], "distperp": p[ok]}


def _values(x):
    return x.values if hasattr(x, "values") else x


def xgcm_maps(edgedata, n, face_connections, dims, xsh, ysh):
    im1, jm1 = xgcm_neighbours(n, face_connections, dims, xsh, ysh)
    F = np.full(im1.size, np.nan)
    G = np.full(im1.size, np.nan)
    where = np.flatnonzero(im1 >= 0)
    F[where] = edgedata[: len(where)]
    G[np.flatnonzero(jm1 >= 0)] = edgedata[len(where) :]
    return np.reshape(F, im1.shape), np.reshape(G, im1.shape)
