"""Reference definitions: breadth-first search and wetting (analysed, never run)."""
import numpy as np
from ref.pp import valid_range_1_two, ppval_1_two
from ref.traj import _ntp_bottle_to_cast, _ntp_bottle_to_cast_ppc


def bfs_conncomp1(indptr, indices, root, good):
    """nodes reachable from root through good nodes, in breadth-first order; each marked bad when reached"""
    queue = np.empty(len(good), dtype=np.int_)
    tail = -1
    head = -1
    if good[root]:
        tail = tail + 1
        queue[tail] = root
        good[root] = False
        while tail > head:
            head = head + 1
            m = queue[head]
            for n in indices[indptr[m] : indptr[m + 1]]:
                if good[n]:
                    tail = tail + 1
                    queue[tail] = n
                    good[n] = False
    return queue[0 : tail + 1]


def bfs_conncomp1_wet(s, t, p, indptr, indices, root, S, T, P, tol_p, eos, ppc_fn, p_ml):
    """as above over casts where p is finite; dry casts met on the way join when the neutral link from
    the cast that met them lands in their water below their mixed layer"""
    queue = np.empty(S.shape[0], dtype=np.int_)
    tail = -1
    head = -1
    newly_wet = 0
    good = np.isfinite(p)
    dry = ~good
    if good[root]:
        tail = tail + 1
        queue[tail] = root
        good[root] = False
        while tail > head:
            head = head + 1
            m = queue[head]
            for n in indices[indptr[m] : indptr[m + 1]]:
                if good[n]:
                    tail = tail + 1
                    queue[tail] = n
                    good[n] = False
                elif dry[n]:
                    k, K = valid_range_1_two(S[n], P[n])
                    if K - k <= 1:
                        dry[n] = False
                        continue
                    s_, t_, p_ = _ntp_bottle_to_cast(s[m], t[m], p[m], S[n], T[n], P[n], k, K, tol_p, eos, ppc_fn)
                    if np.isfinite(p_) and p_ > p_ml[n]:
                        tail = tail + 1
                        queue[tail] = n
                        dry[n] = False
                        newly_wet = newly_wet + 1
                        s[n] = s_
                        t[n] = t_
                        p[n] = p_
    return queue[0 : tail + 1], newly_wet


def bfs_conncomp1_wet_perim(s, t, p, indptr, indices, root, S, T, P, tol_p, eos, ppc_fn, p_ml, n_rep):
    good = np.isfinite(p)
    wet_adj = good.copy()
    N = len(good)
    queue = np.empty(N, dtype=np.int_)
    tail = -1
    head = -1
    hi = N - 1
    lo = N - 1
    newly_wet = 0
    if good[root]:
        tail = tail + 1
        queue[tail] = root
        good[root] = False
    while tail > head:
        head = head + 1
        m = queue[head]
        for n in indices[indptr[m] : indptr[m + 1]]:
            if good[n]:
                tail = tail + 1
                queue[tail] = n
                good[n] = False
            elif not wet_adj[n]:
                queue[lo] = n
                lo = lo - 1
                wet_adj[n] = True
    good[:] = False
    for i in range(tail + 1):
        good[queue[i]] = True
    p[~good] = np.nan
    rep = 0
    while hi > lo and rep < n_rep:
        rep = rep + 1
        for i in range(hi, lo, -1):
            m = queue[i]
            k, K = valid_range_1_two(S[m], P[m])
            if K - k > 1:
                Pm = P[m][k:K]
                Sppc = ppc_fn(Pm, S[m][k:K])
                Tppc = ppc_fn(Pm, T[m][k:K])
                neigh = indices[indptr[m] : indptr[m + 1]]
                p0 = 0.0
                denom = 0
                for n in neigh:
                    if np.isfinite(p[n]):
                        p_ = _ntp_bottle_to_cast_ppc(tol_p, s[n], t[n], p[n], Pm, Sppc, Tppc, eos)
                        if np.isfinite(p_) and p_ > p_ml[m]:
                            p0 = p0 + p_
                            denom = denom + 1
                if denom != 0:
                    newly_wet = newly_wet + 1
                    p[m] = p0 / denom
                    s[m], t[m] = ppval_1_two(p[m], Pm, Sppc, Tppc, 0)
                    for n in neigh:
                        if not wet_adj[n]:
                            queue[lo] = n
                            lo = lo - 1
                            wet_adj[n] = True
        hi = i - 1
    return newly_wet
