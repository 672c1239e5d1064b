"""Drivers: diagnostics."""
from neutralocean.stability import count_unstable, stabilize_ST


def count_unstable_fd(S, T, P, eos, vert_dim):
    return count_unstable(S, T, P, eos=eos, vert_dim=vert_dim)


def count_unstable_interp(S, T, P, interp_two, eos_s_t, vert_dim):
    return count_unstable(S, T, P, interp_two=interp_two, eos_s_t=eos_s_t, vert_dim=vert_dim)


def stabilize(S, T, P, eos, mingrad, weight, vert_dim, tol, method, verbose, options):
    stabilize_ST(S, T, P, eos, min_dLRPDdp=mingrad, weight=weight, vert_dim=vert_dim, tol=tol, method=method, verbose=verbose, options=options)
