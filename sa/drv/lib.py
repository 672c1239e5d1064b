"""Drivers: array helpers."""
from neutralocean.grid.tools import divergence as _divergence


def divergence(vector, a, b, distperp, area):
    return _divergence(vector, (a, b), distperp, area)
