"""Drivers: the synthetic ocean."""
from neutralocean.synthocean import synthocean


def ocean(shape, pbot, SSSSa, zonally_uniform, wrap):
    S, T, P, g = synthocean(shape, pbot, SSSSa, zonally_uniform, wrap)
    return S, T, P


def geometry(shape):
    S, T, P, g = synthocean(shape, 4000.0, 0.3, True, (True, True))
    return (g["nx"], g["ny"], g["nz"], g["rSphere"], g["resx"], g["resy"], g["XGvec"], g["YGvec"], g["XCvec"], g["YCvec"], g["DXGvec"], g["DYGsc"], g["DXCvec"], g["DYCsc"],
            g["RACvec"], g["RAWvec"], g["RASvec"], g["RAZvec"])
