"""Reference definition of the synthetic ocean (analysed, never run)."""
import numpy as np

SOUTH, NORTH, COLD, WARM, RADIUS = -80, 60, -1.8, 30.0, 6370000


def ocean(shape, pbot, SSSSa, zonally_uniform, wrap):
    ni, nj, nk = shape
    lon = np.linspace(-1, 1, ni).reshape((ni, 1, 1))
    lat = np.linspace(SOUTH, NORTH, nj).reshape((1, nj, 1))
    x = (lat + 7) / 41.14
    Ts = 0.6265 * x ** 5 + 3.269 * x ** 4 - 3.602 * x ** 3 - 18.93 * x ** 2 + 5.927 * x + 27.41
    Ss = 0.2221 * x ** 4 - 0.09487 * x ** 3 - 1.355 * x ** 2 - 0.126 * x + 35.59
    if zonally_uniform:
        Ts = np.tile(Ts, (ni, 1, 1))
        Ss = np.tile(Ss, (ni, 1, 1))
    else:
        Ts = Ts - 1.5 * lon
        Ss = Ss + (0.4 + 0.5 * lon - 0.8 * lon ** 2)
    Ts = (Ts - np.min(Ts)) / (np.max(Ts) - np.min(Ts)) * (WARM - COLD) + COLD
    Ss = Ss + np.linspace(SSSSa, 0, nj).reshape((1, nj, 1))
    Tb = np.linspace(0, 1, nj).reshape((1, nj, 1)) + (COLD - 0.1)
    Sb = np.linspace(34.7, 34.5, nj).reshape((1, nj, 1))
    depth = np.linspace(0, 1, nk).reshape((1, 1, nk))
    S = Ss + depth * (Sb - Ss)
    T = Ts + depth * (Tb - Ts)
    if not wrap[0]:
        S[0, :, :] = np.nan
        T[0, :, :] = np.nan
    if not wrap[1]:
        S[:, 0, :] = np.nan
        T[:, 0, :] = np.nan
    return S, T, pbot * np.linspace(0, 1, nk) ** 3


def geometry(shape):
    """cells of a uniform latitude-longitude grid on the sphere: edges, centres, lengths and areas"""
    ni, nj, nk = shape
    resx, resy, rad = ni / 360, nj / (NORTH - SOUTH), np.pi / 180
    xg = np.arange(ni) / resx
    yg = SOUTH + np.arange(nj) / resy
    xc = xg + 1 / (2 * resx)
    yc = yg + 1 / (2 * resy)
    zonal = RADIUS / resx * rad
    strip = RADIUS * zonal
    rac = strip * abs(np.sin((yg + 1 / resy) * rad) - np.sin(yg * rad))
    ras = strip * abs(np.sin(yc * rad) - np.sin((yc - 1 / resy) * rad))
    return (ni, nj, nk, RADIUS, resx, resy, xg, yg, xc, yc, zonal * np.cos(yg * rad), RADIUS * rad / resy, zonal * np.cos(yc * rad), RADIUS * rad / resy, rac, rac, ras, ras)
