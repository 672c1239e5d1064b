from core import Ob

OBS = [
    Ob("synthetic-ocean", "drv.syn.ocean", "ref.syn.ocean", ints=["shape"], what="profiles, salinity tilt, zonal structure, pressures from 0 to pbot, walls where not periodic"),
    Ob("synthetic-grid", "drv.syn.geometry", "ref.syn.geometry", ints=["shape"], what="lengths and areas of a latitude-longitude grid on the sphere"),
]
