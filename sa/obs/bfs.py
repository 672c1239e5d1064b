from core import Ob, helper

B = "neutralocean.bfs."
TR = "neutralocean.traj."
helper("ntp_link", TR + "_ntp_bottle_to_cast", "ref.traj._ntp_bottle_to_cast", nout=3)
helper("ntp_link_ppc", TR + "_ntp_bottle_to_cast_ppc", "ref.traj._ntp_bottle_to_cast_ppc")
helper("bfs_conncomp1", B + "bfs_conncomp1", "ref.bfs.bfs_conncomp1")
G = dict(ndim={"good": 1, "S": 2, "T": 2, "P": 2, "s": 1, "t": 1, "p": 1, "p_ml": 1}, intarrays=["indptr", "indices"], ints=["root", "n_rep"])
OBS = [
    Ob("bfs", B + "bfs_conncomp1", "ref.bfs.bfs_conncomp1", what="breadth-first search over good nodes", **G),
    Ob("bfs-wet", B + "bfs_conncomp1_wet", "ref.bfs.bfs_conncomp1_wet", opaque=("ntp_link", "valid_range_1_two"), what="breadth-first search that wets dry casts by neutral links", **G),
    Ob("bfs-wet-perim", B + "bfs_conncomp1_wet_perim", "ref.bfs.bfs_conncomp1_wet_perim", opaque=("ntp_link_ppc", "valid_range_1_two", "ppval_1_two"), what="perimeter wetting", **G),
]
