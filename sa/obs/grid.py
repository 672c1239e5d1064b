from core import Ob, helper

G = "neutralocean.grid."
helper("xgcm_neighbours", G + "xgcm._build_im1_jm1", "ref.grid.xgcm_neighbours")
OBS = [
    Ob("graph-binary", G + "graph.graph_binary_fcn", "ref.grid.graph_binary_fcn", public=True, what="binary function of the two end nodes of every edge, in edge order", intarrays=["edges"]),
    Ob("edges-to-graph", G + "graph.edges_to_graph", "ref.grid.edges_to_graph", public=True, what="symmetric adjacency matrix with the given weights", free=True, ints=["N"]),
    Ob("edges-to-csr", G + "graph.edges_to_csr", "ref.grid.edges_to_csr", public=True, what="adjacency lists of all nodes, every edge from both ends", free=True, ints=["N"], intarrays=["edges"]),
    Ob("graph-build", G + "graph.build_grid", "ref.grid.graph_build_grid", public=True, what="graph given as matrices: each edge once, with its own distances"),
    Ob("rect-build", G + "rectilinear.build_grid", "ref.grid.rectilinear_build_grid", public=True, what="rectilinear grid: edges join neighbours, wrap where periodic, distances belong to their edges", free=True, ints=["dims"]),
    Ob("rect-maps", G + "rectilinear.edgedata_to_maps", "ref.grid.rectilinear_maps", public=True, what="edge data back to 2D maps, inverse of the edge order", ints=["dims"]),
    Ob("tri-build", G + "tripolar.build_grid", "ref.grid.tripolar_build_grid", public=True, what="tripolar grid: cyclic in i, last row folded onto itself reversed, distances belong to their edges", free=True, ints=["dims"]),
    Ob("tri-maps", G + "tripolar.edgedata_to_maps", "ref.grid.tripolar_maps", public=True, what="edge data back to 2D maps", ints=["dims"]),
    Ob("xgcm-neighbours", G + "xgcm._build_im1_jm1", "ref.grid.xgcm_neighbours", what="neighbour of each node in the i and j direction, -1 where there is none"),
    Ob("xgcm-build", G + "xgcm.build_grid", "ref.grid.xgcm_build_grid", public=True, opaque=("xgcm_neighbours",), what="multi-face grid: one edge for each existing neighbour, with its own distances", free=True),
    Ob("xgcm-maps", G + "xgcm.edgedata_to_maps", "ref.grid.xgcm_maps", public=True, opaque=("xgcm_neighbours",), what="edge data back to maps, NaN where there is no edge"),
]
