"""Parts of the package that obligations about whole modules are divided into."""
MODULES = ["bfs", "eos", "fzero", "grid", "label", "lib", "mixed_layer", "ntp", "ppinterp", "stability", "surface", "synthocean", "traj"]


def part(m):
    """the obligation a module belongs to"""
    s = m.split(".")
    return s[1] if len(s) > 1 and s[1] in MODULES else "others"
