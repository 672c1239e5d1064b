from core import Ob, helper

F = "neutralocean.fzero."
helper("brent", F + "brent", "ref.fz.brent")
helper("guess_to_bounds", F + "guess_to_bounds", "ref.fz.guess_to_bounds", nout=2)
OBS = [
    Ob("brent", F + "brent", "ref.fz.brent", public=True, what="Brent's procedure zero: NaN without a sign change, the iterates, the stopping rule"),
    Ob("guess-to-bounds", F + "guess_to_bounds", "ref.fz.guess_to_bounds", ordered=[("A", "B")], public=True, what="bracketing: geometric search inside [A, B], NaN when no sign change is met"),
    Ob("brent-guess", F + "brent_guess", "ref.fz.brent_guess", opaque=("brent", "guess_to_bounds"), public=True, what="bracket, then solve in the bracket"),
]
