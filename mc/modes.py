"""How the kernels are executed by each check.

jit:  compiled by numba, as a user gets them.
pure: the very same functions run by the interpreter (numba's decorators are
      replaced by the identity), for properties that do not concern compiled
      code; saves the compilation of the kernels.
"""
MODES = {p: "pure" for p in (
    "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P16")}
