"""Parameter vectors close to, but not at, the values where the families degenerate or change their formula."""
import math

from mc import dist as M
from mc.engine import Space

SPECIAL = (                # parameter vectors at which the code changes its formula, and the coordinate to move
    ("triangular", (0.0,), 0), ("cardioid", (1.0, 0.0), 1), ("wrapnorm", (1.0, 1e-9), 1), ("wrapcauchy", (1.0, 1e-9), 1), ("vonmises", (1.0, 1e-9), 1),
    ("vonmises_flattopped", (1.0, 2.0, 0.0), 2), ("vonmises_flattopped", (1.0, 0.0, 0.3), 1),
    ("jonespewsey", (1.0, 2.0, 0.0), 2), ("jonespewsey", (1.0, 0.0, 0.5), 1), ("jonespewsey", (1.0, 2.0, 1.0), 2), ("jonespewsey", (1.0, 2.0, -1.0), 2),
    ("jonespewsey_sineskewed", (1.0, 2.0, 0.0, 0.3), 2), ("jonespewsey_sineskewed", (1.0, 0.0, 0.5, 0.3), 1), ("jonespewsey_sineskewed", (1.0, 2.0, 0.5, 0.0), 3),
    ("jonespewsey_asym", (1.0, 2.0, 0.0, 0.3), 2), ("jonespewsey_asym", (1.0, 0.0, 0.5, 0.3), 1), ("jonespewsey_asym", (1.0, 2.0, 0.5, 0.0), 3),
    ("inverse_batschelet", (1.0, 2.0, 0.3, 0.0), 3), ("inverse_batschelet", (1.0, 2.0, 0.0, 0.3), 2), ("inverse_batschelet", (1.0, 0.0, 0.2, 0.3), 1),
    ("wrapstable", (1.0, 1.0, 0.4, 0.6), 1), ("wrapstable", (1.0, 1.0, 0.0, 0.6), 1), ("wrapstable", (1.0, 1.5, 0.0, 0.6), 2),
    ("katojones", (1.0, 0.4, 0.2, 0.0), 3), ("katojones", (1.0, 0.0, 0.0, 0.3), 1), ("katojones", (1.0, 0.4, 0.0, 0.3), 2),
)
ENDS = (                   # upper or other ends of the parameter ranges, approached from inside
    ("triangular", (M.PI2,), 0), ("cardioid", (1.0, 0.5), 1), ("vonmises_flattopped", (1.0, 2.0, 1.0), 2), ("vonmises_flattopped", (1.0, 2.0, -1.0), 2),
    ("jonespewsey_sineskewed", (1.0, 2.0, 0.5, 1.0), 3), ("jonespewsey_sineskewed", (1.0, 2.0, 0.5, -1.0), 3),
    ("inverse_batschelet", (1.0, 2.0, 0.3, 1.0), 3), ("inverse_batschelet", (1.0, 2.0, 0.3, -1.0), 3), ("wrapstable", (1.0, 2.0, 0.4, 0.6), 1),
    ("wrapstable", (1.0, 1.5, 1.0, 0.6), 2), ("wrapstable", (1.0, 1.5, -1.0, 0.6), 2), ("cartwright", (1.0, 1.0), 1),
)
STEPS = (3e-2, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6)
NOTE = f"{len(SPECIAL) + len(ENDS)} special parameter vectors (limits of families, branch points of formulas, ends of ranges) x steps of 3e-2 .. 1e-6 to either side"


class Limits(Space):
    """one state per parameter vector; subclasses compare one functional with the documented density"""
    name = "limits"
    chunk = 4
    max_depth = 0
    steps = STEPS

    def roots(self, tier):
        for name, base, i in SPECIAL + ENDS:
            D = M.BY[name]
            for e in self.steps if tier == "thorough" or name not in M.SLOW else self.steps[::2]:
                for sg in (1, -1):
                    b = base[:i] + (base[i] + sg * e,) + base[i + 1:]
                    mu, par = (b[0], b[1:]) if D.loc else (0.0, b)
                    if bool(D.obj._argcheck(*b)):
                        yield (name, mu, par)


TABLE = {"vonmises_flattopped": 1e-4, "inverse_batschelet": 1e-3, "jonespewsey_asym": 3e-6}      # resolution of the interpolated inverse / distribution tables


def tol(name, fn):
    if fn == "pdf":
        return 1e-4 if name == "inverse_batschelet" else 1e-9
    if fn == "moment":
        return 1e-4 if name == "inverse_batschelet" else 1e-6 if name in ("triangular", "cartwright") else 1e-8
    return TABLE.get(name, 1e-8) * (2 if fn == "ppf" else 1)
