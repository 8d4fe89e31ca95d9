from symx.harness import Scenario  # noqa: F401
from symx.lib import *  # noqa: F401,F403
from symx import sym as S  # noqa: F401
import doubleml as dml  # noqa: F401
import numpy as np  # noqa: F401


def linear(h, m, r, i, psia, psib, tag):
    """score elements and the point estimate of repetition r, treatment i"""
    h.eq(m.psi_elements["psi_a"][:, r, i], psia, tag + " psi_a")
    h.eq(m.psi_elements["psi_b"][:, r, i], psib, tag + " psi_b")
    th = -mean(psib) / mean(psia)
    h.eq(m.all_coef[i, r], th, tag + " estimate")
    h.eq(m.psi[:, r, i], h.arr(psia) * th + h.arr(psib), tag + " score")
    return th


BIN = {4: [[0, 1, 1, 0], [1, 0, 0, 1]], 5: [[0, 1, 1, 0, 1]], 6: [[0, 1, 1, 0, 1, 0], [1, 0, 0, 1, 1, 1]],
       8: [[0, 1, 1, 0, 1, 0, 0, 1]]}
