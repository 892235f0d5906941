import numpy as np

from ..core import ND, C, N, NS, O, Spec, no

PHI = [0.2, 0.05, 0.35, 0.01, 0.28]
D = [250.0, 100.0, 1.0, 2.5e-4, 500]


def p(name, params, ref, **k):
    Spec("Permeability." + name, "C18", params, ref, **k)


phi = N("phi", PHI + [0.0, 0.7], 0.0, 0.97)
d = N("d", D, 1e-7, 20000)
p("Kozeny_Carman", [phi, d], lambda f, d: (d * f / (1 - f)) ** 2 * f / 180)
p("Kozeny_Carman_Percolation", [N("phi", PHI + [0.0, 0.7], 0.0, 0.97), N("phic", [0.03, 0.0, 0.02, 0.05, 0.3], 0, 0.4), d, N("B", [5.0, 1.0, 15.0, 1 / 180], 1e-4, 500)],
  lambda f, c, d, b: b * (f - c) * ((f - c) * d / (1 - (f - c))) ** 2, atol=1e-22, rtol=1e-9)
_swi = N("Swi", [0.3, 0.05, 0.5, 1.0, 0.2], 0.002, 1)
p("Owolabi", [N("phi", PHI + [0.0, 0.8], 0, 1), _swi], lambda f, s: (307 + f * f * (26552 - 34540 * s * s), 30.7 + f * f * (2655 - 3454 * s * s)))
p("Perm_logs", [N("phi", PHI + [0.0, 0.8], 0, 1), _swi], lambda f, s: ((250 * f ** 3 / s) ** 2, 1e4 * np.power(f, 4.5) / (s * s), (100 * f * f * (1 / s - 1)) ** 2, 352 * (f / s) ** 4), atol=1e-18)
p("Panda_Lake", [d, N("C", [0.3, 0.0, 1.0, 0.85], 0, 5), N("S", [1.0, 0.0, -0.5, 2.0], -3, 8), N("tau", [2.5, 1.0, 3.0], 0.5, 30), phi],
  lambda d, c, s, t, f: f / (72 * t) * (d * f * (1 + 3 * c * c + s * c ** 3) / ((1 - f) * (1 + c * c))) ** 2)
p("Panda_Lake_cem", [phi, d], lambda f, d: 3.34 * f * (d * f / (1 - f)) ** 2)
p("Revil", [phi, d], lambda f, d: 125 / 3 * d * d * f ** 4 * np.sqrt(f))
p("Fredrich", [N("phi", PHI + [0.7], 1e-4, 0.97), d, N("b", [2.0, 3.0, 2.5, 2], 0.2, 20)], lambda f, d, b: f ** 3 * (d / (1 - f)) ** 2 / (90 * b))
p("Bloch", [N("S", [1.5, 1.0, 2.0, 3.0], 0.5, 12), N("C", [80.0, 0.5, 100.0, 60], 0, 100), N("D", [0.25, 0.1, 1.0, 0.5], 0.0, 6)],
  lambda s, c, d: (-6.1 + 9.8 / s + 0.17 * c, np.exp(np.log(10) * (-4.67 + 1.34 * d + 4.08 / s + 0.0342 * c))), atol=1e-12)
p("Bernabe", [N("phi", PHI + [0.0, 0.8], 0, 1), N("crf", [0.2, 0.0, 1.0, 0.5], 0, 1), N("w", [1.0, 0.2, 5.0, 0.0], 0.0, 500), N("r", [10.0, 2.0, 50.0, 0.0], 0.0, 1000)],
  lambda f, c, w, r: f * (c * w * w / 30 + (1 - c) * r * r / 20))
