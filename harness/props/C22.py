"""exponential_refinement_parameter: the geometric progression has the requested length."""
import math

from lib import need
from pymech.meshtools import exponential_refinement_parameter as erp

LEVEL = "exploration"
CASES = dict(quick=20000, thorough=500000)
RULE = "distinct (elements, decade of the ratio to a uniform spacing, side) progressions"
REQUIRED = dict(many_elements=200, progressions=10000, refined=2000, coarsened=2000, nearly_uniform=1000)


def case(ctx, rng):
    n = int(rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 10, 15, 20, 40, 100, int(rng.integers(2, 200))]))
    if rng.random() < 0.02:
        n = int(10.0 ** rng.uniform(2.3, 4.3))
    l0 = float(10.0 ** rng.uniform(-6, 4))
    k = int(rng.integers(0, 4))
    if k == 0:  # by alpha
        a = float(rng.choice([0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 0.99, 0.999, 1.0, 1.001, 1.01, 1.05, 1.1, 1.2, 1.5, 2.0, 3.0, 5.0]))
    elif k == 1:
        a = 1.0 + float(rng.choice([-1, 1])) * 10.0 ** (rng.uniform(-9, -2) if n <= 200 else rng.uniform(-12, -4))
    elif k == 2:
        a = float(rng.uniform(0.5, 2))
    else:
        a = math.exp(float(rng.standard_normal()) * 3.0 / n)
    if n > 1:
        # lengths that can be met with a progression of positive ratio, within 1e8 of the first element
        a = min(a, 10.0 ** (8.0 / (n - 1)))
    if n > 200:
        a = max(a, 10.0 ** (-8.0 / (n - 1)))
        ctx.ev("many_elements")
    s = math.fsum(a**i for i in range(n))
    ltot = l0 * s
    ctx.note(f"l0={l0!r} ltot={ltot!r} n={n} (made with ratio {a!r})")
    got = float(erp(l0, ltot, n))
    if n == 1:
        need(got == 1.0, f"one element: ratio {got}")
        ctx.ev("progressions")
        return
    need(got > 0 and math.isfinite(got), f"ratio {got}")
    length = l0 * math.fsum(got**i for i in range(n))
    need(abs(length - ltot) <= 1e-8 * ltot, lambda: f"n={n}, first element {l0!r}, total {ltot!r}: ratio {got!r} gives a total of {length!r}")
    ctx.ev("progressions")
    ctx.ev("refined", int(got < 0.9999))
    ctx.ev("coarsened", int(got > 1.0001))
    ctx.ev("nearly_uniform", int(abs(got - 1) < 1e-4))
    ctx.distinct(n, round(math.log10(abs(a - 1) + 1e-16)), a > 1)
