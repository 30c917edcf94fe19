"""rebin_1d: propagated errors and single-bin weights."""
from symx.reg import add
from .p03 import sigma, weights, B

P = 'P04'
for n, m in [(1, 1), (2, 1), (3, 1)]:
    add(P, 'sigma-%d-%d' % (n, m), sigma, dict(n=n, m=m), bounds=B % (n, m), budget=120)
add(P, 'sigma-4-1', sigma, dict(n=4, m=1), bounds=B % (4, 1), budget=200, tier='thorough')
for n in (1, 2, 3, 4):
    add(P, 'weights-%d' % n, weights, dict(n=n), bounds='%d old bins of any widths, one new bin' % n, budget=60)
add(P, 'sigma-3-2', sigma, dict(n=3, m=2), bounds=B % (3, 2), budget=300, tier='thorough')
