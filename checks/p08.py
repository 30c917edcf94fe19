"""HEALPix pixel index <-> ring and position in ring."""
from symx.reg import add

P = 'P08'


def ringlen(n, i):
    if i < n:
        return 4 * i
    if i <= 3 * n:
        return 4 * n
    return 4 * (4 * n - i)


def ringstart(n, i):
    if i < n:
        return 2 * i * (i - 1)
    if i <= 3 * n:
        return 2 * n * (n - 1) + 4 * n * (i - n)
    k = 4 * n - i
    return 12 * n * n - 2 * k * (k + 1)


def forward(h, n, array=False, lo=0, hi=None, odd=False):
    """Any pixel: its ring and position, and back."""
    x = h.mod('magpie.pixel')
    p = h.int('p', lo, 12 * n * n - 1 if hi is None else hi)
    if odd:
        p = 2 * p + 1
    if array:
        q = h.int('q', 0, 12 * n * n - 1) if not odd else p - 10
        pp = h.arr([p, q], dtype=int)
        i, j = x.healpix_pix2ij(pp, n)
        back = x.healpix_ij2pix(i, j, n)
        h.check(len(i) == 2 and len(j) == 2 and len(back) == 2, 'one entry per pixel')
        h.eq(back[1], q, 'second pixel')
        h.eq(pp[0], p, 'input kept')
        i, j, back = i[0], j[0], back[0]
    else:
        i, j = x.healpix_pix2ij(p, n)
        back = x.healpix_ij2pix(i, j, n)
    h.eq(back, p, 'pixel back')
    h.ge(i, 1, 'ring>=1')
    h.le(i, 4 * n - 1, 'ring<=4n-1')
    h.ge(j, 1, 'position>=1')
    h.le(j, ringlen(n, i), 'position<=ring length')
    h.eq(ringstart(n, i) + j - 1, p, 'position in the ring')


for n in (1, 2, 3, 4, 5, 8, 16, 64):
    add(P, 'pixel-%d' % n, forward, dict(n=n), bounds='nside %d, every pixel' % n, budget=100)
for n in (7, 32, 128, 256, 1024):
    add(P, 'pixel-%d' % n, forward, dict(n=n), bounds='nside %d, every pixel' % n, budget=900, prove_tmo=200, tier='thorough')
for n in (1000, 4096):
    for nm, a, b in (('first', 0, 12), ('cap', 2 * n * (n - 1) - 3, 2 * n * (n - 1) + 3), ('belt', 2 * n * (n + 1) - 3, 2 * n * (n + 1) + 3), ('middle', 6 * n * n - 5, 6 * n * n + 5),
                     ('south', 10 * n * n + 2 * n - 5, 10 * n * n + 2 * n + 5), ('last', 12 * n * n - 13, 12 * n * n - 1)):
        add(P, 'pixel-%d-%s' % (n, nm), forward, dict(n=n, lo=a, hi=b), bounds='nside %d, pixels %d to %d' % (n, a, b), budget=60)
for n in (1, 2, 3, 16):
    add(P, 'pixel-array-%d' % n, forward, dict(n=n, array=True), bounds='nside %d, every pair of pixels' % n, budget=100)
# odd pixels beyond 2 ** 24, where single precision has even numbers only
for n, nm, a, b in ((4096, 'belt', 6 * 4096 ** 2, 6 * 4096 ** 2 + 8), (4096, 'cap', 2 * 4096 * 4095 - 12, 2 * 4096 * 4095 - 2), (4096, 'south', 12 * 4096 ** 2 - 30, 12 * 4096 ** 2 - 2), (8192, 'cap', 2 * 8192 * 8191 - 12, 2 * 8192 * 8191 - 2)):
    for arr in (False, True):
        add(P, 'odd-%d-%s%s' % (n, nm, '-array' if arr else ''), forward, dict(n=n, array=arr, lo=a // 2, hi=b // 2, odd=True), bounds='nside %d, odd pixels %d to %d' % (n, a, b), budget=60)
