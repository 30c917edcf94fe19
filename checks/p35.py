"""Progress output."""
import contextlib
import io
from symx.reg import add

P = 'P35'


def shown(fn):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        fn()
    return s.getvalue()


def line(h, text, i, n, kw):
    """Checks one call; i and n are numbers by now."""
    L = kw.get('bar_length', 50)
    done, undone = kw.get('marker_done', '#'), kw.get('marker_undone', '_')
    edge = kw.get('bar_edges', '|')
    left = kw['bar_edge_left'] if kw.get('bar_edge_left') is not None else edge
    right = kw['bar_edge_right'] if kw.get('bar_edge_right') is not None else edge
    last = i + 1 == n
    h.check(not last or text != '', 'the last call prints')
    h.check(text.endswith('\n') == last, 'the last call ends the line')
    for t in text.rstrip('\n').split('\r'):
        if not t:
            continue
        head = kw['explanation'] + ' : ' if kw.get('explanation') is not None else ''
        head += left
        h.check(t.startswith(head), 'explanation and left edge')
        t = t[len(head):]
        c = 0
        while t.startswith(done) and c < L:
            t = t[len(done):]
            c += 1
        h.check(t.startswith(undone * (L - c) + right), 'bar of the full length and right edge')
        t = t[len(undone * (L - c) + right):]
        # floating point may lose the last step of a fraction
        h.check(L * (i + 1) // n - 1 <= c <= L * (i + 1) // n, 'share of the bar that is done')
        h.check(not last or c == L, 'the last bar is full')
        t = t.split()
        h.check(len(t) == (2 if kw.get('indexing') else 1), 'percentage, and index when asked for')
        if not t:
            return
        h.check(t[0].endswith('%') and t[0][:-1].isdigit(), 'percentage')
        if t[0][:-1].isdigit():
            p = int(t[0][:-1])
            h.check(100 * (i + 1) // n - 1 <= p <= 100 * (i + 1) // n and (not last or p == 100), 'percentage done')
        if kw.get('indexing'):
            h.check(t[-1] == '[%d/%d]' % (i + 1, n), 'index')


def bar(h, lo, hi, kw):
    u = h.mod('magpie.utils')
    n = h.int('n', lo, hi)
    n = int(n)
    i = int(h.int('i%d' % n, 0, n - 1))
    line(h, shown(lambda: u.progress_bar(i, n, **kw)), i, n, kw)


def symbolic(h, n, kw):
    u = h.mod('magpie.utils')
    i = h.int('i', 0, n - 1)
    text = shown(lambda: u.progress_bar(i, n, **kw))
    line(h, text, int(i), n, kw)


K = {
    'plain': {},
    'index': dict(indexing=True, explanation='Remapping'),
    'short': dict(bar_length=7, num_refresh=3, explanation='x'),
    'markers': dict(marker_done='=', marker_undone='.', bar_edge_left='<', bar_edge_right='>', bar_length=20),
    'edges': dict(bar_edges='!', num_refresh=200, indexing=True),
}
for k, kw in K.items():
    add(P, 'bar-' + k, bar, dict(lo=1, hi=14, kw=kw), bounds='every call of loops of 1 to 14 steps, %s' % (kw,), budget=60, max_paths=400, max_enum=400)
for n, k in ((49, 'plain'), (50, 'index'), (51, 'short'), (75, 'markers'), (100, 'plain'), (101, 'edges'), (150, 'index'), (199, 'short')):
    add(P, 'loop-%d-%s' % (n, k), symbolic, dict(n=n, kw=K[k]), bounds='every call of a loop of %d steps, %s' % (n, K[k]), budget=100, max_paths=400, max_enum=400)


def verbose(h, what, kind):
    """The same results with and without messages."""
    from .p31 import KINDS, U, V, W, Y, use
    from fractions import Fraction
    if what == 'cube':
        h.fix_draws(lambda n: [V, Y, W][n % 3][(n // 3) % 7])
    else:
        h.fix_draws(lambda n: Fraction(*U[(n * 7 + n // 11) % len(U)]))
    if kind == 'montecarlo':
        h.distinct_pix()
    cls, A, B, shapes, make = KINDS[what](h, kind, False)
    s, p = shapes[2]
    f = make(h, 'f', s)
    H = cls()
    for b in B:
        b(H)
    size = 1 if what == 'cube' else 2
    plain = H.remap(f, verbose=False)
    text = []
    out = []
    text.append(shown(lambda: out.append(H.remap(f, verbose=True))))
    text.append(shown(lambda: out.append(H.remap(f))))
    for o in out:
        h.eq(o, plain, 'remap with messages')
    h.check(text[0] == text[1], 'messages by default')
    h.check(shown(lambda: H.remap(f, verbose=False)) == '', 'no messages when not wanted')
    if kind == 'montecarlo':
        n0 = len(h.draws())
        h.check(shown(lambda: H.get_weights(mc_size=size, verbose=False)) == '', 'no messages when not wanted')
        d = h.draws()[n0:]
        plain = H.remap(f, verbose=False)
        text = h.replay(d, lambda: shown(lambda: H.get_weights(mc_size=size)))
        h.eq(H.remap(f, verbose=False), plain, 'weights with messages')
        h.check('100%' in text and text.endswith('\n'), 'messages while the weights are made')


for what in ('box', 'cube', 'ring', 'lonlat', 'ortho'):
    for kind in ('densegrid', 'montecarlo'):
        if (what, kind) not in (('ortho', 'montecarlo'), ('cube', 'densegrid')):
            add(P, 'verbose-%s-%s' % (what, kind), verbose, dict(what=what, kind=kind), bounds='one set-up, any field', budget=60, max_draws=400)
