"""Arguments outside their range are refused; those on its ends are accepted."""
from fractions import Fraction
from symx.reg import add

P = 'P34'
U = [(2, 17), (3, 5), (5, 11), (7, 12), (1, 3), (10, 13), (6, 19)]


def A(lo, hi):
    return ('angle', lo, hi)


def R(lo, hi):
    return ('real', lo, hi)


def I(lo, hi):
    return ('int', lo, hi)


OUT = [A(-9, '-1/1000'), A('2001/1000', 9)]         # outside [0, 2 pi]
OUTP = [A(-9, '-1/1000'), A('1001/1000', 9)]        # outside [0, pi]
COUNT = [I(-4, 0)]
NEG = [R(-1000, '-1/1000')]
PI = lambda *a: ('pi',) + a
SHAPE = lambda *s: ('array', s)
LIST = lambda *v: ('list', v)


def value(h, v, name='x'):
    if not isinstance(v, tuple):
        return v
    k, a = v[0], v[1:]
    if k == 'angle':
        return h.angle(name, *a)
    if k == 'real':
        return h.real(name, h.q(a[0]), h.q(a[1]))
    if k == 'int':
        return h.int(name, *a)
    if k == 'pi':
        return h.pi * h.q(*a)
    if k == 'q':
        return h.q(*a)
    if k == 'array':
        n = 1
        for s in a[0]:
            n *= s
        return h.arr([h.q(i + 1, 7) for i in range(n)]).reshape(a[0])
    if k == 'list':
        return [value(h, x, name) for x in a[0]]
    if k == 'arr':
        return h.arr([value(h, x, name) for x in a[0]])
    raise KeyError(k)


# ---- what is called ---------------------------------------------------------

def fn(module, name):
    return lambda h, kw: getattr(h.mod(module), name)(**kw)


def method(module, cls, name, *before):
    def go(h, kw):
        o = getattr(h.mod(module), cls)()
        for n, args in before:
            getattr(o, n)(*[value(h, a) for a in args])
        return getattr(o, name)(**kw)
    return go


CASES = {}


def case(name, call, base, bad, edge=()):
    CASES[name] = call, base, bad, edge


for g in ('densegrid', 'montecarlo'):
    m = 'magpie.' + g
    box = ('setup_box', (0, 4, 3, 0, 3, 2))
    pol = dict(rmin=('q', 1, 2), rmax=2, numr=2, nump=3, pmin=PI(1, 4), pmax=PI(3, 2), center=LIST(2, 1))
    case(g + '-box', method(m, 'Box2Ring', 'setup_box'), dict(xmin=0, xmax=1, numx=2, ymin=0, ymax=1, numy=2), dict(numx=COUNT, numy=COUNT), [dict(numx=1), dict(numy=1)])
    bad = dict(rmin=NEG + [R(2, 1000)], rmax=[R(-9, '1/2')], numr=COUNT, nump=COUNT, pmin=[A(-9, '-1/1000'), A('3/2', 9)], pmax=[A(-9, '1/4'), A('2001/1000', 9)], center=[LIST(), LIST(1), LIST(1, 2, 3)])
    edge = [dict(rmin=0), dict(pmin=0), dict(pmax=PI(2)), dict(numr=1), dict(nump=1)]
    case(g + '-polar', method(m, 'Box2Ring', 'setup_polar' if g == 'densegrid' else 'setup_polar_lin', box), pol, bad, edge)
    cap = dict(alpha_min=PI(1, 8), alpha_max=PI(1, 2), num_alpha=2, num_beta=3, beta_min=PI(1, 4), beta_max=PI(3, 2), center=LIST(PI(1, 3), PI(1, 4)))
    case(g + '-cap', method(m, 'Heal2Ring', 'setup_polar_cap', ('setup_map', (4,))), cap,
         dict(alpha_min=[A(-9, '-1/1000'), A('1/2', 9)], alpha_max=[A(-9, '1/8')], num_alpha=COUNT, num_beta=COUNT, beta_min=[A(-9, '-1/1000'), A('3/2', 9)], beta_max=[A(-9, '1/4'), A('2001/1000', 9)],
              center=[LIST(), LIST(1), LIST(1, 2, 3)]),
         [dict(alpha_min=0), dict(alpha_max=PI(1)), dict(beta_min=0), dict(beta_max=PI(2)), dict(num_alpha=1), dict(num_beta=1)])
    lb = dict(x_length=PI(1, 2), x_grid=2, center=LIST(PI(1, 3), PI(1, 4)), y_length=PI(1, 3), y_grid=3)
    case(g + '-lonlat', method(m, 'Heal2Polar', 'setup_box', ('setup_map', (4,))), lb,
         dict(x_length=OUT, x_grid=COUNT, center=[LIST(), LIST(1), LIST(1, 2, 3)], y_length=OUTP, y_grid=COUNT),
         [dict(x_length=PI(2)), dict(y_length=PI(1)), dict(x_grid=1), dict(y_grid=1)])
    cube = ('setup_cube', (-2, 2, 2, -2, 2, 3, -2, 2, 2))
    case(g + '-cube', method(m, 'Cube2Shell', 'setup_cube'), dict(xmin=0, xmax=1, numx=2, ymin=0, ymax=1, numy=2, zmin=0, zmax=1, numz=2), dict(numx=COUNT, numy=COUNT, numz=COUNT), [dict(numx=1, numy=1, numz=1)])
    sh = dict(rmin=('q', 1, 2), rmax=2, numr=2, nside=1, center=LIST(0, 0, 0))
    bad = dict(rmin=NEG + [R(2, 1000)], rmax=[R(-9, '1/2')], numr=COUNT, center=[LIST(), LIST(1, 2), LIST(1, 2, 3, 4)])
    if g == 'densegrid':
        bad.update(rebin_shell=COUNT, rebin_r=COUNT, nside=COUNT)
    case(g + '-shells', method(m, 'Cube2Shell', 'setup_polar' if g == 'densegrid' else 'setup_polar_lin', cube), sh, bad, [dict(rmin=0), dict(numr=1)])
    for c in ('Heal2Ring', 'Heal2Polar') + (('Heal2Ortho',) if g == 'densegrid' else ()):
        case('%s-%s-map' % (g, c.lower()), method(m, c, 'setup_map'), dict(nside=4), dict(nside=COUNT), [dict(nside=1)])
    for c, pre, s in (('Box2Ring', (box, ('setup_polar' if g == 'densegrid' else 'setup_polar_lin', (1, 2, 2, 3))), (3, 2)),
                      ('Heal2Ring', (('setup_map', (4,)), ('setup_polar_cap', (0, PI(1, 3), 2, 3))), (3, 2))):
        other = [SHAPE(2, 2), SHAPE(3, 3), SHAPE(4, 2), SHAPE(6)]
        case('%s-%s-profile' % (g, c.lower()), method(m, c, 'polar2radial', *(pre + ((('get_weights', (2, False)),) if g == 'montecarlo' and c == 'Box2Ring' else ()))), dict(f_polar=SHAPE(*s), sigma=SHAPE(*s)), dict(f_polar=other, sigma=other))
        case('%s-%s-rotate' % (g, c.lower()), method(m, c, 'rotate_polar', *pre),
             {'f_polar': SHAPE(*s), ('phi_shift' if c == 'Box2Ring' else 'beta_shift'): PI(1, 2)},
             {'f_polar': other, ('phi_shift' if c == 'Box2Ring' else 'beta_shift'): [A(-9, '-1/1000'), A('2001/1000', 9)]})

m = 'magpie.montecarlo'
lg = dict(rmin=('q', 1, 2), rmax=2, numr=2, nump=3, pmin=PI(1, 4), pmax=PI(3, 2), center=LIST(2, 1))
case('log-polar', method(m, 'Box2Ring', 'setup_polar_log', box), lg,
     dict(rmin=[R(-1000, 0), R(2, 1000)], rmax=[R(-9, '1/2')], numr=COUNT, nump=COUNT, pmin=[A(-9, '-1/1000'), A('3/2', 9)], pmax=[A(-9, '1/4'), A('2001/1000', 9)], center=[LIST(), LIST(1), LIST(1, 2, 3)]),
     [dict(pmin=0), dict(pmax=PI(2)), dict(nump=1)])
case('log-shells', method(m, 'Cube2Shell', 'setup_polar_log', cube), dict(rmin=('q', 1, 2), rmax=2, numr=2, nside=1, center=LIST(0, 0, 0)),
     dict(rmin=[R(-1000, 0), R(2, 1000)], rmax=[R(-9, '1/2')], numr=COUNT, center=[LIST(), LIST(1, 2), LIST(1, 2, 3, 4)]))
case('ortho', method('magpie.densegrid', 'Heal2Ortho', 'setup_box', ('setup_map', (4,))), dict(x_length=1, x_grid=2, center=LIST(PI(1, 3), PI(1, 4))), dict(x_grid=COUNT, center=[LIST(), LIST(1), LIST(1, 2, 3)]))
POINTS = {'Box2Ring': (box, ('setup_polar_lin', (1, 2, 1, 1))), 'Heal2Ring': (('setup_map', (4,)), ('setup_polar_cap', (0, PI(1, 3), 1, 1))), 'Heal2Polar': (('setup_map', (4,)), ('setup_box', (PI(1, 3), 1)))}
for c, pre in POINTS.items():
    case('points-' + c.lower(), method(m, c, 'get_weights', *pre), dict(mc_size=2, verbose=False), dict(mc_size=[I(-4, 1)]))
for c in ('Heal2Ring', 'Heal2Polar'):
    case('map-' + c.lower(), method(m, c, 'remap', *(POINTS[c] + (('get_weights', (2, False)),))), dict(f=SHAPE(192), w=SHAPE(192), verbose=False),
         dict(f=[SHAPE(191), SHAPE(48), SHAPE(768), SHAPE(4)], w=[SHAPE(191), SHAPE(48), SHAPE(768), SHAPE(4)]))
case('field-box2ring', method(m, 'Box2Ring', 'remap', *(POINTS['Box2Ring'] + (('get_weights', (2, False)),))), dict(f=SHAPE(2, 3), w=SHAPE(2, 3), verbose=False),
     dict(f=[SHAPE(3, 2), SHAPE(2, 4), SHAPE(6)], w=[SHAPE(3, 2), SHAPE(2, 4), SHAPE(6)]))

p = 'magpie.coords'
case('rotate-polar', fn(p, 'rotate_polar'), dict(phi=('arr', (0, PI(1, 2))), rotate=PI(1, 3)), dict(rotate=OUT))
case('rotate-grid', fn(p, 'rotate_polar_grid'), dict(pedges=('arr', (0, PI(1), PI(2))), f_polar=SHAPE(2, 2), phi_shift=PI(1, 3)), dict(phi_shift=OUT))
case('rotate', fn(p, 'usphere_rotate'), dict(phi=PI(1), theta=PI(1, 3), phi_end=PI(1, 2), theta_end=PI(1, 4), phi_start=PI(1, 3), theta_start=PI(1, 3)),
     dict(phi_end=OUT, theta_end=OUTP, phi_start=OUT, theta_start=OUTP), [dict(phi_end=PI(2)), dict(phi_start=0), dict(theta_end=0), dict(theta_start=PI(1))])
case('phi-shift', fn(p, 'usphere_phi_shift'), dict(phi=PI(1), dphi=PI(1, 3)), dict(dphi=[A(-9, '-2001/1000'), A('2001/1000', 9)]), [dict(dphi=PI(2)), dict(dphi=PI(-2))])
case('shift', fn(p, 'usphere_shift'), dict(phi=PI(1), theta=PI(1, 3), phi_start=PI(1, 3), theta_start=PI(1, 3), phi_end=PI(1, 2), theta_end=PI(1, 4)),
     dict(phi_end=OUT, theta_end=OUTP, phi_start=OUT, theta_start=OUTP), [dict(phi_end=PI(2)), dict(phi_start=0), dict(theta_end=PI(1)), dict(theta_start=0)])
case('spin', fn(p, 'usphere_spin'), dict(phi=PI(1), theta=PI(1, 3), phi_center=PI(1, 3), theta_center=PI(1, 3), alpha=PI(1, 2)), dict(phi_center=OUT, theta_center=OUTP, alpha=OUT),
     [dict(phi_center=PI(2)), dict(theta_center=0), dict(alpha=PI(2)), dict(alpha=0)])
case('area', fn(p, 'usphere_area'), dict(phi_min=PI(1, 4), phi_max=PI(3, 2), theta_min=PI(1, 4), theta_max=PI(1, 2)),
     dict(phi_min=OUT + [PI(3, 2)], phi_max=OUT + [PI(1, 4)], theta_min=OUTP + [PI(1, 2)], theta_max=OUTP + [PI(1, 4)]), [dict(phi_min=0), dict(phi_max=PI(2)), dict(theta_min=0), dict(theta_max=PI(1))])
o = 'magpie.one_d'
case('rebin', fn(o, 'rebin_1d'), dict(bin_edges=('arr', (0, 1, 2)), data=('arr', (3, 4)), new_bin_edges=('arr', (0, ('q', 1, 2), 2)), w=('arr', (1, 2)), sigma=('arr', (1, 1))),
     dict(bin_edges=[('arr', (0, 1, R(-9, '999/1000'))), ('arr', (R('1001/1000', 9), 1, 2)), ('arr', (0, 1)), ('arr', (0, 1, 2, 3))], data=[('arr', (1,)), ('arr', (1, 2, 3))],
          new_bin_edges=[('arr', (0, ('q', 1, 2), R(-9, '499/1000'))), ('arr', (R('501/1000', 9), ('q', 1, 2), 2))], w=[('arr', (1,)), ('arr', (1, 2, 3))], sigma=[('arr', (1,)), ('arr', (1, 2, 3))]))


def check(h, name):
    call, base, bad, edge = CASES[name]
    h.fix_draws(lambda k: Fraction(*U[k * 5 % 7]))
    if name.startswith('map-'):
        h.distinct_pix()
    n = 0
    for arg, l in bad.items():
        for b in l:
            n += 1
            kw = {a: value(h, v) for a, v in base.items() if a != arg}
            kw[arg] = value(h, b, 'x%d' % n)
            h.raises(lambda: call(h, kw), (Exception,), '%s of %s outside its range is refused' % (arg, name))
    if name.startswith('map-'):
        return
    for e in [{}] + list(edge):
        kw = {a: value(h, v) for a, v in dict(base, **e).items()}
        try:
            call(h, kw)
        except (AssertionError, ValueError, TypeError, IndexError, AttributeError):
            h.fail('ends of the ranges of %s are accepted' % name)
        else:
            h.check(True, 'ends of the ranges of %s are accepted' % name)


for name, (call, base, bad, edge) in CASES.items():
    add(P, name, check, dict(name=name), bounds='refused: %s; accepted: %s and %s' % (bad, base, edge), budget=60, max_draws=800)
