"""C13: a temporal series keeps every field attached to its time."""
import numpy as np
from IMTreatment.core import (ScalarField, VectorField, TemporalScalarFields, TemporalVectorFields, Points)
from IMTreatment.utils import make_unit
from vh.core import scenario, Skip
from vh import gen as G

RULE = ('Random temporal scalar and vector series (1 to 8 fields, irregular times, per-field masks, random units), '
        'random sequences of series operations, per-field operations and time look-ups.')
ASSUMPTIONS = ['reference: a list of (time in seconds, snapshot of the field) pairs; per-field operations are compared '
               'with the same operation of the single-field class (decided by C05-C10)']


def comps(f):
    return ['values'] if isinstance(f, ScalarField) else ['comp_x', 'comp_y']


def struct(m, t, sig='series'):
    n = len(t.fields)
    m.check(len(t.times) == n and len(t) == n, sig + '-count', lambda: '%d times %d fields' % (len(t.times), n))
    m.check(np.all(np.diff(t.times) >= 0), sig + '-times-sorted', lambda: t.times)
    for f in t.fields:
        m.check(np.array_equal(f.axe_x, t.axe_x) and np.array_equal(f.axe_y, t.axe_y), sig + '-axes-shared',
                lambda: '%s vs %s' % (f.axe_x, t.axe_x))
        m.check(G.si_or_str(f.unit_x) == G.si_or_str(t.unit_x) and G.si_or_str(f.unit_y) == G.si_or_str(t.unit_y),
                sig + '-units-shared')
        m.check(G.si_or_str(f.unit_values) == G.si_or_str(t.unit_values), sig + '-value-unit-shared')


def compare(m, t, model, sig, rtol=1e-9, exact=False):
    """model: list of (SI time, field)."""
    struct(m, t)
    if not m.check(len(t.fields) == len(model), sig + '-count', lambda: '%d want %d' % (len(t.fields), len(model))):
        return False
    ft = G.fac(t.unit_times)
    ok = m.close(np.asarray(t.times)*ft, [e[0] for e in model], sig + '-times', rtol=1e-8, atol=1e-8)
    for f, (tm, g) in zip(t.fields, model):
        d = G.diff(G.snap(f), G.snap(g), exact=exact, rtol=rtol)
        ok = m.check(d is None, sig + '-fields', d) and ok
    return ok


@scenario('C13', 400, 10000)
def history(m):
    rng = m.rng
    kind = G.pick(rng, ['s', 'v'])
    cls = TemporalScalarFields if kind == 's' else TemporalVectorFields
    mk = G.sf if kind == 's' else G.vf
    sh = G.shape(rng, 2, 6)
    axes = G.axis(rng, sh[0]), G.axis(rng, sh[1])
    units = G.unit_lv(rng)
    t = cls()
    model = []
    for step in range(int(rng.integers(3, 12))):
        op = G.pick(rng, ['add', 'add', 'add', 'remove', 'cropt', 'cropi', 'cropx', 'unit', 'scalet', 'copy', 'mul',
                          'refuse'])
        if not model:
            op = 'add'
        m.event('op:' + op)
        m.case(op)
        if op == 'add':
            f = mk(rng, axes=axes, units=units)
            ut = G.pick(rng, G.TIM)
            if not model:
                t = cls()
            tm = float(rng.uniform(-5, 5)) if rng.random() < .7 else float(rng.integers(-3, 4))
            tsi = tm*G.fac(make_unit(ut))
            if any(abs(tsi - e[0]) < 1e-6*max(1, abs(tsi)) for e in model):
                continue
            ref = f.copy()
            if rng.random() < .5:
                t.add_field(f, time=tm, unit_times=ut)
            else:
                t.add_field(f, tm, make_unit(ut))
            # later changes of the given field do not reach the series
            for c in comps(f):
                getattr(f, c)[0, 0] = 123.
            model.append((tsi, ref))
        elif op == 'refuse':
            s = G.snap(t)
            bad = G.pick(rng, ['type', 'axes', 'time'])
            f = mk(rng, axes=axes, units=units)
            if bad == 'type':
                f = (G.vf if kind == 's' else G.sf)(rng, axes=axes, units=units)
            if bad == 'axes':
                f = mk(rng, axes=(axes[0] + 1.7, axes[1]), units=units)
            tm = 'a' if bad == 'time' else 77.7
            ut = 's'
            m.raises(lambda: t.add_field(f, time=tm, unit_times=ut), 'wrong-field-accepted#' + bad)
            m.check(G.diff(G.snap(t), s) is None, 'refused-field-changed-the-series',
                    lambda: '%s %s' % (bad, G.diff(G.snap(t), s)))
            if G.diff(G.snap(t), s) is not None:
                return
        elif op == 'remove':
            k = int(rng.integers(1, len(model) + 1)) if rng.random() < .4 else 1
            ind = [int(i) for i in rng.choice(len(model), size=k, replace=False)]
            t.remove_fields(ind if k > 1 or rng.random() < .5 else ind[0])
            model = [e for i, e in enumerate(model) if i not in ind]
        elif op in ('cropt', 'cropi'):
            i = int(rng.integers(len(model)))
            j = int(rng.integers(i, len(model)))
            inp = rng.random() < .5
            if op == 'cropi':
                iv = [i, j]
            else:
                T = np.asarray(t.times)
                lo = T[i] if rng.random() < .5 else (T[i] - (T[i] - T[i-1])*.4 if i else T[i] - 1.)
                hi = T[j] if rng.random() < .5 else (T[j] + (T[j+1] - T[j])*.4 if j < len(T) - 1 else T[j] + 1.)
                iv = [float(lo), float(hi)]
            r = t.crop(intervt=iv, ind=op == 'cropi', inplace=inp)
            t = t if inp else r
            model = model[i:j + 1]
        elif op == 'cropx':
            ax = model[0][1].axe_x
            i = int(rng.integers(len(ax)))
            j = int(rng.integers(i, len(ax)))
            inp = rng.random() < .5
            r = t.crop(intervx=[float(ax[i]), float(ax[j])], inplace=inp)
            t = t if inp else r
            model = [(tm, f.crop(intervx=[float(ax[i]), float(ax[j])])) for tm, f in model]
            axes = model[0][1].axe_x.copy(), axes[1]
        elif op == 'unit':
            t.change_unit('time', G.pick(rng, G.TIM))
        elif op == 'scalet':
            s = float(rng.choice([2., .5, -1.]))
            inp = rng.random() < .5
            r = t.scale(scalet=s, inplace=inp)
            t = t if inp else r
            model = [(tm*s, f) for tm, f in model]
        elif op == 'mul':
            s = float(rng.choice([2., .5, -1.]))
            t = t*s
            model = [(tm, f*s) for tm, f in model]
        else:
            t = t.copy()
        model.sort(key=lambda e: e[0])
        if not model:
            m.check(len(t) == 0 and len(t.times) == 0, 'emptied-series')
            continue
        if not compare(m, t, model, op):
            return
        its = list(t)
        m.check(len(its) == len(model) and all(a == b and c is d for (a, c), b, d in zip(its, t.times, t.fields)),
                'iteration-pairs')


@scenario('C13', 400, 12000)
def per_field(m):
    """A series operation is the operation on each field, with the times kept."""
    rng = m.rng
    t = G.tf(rng, lo=1, hi=5, nlo=3, nhi=7, uniform=True if rng.random() < .7 else None)
    ax, ay = t.axe_x, t.axe_y
    n = len(t)
    isv = isinstance(t, TemporalVectorFields)

    def iv(a):
        i = int(rng.integers(len(a)))
        j = int(rng.integers(i, len(a)))
        return [float(a[i]), float(a[j])]
    ops = ['crop', 'cropind', 'rotate', 'extend', 'scale', 'smooth', 'fill', 'unit', 'origin', 'reduce', 'mirror']
    op = G.pick(rng, ops)
    inp = rng.random() < .5
    k = {}
    if op == 'crop':
        name, k = 'crop', dict(intervx=iv(ax), intervy=iv(ay))
    elif op == 'cropind':
        name = 'crop'
        i, j = int(rng.integers(len(ax) - 1)), int(rng.integers(len(ay) - 1))
        k = dict(intervx=[i, int(rng.integers(i, len(ax)))], intervy=[j, int(rng.integers(j, len(ay)))], ind=True)
    elif op == 'rotate':
        name, k = 'rotate', dict(angle=int(rng.integers(-4, 5))*90)
    elif op == 'extend':
        name, k = 'extend', {q: int(rng.integers(0, 3)) for q in ('nmb_left', 'nmb_right', 'nmb_up', 'nmb_down')}
    elif op == 'scale':
        name = 'scale'
        for q in ('scalex', 'scaley', 'scalev'):
            if rng.random() < .7:
                k[q] = G.pick(rng, [2., -1., .3, make_unit('m')*2., make_unit('s')*-3.])
    elif op == 'smooth':
        t = G.tf(rng, lo=1, hi=4, maskkind='none')
        n = len(t)
        isv = isinstance(t, TemporalVectorFields)
        name, k = 'smooth', dict(tos=G.pick(rng, ['uniform', 'gaussian']), size=int(rng.integers(1, 4)))
    elif op == 'fill':
        name, k = 'fill', dict(kind=G.pick(rng, ['value', 'nearest']))
    elif op == 'reduce':
        name, k = 'reduce_spatial_resolution', dict(fact=2)
        if len(ax) < 4 or len(ay) < 4 or not np.allclose(np.diff(ax), ax[1]-ax[0]) or \
                not np.allclose(np.diff(ay), ay[1] - ay[0]):
            raise Skip
    elif op == 'mirror':
        t = G.tf(rng, lo=1, hi=4, maskkind='none', uniform=True)
        isv = isinstance(t, TemporalVectorFields)
        d = G.pick(rng, ['x', 'y'])
        a = t.axe_x if d == 'x' else t.axe_y
        name, k = 'mirroring', dict(direction=d, position=float(a[0] if rng.random() < .5 else a[-1]))
        if isv:
            k['inds_to_mirror'] = G.pick(rng, [1, 2, 'all'])
    elif op == 'unit':
        name = 'change_unit'
        axe = G.pick(rng, ['x', 'y', 'values'])
        u = dict(x=t.unit_x, y=t.unit_y, values=t.unit_values)[axe]
        us = u.strUnit()[1:-1]
        k = dict(axe=axe, new_unit=G.pick(rng, G.family_of(us)))
        inp = True
    else:
        name, k = 'set_origin', dict(x=float(rng.normal()), y=float(rng.normal()))
        inp = True
    m.case(G.tdesc(t), name, k, 'inplace' if inp else '')
    m.event('op:' + op)
    before = G.snap(t)
    model = []
    for tm, f in zip(t.times, t.fields):
        g = f.copy()
        if name in ('change_unit', 'set_origin'):
            getattr(g, name)(**k)
        else:
            g = getattr(g, name)(inplace=False, **k)
        model.append((tm*G.fac(t.unit_times), g))
    if name in ('change_unit', 'set_origin'):
        getattr(t, name)(**k)
    elif inp:
        getattr(t, name)(inplace=True, **k)
    else:
        r = getattr(t, name)(inplace=False, **k)
        m.check(G.diff(G.snap(t), before) is None, 'series-operation-touched-the-original')
        t = r
    compare(m, t, model, 'per-field-' + op)


@scenario('C13', 400, 12000)
def arithmetic(m):
    rng = m.rng
    kind = G.pick(rng, ['s', 'v'])
    t = G.tf(rng, kind=kind, lo=1, hi=5, units=('mm', 'mm', 'm/s'))
    op = G.pick(rng, ['num+', 'num*', 'num/', 'neg', 'unum*', 'unum/', 'unum+', 'field+', 'field-', 'field/',
                      'series+', 'series-', 'series*', 'series/', 'pow', 'other-times'])
    m.case(G.tdesc(t), op)
    m.event('op:' + op)
    fields = list(t.fields)
    c = float(rng.choice([2., -1.5, .25]))
    mkf = G.sf if kind == 's' else G.vf
    g = mkf(rng, axes=(t.axe_x, t.axe_y), units=('mm', 'mm', G.pick(rng, ['m/s', 'mm/s'])))
    o = type(t)()
    for tm in t.times:
        o.add_field(mkf(rng, axes=(t.axe_x, t.axe_y), units=('mm', 'mm', 'm/s')), time=float(tm),
                    unit_times=t.unit_times)
    snap = G.snap(t), G.snap(o), G.snap(g)
    ur = make_unit('mm/s')*c
    if op == 'num+':
        r, w = t + c, [f + c for f in fields]
    elif op == 'num*':
        r, w = (t*c if rng.random() < .5 else c*t), [f*c for f in fields]
    elif op == 'num/':
        r, w = t/c, [f/c for f in fields]
    elif op == 'neg':
        r, w = -t, [-f for f in fields]
    elif op == 'unum*':
        r, w = t*ur, [f*ur for f in fields]
    elif op == 'unum/':
        r, w = t/ur, [f/ur for f in fields]
    elif op == 'unum+':
        r, w = t + ur, [f + ur for f in fields]
    elif op == 'field+':
        r, w = t + g, [f + g for f in fields]
    elif op == 'field-':
        r, w = t - g, [f - g for f in fields]
    elif op == 'field/':
        if kind == 'v':
            raise Skip
        r, w = t/g, [f/g for f in fields]
    elif op == 'series+':
        r, w = t + o, [f + h for f, h in zip(fields, o.fields)]
    elif op == 'series-':
        r, w = t - o, [f - h for f, h in zip(fields, o.fields)]
    elif op == 'series*':
        if kind == 'v':
            raise Skip
        r, w = t*o, [f*h for f, h in zip(fields, o.fields)]
    elif op == 'series/':
        if kind == 'v':
            raise Skip
        r, w = t/o, [f/h for f, h in zip(fields, o.fields)]
    elif op == 'pow':
        r, w = t**2, [f**2 for f in fields]
    else:
        # series at other times are merged
        o2 = o.copy()
        o2.times = np.asarray(o.times) + (np.ptp(o.times) + 1.)*.37
        r = t + o2
        ft = G.fac(t.unit_times)
        ml = sorted([(a*ft, b) for a, b in zip(t.times, t.fields)] + [(a*ft, b) for a, b in zip(o2.times, o2.fields)],
                    key=lambda e: e[0])
        T = [e[0] for e in ml]
        if len(T) > 1 and np.min(np.diff(T)) < 1e-9*np.ptp(T):
            raise Skip
        compare(m, r, ml, 'arith-merge')
        return
    m.check((G.snap(t), G.snap(o), G.snap(g)) is not None and
            all(G.diff(a, b) is None for a, b in zip((G.snap(t), G.snap(o), G.snap(g)), snap)),
            'series-arithmetic-touched-an-operand')
    compare(m, r, [(tm*G.fac(t.unit_times), f) for tm, f in zip(t.times, w)], 'arith-' + op)


@scenario('C13', 300, 8000)
def arrays(m):
    """Stacked arrays and component series."""
    rng = m.rng
    t = G.tf(rng, lo=1, hi=5)
    m.case(G.tdesc(t))
    F = t.fields
    if isinstance(t, TemporalScalarFields):
        m.close(t.values, [f.values for f in F], 'stack-values')
        subs = [('values_as_sf', [f for f in F])]
    else:
        m.close(t.Vx, [f.comp_x for f in F], 'stack-Vx')
        m.close(t.Vy, [f.comp_y for f in F], 'stack-Vy')
        m.close(t.magnitude, [np.hypot(f.comp_x, f.comp_y) for f in F], 'stack-magnitude')
        m.close(t.theta, [f.theta for f in F], 'stack-theta')
        subs = [('Vx_as_sf', [f.comp_x_as_sf for f in F]), ('Vy_as_sf', [f.comp_y_as_sf for f in F]),
                ('magnitude_as_sf', [f.magnitude_as_sf for f in F])]
    m.check(np.array_equal(t.mask, [f.mask for f in F]), 'stack-mask')
    m.check(np.array_equal(t.mask_cum, np.all([f.mask for f in F], axis=0)), 'stack-mask-cum')
    mc = t.mask_cum_as_sf
    m.check(np.array_equal(mc.values.astype(bool), t.mask_cum), 'stack-mask-cum-field')
    m.check(np.array_equal(mc.axe_x, t.axe_x) and np.array_equal(mc.axe_y, t.axe_y), 'stack-mask-cum-axes')
    m.check(G.si(mc.unit_x) == G.si(t.unit_x) and G.si(mc.unit_y) == G.si(t.unit_y), 'stack-mask-cum-units')
    for name, fs in subs:
        s = getattr(t, name)
        m.check(isinstance(s, TemporalScalarFields), 'component-series-type')
        compare(m, s, [(tm*G.fac(t.unit_times), f) for tm, f in zip(t.times, fs)], 'component-series-' + name)
    m.check(len(t) == len(F) and t[0] is F[0], 'indexing')
    if len(t) > 1:
        m.close(t.dt, t.times[1] - t.times[0], 'dt')


@scenario('C13', 400, 12000)
def time_profile(m):
    rng = m.rng
    t = G.tf(rng, lo=1, hi=8)
    cs = comps(t.fields[0])
    c = G.pick(rng, cs)
    i, j = int(rng.integers(len(t.axe_x))), int(rng.integers(len(t.axe_y)))
    vals = np.array([getattr(f, c)[i, j] for f in t.fields])
    mk = np.array([f.mask[i, j] for f in t.fields])
    T = np.asarray(t.times)
    mode = G.pick(rng, ['ind', 'coord', 'near', 'moving'])
    m.case(G.tdesc(t), mode, i, j, c)
    m.event('mode:' + mode)
    keep = np.ones(len(T), dtype=bool)
    k = {}
    if len(T) > 1 and rng.random() < .4:
        a = int(rng.integers(len(T) - 1))
        b = int(rng.integers(a + 1, len(T)))
        k['wanted_times'] = [float(T[a]), float(T[b])]
        keep = (T >= T[a]) & (T <= T[b])
    if mode == 'ind':
        p = t.get_time_profile(c, [i, j], ind=True, **k)
    elif mode == 'coord':
        p = t.get_time_profile(c, [float(t.axe_x[i]), float(t.axe_y[j])], **k)
    elif mode == 'near':
        def near(ax, q):
            lo = ax[q] - (ax[q] - ax[q - 1])*.4 if q else ax[q]
            hi = ax[q] + (ax[q + 1] - ax[q])*.4 if q < len(ax) - 1 else ax[q]
            return float(rng.uniform(lo, hi)) if hi > lo else float(lo)
        p = t.get_time_profile(c, [near(t.axe_x, i), near(t.axe_y, j)], **k)
    else:
        n = int(rng.integers(1, len(T) + 1))
        sel = rng.permutation(len(T))[:n]
        ii = rng.integers(0, len(t.axe_x), n)
        jj = rng.integers(0, len(t.axe_y), n)
        pt = Points(np.array([t.axe_x[ii], t.axe_y[jj]]).T, v=T[sel], unit_x=t.unit_x, unit_y=t.unit_y,
                    unit_v=t.unit_times)
        pos = {int(s): (a, b) for s, a, b in zip(sel, ii, jj)}
        p = t.get_time_profile(c, pt, **k)
        vals = np.array([getattr(f, c)[pos.get(q, (0, 0))] for q, f in enumerate(t.fields)])
        mk = np.array([f.mask[pos.get(q, (0, 0))] for q, f in enumerate(t.fields)])
        keep &= np.array([q in pos for q in range(len(T))])
    if not keep.any():
        m.check(len(p.x) == 0, 'time-profile-empty')
        return
    m.close(p.x, T[keep], 'time-profile-times')
    m.check(np.array_equal(np.asarray(p.mask, dtype=bool), mk[keep]), 'time-profile-mask',
            lambda: '%s want %s' % (p.mask, mk[keep]))
    ok = ~mk[keep]
    m.close(np.asarray(p.y)[ok], vals[keep][ok], 'time-profile-values')
    m.check(G.si_or_str(p.unit_x) == G.si_or_str(t.unit_times) and
            G.si_or_str(p.unit_y) == G.si_or_str(t.unit_values), 'time-profile-units')
    m.raises(lambda: t.get_time_profile(c, [len(t.axe_x), 0], ind=True), 'time-profile-out-of-field-accepted')
    m.raises(lambda: t.get_time_profile(c, [float(t.axe_x[-1]) + 1., float(t.axe_y[0])]),
             'time-profile-out-of-field-accepted')


@scenario('C13', 400, 10000)
def interpolated(m):
    rng = m.rng
    t = G.tf(rng, lo=2, hi=6)
    T = np.asarray(t.times)
    i = int(rng.integers(len(T) - 1))
    a = float(rng.uniform(.01, .99)) if rng.random() < .7 else float(rng.integers(0, 2))
    tm = float(T[i]*(1 - a) + T[i + 1]*a) if 0 < a < 1 else float(T[i + int(a)])
    m.case(G.tdesc(t), 'at', tm)
    s = G.snap(t)
    f = t.get_interpolated_field(tm)
    m.check(G.diff(G.snap(t), s) is None, 'interpolation-touched-the-series')
    f0, f1 = t.fields[i], t.fields[i + 1]
    if a == 0:
        mk = f0.mask
    elif a == 1:
        mk = f1.mask
    else:
        mk = f0.mask | f1.mask
    m.check(np.array_equal(f.mask, mk), 'interpolated-mask', lambda: '%s want %s' % (f.mask*1, mk*1))
    for c in comps(f0):
        v0, v1 = np.where(mk, np.nan, getattr(f0, c)), np.where(mk, np.nan, getattr(f1, c))
        w = v0 if a == 0 else (v1 if a == 1 else v0*(1 - a) + v1*a)
        m.close(np.where(mk, np.nan, getattr(f, c)), w, 'interpolated-values', rtol=1e-6, atol=1e-8)
    m.close(f.axe_x, t.axe_x, 'interpolated-axes')
    m.check(G.si_or_str(f.unit_values) == G.si_or_str(t.unit_values), 'interpolated-unit')
    m.raises(lambda: t.get_interpolated_field(float(T[-1] + 1.)), 'interpolation-outside-times-accepted')
    m.raises(lambda: t.get_interpolated_field(float(T[0] - 1.)), 'interpolation-outside-times-accepted')
    # augmented series
    k = int(rng.integers(1, 4))
    if rng.random() < .5:
        r = t.augment_temporal_resolution(fact=k)
    else:
        r = t.copy()
        r.augment_temporal_resolution(fact=k, inplace=True)
    want = [np.linspace(T[q], T[q + 1], k + 1)[:-1] for q in range(len(T) - 1)]
    want = np.append(np.concatenate(want), T[-1])
    m.close(r.times, want, 'augmented-times')
    struct(m, r)
    m.check(G.si_or_str(r.unit_times) == G.si_or_str(t.unit_times), 'augmented-time-unit')
    for q in range(len(T)):
        d = G.diff(G.snap(r.fields[q*k]), G.snap(t.fields[q]), exact=False)
        m.check(d is None, 'augmented-keeps-given-instants', d)
    if k > 1:
        for q in range(len(T) - 1):
            for z in range(1, k):
                g = r.fields[q*k + z]
                mk = t.fields[q].mask | t.fields[q + 1].mask
                m.check(np.array_equal(g.mask, mk), 'augmented-mask')
                for c in comps(f0):
                    w = getattr(t.fields[q], c)*(1 - z/k) + getattr(t.fields[q + 1], c)*z/k
                    m.close(np.where(mk, np.nan, getattr(g, c)), np.where(mk, np.nan, w), 'augmented-values',
                            rtol=1e-6, atol=1e-8)


@scenario('C13', 300, 8000)
def reduced(m):
    rng = m.rng
    t = G.tf(rng, lo=2, hi=8)
    n = len(t)
    k = int(rng.integers(1, n))
    mean = rng.random() < .6
    m.case(G.tdesc(t), 'reduce', k, mean)
    s = G.snap(t)
    if rng.random() < .5:
        r = t.reduce_temporal_resolution(k, mean=mean)
        m.check(G.diff(G.snap(t), s) is None, 'reduction-touched-the-series')
    else:
        r = t.copy()
        r2 = r.reduce_temporal_resolution(k, mean=mean, inplace=True)
        if k == 1:
            r = r2 if r2 is not None else r
    groups = [range(i, i + k) for i in range(0, n - k + 1, k)]
    struct(m, r)
    if not m.check(len(r) == len(groups), 'reduced-count', lambda: '%d want %d' % (len(r), len(groups))):
        return
    T = np.asarray(t.times)
    m.close(r.times, [np.mean(T[list(g)]) if mean else T[g[0]] for g in groups], 'reduced-times')
    m.check(G.si_or_str(r.unit_times) == G.si_or_str(t.unit_times), 'reduced-time-unit')
    for f, g in zip(r.fields, groups):
        fs = [t.fields[q] for q in (g if mean else [g[0]])]
        mk = np.any([q.mask for q in fs], axis=0)
        m.check(np.array_equal(f.mask, mk), 'reduced-mask')
        for c in comps(f):
            w = np.mean([getattr(q, c) for q in fs], axis=0)
            m.close(np.where(mk, np.nan, getattr(f, c)), np.where(mk, np.nan, w), 'reduced-values')
    m.raises(lambda: t.reduce_temporal_resolution(n + 1), 'reduction-over-too-many-accepted')
    m.raises(lambda: t.reduce_temporal_resolution(0), 'reduction-by-zero-accepted')


@scenario('C13', 150, 4000)
def series_maps(m):
    """Recurrence map, injected profile, spectra."""
    rng = m.rng
    t = G.tf(rng, lo=3, hi=6, maskkind='none', tuniform=True, units=('mm', 'mm', 'm/s'), ut='s')
    m.case(G.tdesc(t))
    n = len(t)
    q = int(rng.integers(1, 4))
    r = t.get_recurrence_map(norm=q)
    cs = comps(t.fields[0])
    nv = t.shape[0]*t.shape[1]*len(cs)
    want = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            d = np.concatenate([(getattr(t.fields[a], c) - getattr(t.fields[b], c)).ravel() for c in cs])
            want[a, b] = np.sum(np.abs(d)**q)**(1./q)/nv
    m.close(r.values, want, 'recurrence-map')
    m.close(r.axe_x, t.times, 'recurrence-times')
    m.close(r.axe_y, t.times, 'recurrence-times')
    m.check(G.si(r.unit_x) == G.si(r.unit_y) == G.si(t.unit_times), 'recurrence-time-unit')
    m.check(G.si(r.unit_values) == G.si(t.unit_values), 'recurrence-unit')
    bw = int(rng.integers(0, n))
    r2 = t.get_recurrence_map(norm=q, bandwidth=bw)
    far = np.abs(np.subtract.outer(np.arange(n), np.arange(n))) > bw
    m.check(np.array_equal(r2.mask, far), 'recurrence-bandwidth')
    m.close(r2.values[~far], want[~far], 'recurrence-bandwidth')
    r3 = t.get_recurrence_map(norm=q, normalized=True)
    mean = [np.mean([getattr(f, c) for f in t.fields], axis=0) for c in cs]
    den = np.sum(np.sqrt(np.sum(np.square(mean), axis=0))**q)**(1./q)/nv
    m.close(r3.values, want/den, 'recurrence-normalized')
    m.check(G.dim(r3.unit_values) == {}, 'recurrence-normalized-unit')
    # spectrum at a point is the spectrum of the time profile
    c = G.pick(rng, cs)
    i, j = int(rng.integers(t.shape[0])), int(rng.integers(t.shape[1]))
    s = t.get_temporal_spectrum(c, [i, j], ind=True)
    w = t.get_time_profile(c, [i, j], ind=True).get_spectrum()
    m.close(s.y, w.y, 'point-spectrum')
    m.close(s.x, w.x, 'point-spectrum-frequencies')
    i2, j2 = int(rng.integers(i, t.shape[0])), int(rng.integers(j, t.shape[1]))
    s = t.get_temporal_spectrum_over_area(c, [i, i2], [j, j2], ind=True)
    ys = [t.get_time_profile(c, [a, b], ind=True).get_spectrum().y for a in range(i, i2 + 1) for b in range(j, j2 + 1)]
    m.close(s.y, np.mean(ys, axis=0), 'area-spectrum')
    # inject a profile
    from IMTreatment.core import Profile
    t2 = t.copy()
    y = rng.normal(size=n)
    t2.inject_time_profile(c, [i, j], Profile(t.times, y, unit_x='s', unit_y='m/s'), ind=True)
    m.close(t2.get_time_profile(c, [i, j], ind=True).y, y, 'injected-values')
    for a, b in zip(t2.fields, t.fields):
        for cc in cs:
            d = getattr(a, cc) != getattr(b, cc)
            if cc == c:
                d[i, j] = False
            m.check(not d.any(), 'injection-changed-another-sample')
    if isinstance(t, TemporalVectorFields):
        p = t.get_time_auto_correlation()
        f0 = t.fields[0]
        den = np.mean(f0.comp_x**2 + f0.comp_y**2)
        m.close(p.y, [np.mean(f0.comp_x*f.comp_x + f0.comp_y*f.comp_y)/den for f in t.fields], 'autocorrelation')
        m.close(p.x, t.times, 'autocorrelation-times')


@scenario('C13', 120, 3000)
def series_more(m):
    """Areas given by coordinates, profiles injected along a path, weird fields, even grids."""
    from IMTreatment.core import Profile, Points
    rng = m.rng
    t = G.tf(rng, lo=5, hi=8, nlo=4, nhi=8, maskkind='none', tuniform=True, units=('mm', 'mm', 'm/s'), ut='s')
    m.case(G.tdesc(t), 'more')
    n, cs = len(t), comps(t.fields[0])
    c = G.pick(rng, cs)
    # samples of the closed intervals
    iv, ins = [], []
    for ax in (t.axe_x, t.axe_y):
        while True:
            a, b = sorted(float(v) for v in rng.uniform(ax[0], ax[-1], 2))
            if rng.random() < .4:
                a = float(ax[int(rng.integers(0, len(ax) - 1))])
            if rng.random() < .4:
                b = float(ax[int(rng.integers(1, len(ax)))])
            k = np.where((ax >= a) & (ax <= b))[0]
            if len(k):
                break
        iv.append([a, b])
        ins.append(k)
    s = t.get_temporal_spectrum_over_area(c, iv[0], iv[1])
    ys = [t.get_time_profile(c, [int(a), int(b)], ind=True).get_spectrum().y for a in ins[0] for b in ins[1]]
    m.close(s.y, np.mean(ys, axis=0), 'area-spectrum-by-coordinates', detail=lambda: '%s' % iv)
    i, j = int(rng.integers(t.shape[0])), int(rng.integers(t.shape[1]))
    s1 = t.get_temporal_spectrum(c, [float(t.axe_x[i]), float(t.axe_y[j])])
    m.close(s1.y, t.get_time_profile(c, [i, j], ind=True).get_spectrum().y, 'point-spectrum-by-coordinates')
    # along a path: the instants of the path only, each at its place
    on = rng.random(n) < .7
    on[0] = True
    ix, iy = rng.integers(0, t.shape[0], n), rng.integers(0, t.shape[1], n)
    perm = rng.permutation(int(on.sum()))
    xy = np.array([[t.axe_x[a], t.axe_y[b]] for a, b in zip(ix[on], iy[on])])
    path = Points(xy[perm], v=t.times[on][perm], unit_x='mm', unit_y='mm', unit_v='s')
    y = rng.normal(size=n)
    t2 = t.copy()
    t2.inject_time_profile(c, path, Profile(t.times, y, unit_x='s', unit_y='m/s'))
    for k in range(n):
        w = np.array(getattr(t.fields[k], c))
        if on[k]:
            w[ix[k], iy[k]] = y[k]
        m.close(getattr(t2.fields[k], c), w, 'injected-along-a-path')
    g = t2.get_time_profile(c, path)
    m.close(g.x, t.times[on], 'path-profile-times')
    m.close(g.y, y[on], 'path-profile-values')
    # even grid: each field on its own
    u = t.copy()
    if all(int(np.ptp(ax)/np.min(np.diff(ax))) >= 3 for ax in (t.axe_x, t.axe_y)) and np.ptp(t.axe_x)/np.min(np.diff(t.axe_x)) < 60 \
            and np.ptp(t.axe_y)/np.min(np.diff(t.axe_y)) < 60:
        u.make_evenly_spaced()
        for a, b in zip(u.fields, t.fields):
            w = b.copy()
            w.make_evenly_spaced()
            d = G.diff(G.snap(a), G.snap(w), exact=False)
            m.check(d is None, 'evenly-spaced-series', d)
        m.close(u.axe_x, u.fields[0].axe_x, 'evenly-spaced-axis')
        m.close(u.axe_y, u.fields[0].axe_y, 'evenly-spaced-axis')
        m.close(u.times, t.times, 'evenly-spaced-times')


@scenario('C13', 80, 2000)
def weird_fields(m):
    """Fields out of the usual range are replaced by the mean of their valid neighbours, or removed with their times."""
    rng = m.rng
    n = int(rng.integers(34, 46))
    ax, ay = G.axis(rng, 3), G.axis(rng, 4)
    ut = G.pick(rng, G.TIM)
    ts = np.cumsum(rng.uniform(.5, 1.5, n))
    t = TemporalVectorFields()
    k = int(rng.integers(1, 3))
    where = set(int(v) for v in G.pick(rng, [[0], [n - 1], [int(rng.integers(1, n - 1))], [0, n - 1],
                                             [int(rng.integers(1, n//2 - 1)), int(rng.integers(n//2 + 1, n - 1))]]))
    for i in range(n):
        f = VectorField()
        k = 60. if i in where else 1.
        f.import_from_arrays(ax, ay, k*rng.uniform(.9, 1.1, (3, 4)), k*rng.uniform(.9, 1.1, (3, 4)), unit_x='m', unit_y='m', unit_values='m/s')
        t.add_field(f, time=float(ts[i]), unit_times=ut)
    tr = G.pick(rng, ['interpolate', 'remove'])
    m.case('weird', n, sorted(where), tr)
    inp = bool(rng.random() < .4)
    if inp:
        g = t.copy()
        g.remove_weird_fields(treatment=tr, inplace=True)
    else:
        s0 = G.snap(t)
        g = t.remove_weird_fields(treatment=tr)
        m.check(G.diff(G.snap(t), s0) is None, 'weird-changed-input')
    struct(m, g, 'weird')
    good = [i for i in range(n) if i not in where]
    if tr == 'remove':
        m.close(g.times, ts[good], 'weird-removed-times')
        for a, i in zip(g.fields, good):
            m.check(G.diff(G.snap(a), G.snap(t.fields[i])) is None, 'weird-kept-field')
        return
    m.close(g.times, ts, 'weird-times')
    for i in range(n):
        if i in where:
            nb = [t.fields[max(v for v in good if v < i)]] if i > 0 else []
            nb += [t.fields[min(v for v in good if v > i)]] if i < n - 1 else []
            m.close(g.fields[i].comp_x, np.mean([v.comp_x for v in nb], axis=0), 'weird-replaced')
            m.close(g.fields[i].comp_y, np.mean([v.comp_y for v in nb], axis=0), 'weird-replaced')
        else:
            m.check(G.diff(G.snap(g.fields[i]), G.snap(t.fields[i])) is None, 'weird-kept-field')
    m.event('weird-fields', len(where))
