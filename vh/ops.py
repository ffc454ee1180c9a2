"""Table of the public operations of the containers: for each class a list of Op entries able to draw valid
arguments for a given object.  Used by the monitors on input preservation (C01), agreement of the in-place and
out-of-place variants (C02) and invariants along histories (C03)."""
import numpy as np
from IMTreatment.core import (ScalarField, VectorField, Profile, Points, OrientedPoints, TemporalScalarFields,
                              TemporalVectorFields, TemporalPoints)
from IMTreatment.utils import make_unit
from vh.core import Skip
from vh import gen as G


class Op:
    """call(rng, o) -> (args, kwargs) ; how: 'switch' (has an in-place switch), 'pure' (never modifies),
    'mut' (always in place)."""

    def __init__(self, name, how, call, run=None):
        self.name, self.how, self.call, self.run = name, how, call, run

    def apply(self, o, a, k, inplace=None):
        if self.run is not None:
            return self.run(o, *a, **k)
        f = getattr(o, self.name)
        if not callable(f):
            return f
        if self.how == 'switch':
            return f(*a, inplace=inplace, **k)
        return f(*a, **k)


def none(rng, o):
    return (), {}


def _iv(rng, ax):
    n = len(ax)
    i = int(rng.integers(n))
    j = int(rng.integers(i, n))
    lo, hi = float(ax[i]), float(ax[j])
    if rng.random() < .4 and i > 0:
        lo -= .4*(ax[i] - ax[i - 1])
    if rng.random() < .4 and j < n - 1:
        hi += .4*(ax[j + 1] - ax[j])
    return [float(lo), float(hi)]


def _ivi(rng, n):
    i = int(rng.integers(n))
    return [i, int(rng.integers(i, n))]


def f_crop(rng, o):
    k = {}
    if rng.random() < .3:
        if rng.random() < .8:
            k['intervx'] = _ivi(rng, len(o.axe_x))
        if rng.random() < .8:
            k['intervy'] = _ivi(rng, len(o.axe_y))
        k['ind'] = True
    else:
        if rng.random() < .8:
            k['intervx'] = _iv(rng, o.axe_x)
        if rng.random() < .8:
            k['intervy'] = _iv(rng, o.axe_y)
    return (), k


def f_extend(rng, o):
    if min(len(o.axe_x), len(o.axe_y)) < 2:
        raise Skip
    return (), {q: int(rng.integers(0, 3)) for q in ('nmb_left', 'nmb_right', 'nmb_up', 'nmb_down')}


def f_fill(rng, o):
    k = dict(kind=G.pick(rng, ['value', 'nearest', 'linear', 'nearest', 'value']), crop=bool(rng.random() < .3))
    if k['kind'] == 'linear' and np.sum(~o.mask) < 6:
        raise Skip
    if np.all(o.mask):
        raise Skip
    if k['kind'] == 'value':
        v = float(rng.normal())
        k['value'] = v if isinstance(o, ScalarField) or rng.random() < .5 else [v, 2*v]
    return (), k


def f_smooth(rng, o):
    return (), dict(tos=G.pick(rng, ['uniform', 'gaussian']), size=int(rng.integers(1, 4)))


def f_mirror(rng, o):
    if min(o.shape) < 3 or np.any(o.mask):
        raise Skip
    d = G.pick(rng, ['x', 'y'])
    ax = o.axe_x if d == 'x' else o.axe_y
    if not np.allclose(np.diff(ax), ax[1] - ax[0]):
        raise Skip
    return (d, float(G.pick(rng, [ax[0], ax[-1], ax[0] - (ax[1] - ax[0])/2]))), {}


def f_scale(rng, o):
    k = {}
    for q in ('scalex', 'scaley', 'scalev'):
        if rng.random() < .6:
            k[q] = G.pick(rng, [2., .5, -1., -1.5, make_unit('s')*2., make_unit('m')*-.5, 3])
    return (), k


def f_reduce(rng, o):
    if min(o.shape) < 4:
        raise Skip
    for ax in (o.axe_x, o.axe_y):
        if not np.allclose(np.diff(ax), ax[1] - ax[0]):
            raise Skip
    return (2,), {}


def f_unit(rng, o):
    axe = G.pick(rng, ['x', 'y', 'values'])
    u = dict(x=o.unit_x, y=o.unit_y, values=o.unit_values)[axe]
    return (axe, G.pick(rng, G.family_of(u.strUnit()[1:-1]))), {}


def f_origin(rng, o):
    return (float(rng.normal()), float(rng.normal()) if rng.random() < .7 else None), {}


def f_inside(rng, o):
    return (float(rng.uniform(o.axe_x[0], o.axe_x[-1])), float(rng.uniform(o.axe_y[0], o.axe_y[-1])))


def f_getvalue(rng, o):
    if min(o.shape) < 2:
        raise Skip
    if rng.random() < .3:
        return (int(rng.integers(len(o.axe_x))), int(rng.integers(len(o.axe_y)))), dict(ind=True)
    return f_inside(rng, o), {}


def s_profile(rng, o):
    d = G.pick(rng, ['x', 'y'])
    ax = o.axe_x if d == 'x' else o.axe_y
    p = float(G.pick(rng, list(ax))) if rng.random() < .5 else _iv(rng, ax)
    return (d, p), {}


def v_profile(rng, o):
    a, k = s_profile(rng, o)
    return (G.pick(rng, ['comp_x', 'comp_y', 'magnitude']),) + a, k


def rotang(rng, o):
    if min(o.shape) < 2:
        raise Skip
    return (int(rng.integers(-4, 5))*90,), {}


FIELD = [Op('crop', 'switch', f_crop), Op('crop_masked_border', 'switch', lambda r, o: ((), {})),
         Op('extend', 'switch', f_extend), Op('fill', 'switch', f_fill), Op('smooth', 'switch', f_smooth),
         Op('mirroring', 'switch', f_mirror), Op('rotate', 'switch', rotang), Op('scale', 'switch', f_scale),
         Op('reduce_spatial_resolution', 'switch', f_reduce), Op('change_unit', 'mut', f_unit),
         Op('set_origin', 'mut', f_origin), Op('copy', 'pure', none), Op('get_value', 'pure', f_getvalue),
         Op('get_norm', 'pure', lambda r, o: ((int(r.integers(1, 4)),), {})),
         Op('mask_as_sf', 'pure', none),
         Op('get_points_around', 'pure', lambda r, o: ((f_inside(r, o), float(abs(r.normal()) + .1)), {})),
         Op('get_indice_on_axe', 'pure', lambda r, o: ((1, f_inside(r, o)[0]),
                                                       dict(kind=G.pick(r, ['bounds', 'nearest', 'decimal'])))),
         Op('neg', 'pure', none, lambda o: -o), Op('abs', 'pure', none, lambda o: abs(o)),
         Op('mul', 'pure', lambda r, o: ((G.pick(r, [2., -3, make_unit('m')*2.]),), {}), lambda o, c: o*c),
         Op('rmul', 'pure', lambda r, o: ((2.,), {}), lambda o, c: c*o),
         Op('div', 'pure', lambda r, o: ((G.pick(r, [2., -3, make_unit('m')*2.]),), {}), lambda o, c: o/c),
         Op('pow', 'pure', lambda r, o: ((int(r.integers(1, 4)),), {}), lambda o, c: o**c),
         Op('add', 'pure', lambda r, o: ((float(r.normal()),), {}), lambda o, c: o + c),
         Op('sub', 'pure', lambda r, o: ((float(r.normal()),), {}), lambda o, c: o - c),
         Op('iadd', 'pure', lambda r, o: ((float(r.normal()),), {}), lambda o, c: _iop(o, c)),
         Op('addfield', 'pure', lambda r, o: ((_other(r, o),), {}), lambda o, c: o + c),
         Op('subfield', 'pure', lambda r, o: ((_other(r, o),), {}), lambda o, c: o - c),
         Op('addunum', 'pure', lambda r, o: ((o.unit_values*2.,), {}), lambda o, c: o + c),
         Op('setmask', 'mut', lambda r, o: ((o.mask | G.mask(r, o.shape, 'sparse'),), {}),
            lambda o, mk: setattr(o, 'mask', mk)),
         ]


def _iop(o, c):
    p = o
    p += c
    return p


def _other(rng, o):
    f = G.sf if isinstance(o, ScalarField) else G.vf
    g = f(rng, axes=(np.array(o.axe_x), np.array(o.axe_y)))
    g.unit_x, g.unit_y, g.unit_values = o.unit_x, o.unit_y, o.unit_values
    return g


def need(n):
    def chk(rng, o):
        if min(o.shape) < n or np.sum(~o.mask) < 2:
            raise Skip
    return chk


def wrap(chk, fn):
    def call(rng, o):
        chk(rng, o)
        return fn(rng, o)
    return call


SF = FIELD + [
    Op('get_profile', 'pure', s_profile), Op('export_to_scatter', 'pure', wrap(need(1), none)),
    Op('get_histogram', 'pure', wrap(need(2), lambda r, o: ((), dict(bins=int(r.integers(2, 6)))))),
    Op('integrate_over_surface', 'pure', wrap(need(2), lambda r, o: ((), {}))),
    Op('integrate_over_line', 'pure', wrap(need(2), lambda r, o: (('x', _iv(r, o.axe_x)), {}))),
    Op('get_nearest_extrema', 'pure', wrap(need(4), lambda r, o: (([[float(o.axe_x[1]), float(o.axe_y[1])]],), {}))),
    Op('get_zones_centers', 'pure', wrap(need(4), lambda r, o: ((), dict(bornes=[.6, 1])))),
    Op('get_interpolator', 'pure', wrap(need(2), none)),
    Op('values', 'pure', none, lambda o: np.sum(o.values)), Op('min', 'pure', none), Op('max', 'pure', none),
    Op('mean', 'pure', none), Op('median', 'pure', none),
    Op('get_spatial_autocorrelation', 'pure', wrap(need(5), lambda r, o: ((G.pick(r, ['x', 'y']),), {}))),
    Op('mulfield', 'pure', lambda r, o: ((_other(r, o),), {}), lambda o, c: o*c),
    Op('divfield', 'pure', lambda r, o: ((_other(r, o),), {}), lambda o, c: o/c),
    Op('mularray', 'pure', lambda r, o: ((r.normal(size=o.shape),), {}), lambda o, c: o*c),
    Op('rdiv', 'pure', lambda r, o: ((2.,), {}), lambda o, c: c/o),
    Op('setvalues', 'mut', lambda r, o: ((r.normal(size=o.shape),), {}), lambda o, v: setattr(o, 'values', v)),
]
VF = FIELD + [
    Op('get_profile', 'pure', v_profile), Op('comp_x_as_sf', 'pure', none), Op('comp_y_as_sf', 'pure', none),
    Op('magnitude_as_sf', 'pure', none), Op('theta_as_sf', 'pure', none), Op('magnitude', 'pure', none),
    Op('theta', 'pure', none), Op('min', 'pure', none), Op('max', 'pure', none),
    Op('mulsf', 'pure', lambda r, o: ((_sfon(r, o),), {}), lambda o, c: o*c),
    Op('divsf', 'pure', lambda r, o: ((_sfon(r, o),), {}), lambda o, c: o/c),
]


def _sfon(rng, o):
    g = G.sf(rng, axes=(np.array(o.axe_x), np.array(o.axe_y)))
    g.unit_x, g.unit_y = o.unit_x, o.unit_y
    return g


# ---------------------------------------------------------------- profiles
def p_need(n):
    def chk(rng, o):
        if len(o.x) < n or np.sum(~np.asarray(o.mask)) < n:
            raise Skip
    return chk


def p_crop(rng, o):
    k = {}
    n = len(o.x)
    if rng.random() < .3:
        i = int(rng.integers(n))
        return (), dict(intervx=[i, int(rng.integers(i + 1, n + 1))], ind=True)
    return (), dict(intervx=_iv(rng, np.asarray(o.x)))


def p_unit(rng, o):
    axe = G.pick(rng, ['x', 'y'])
    u = o.unit_x if axe == 'x' else o.unit_y
    return (axe, G.pick(rng, G.family_of(u.strUnit()[1:-1]))), {}


def p_same(rng, o):
    q = o.copy()
    q.y = rng.normal(size=len(o.x))
    q.mask = rng.random(len(o.x)) < .2
    return (q,), {}


PROF = [
    Op('crop', 'switch', p_crop), Op('fill', 'switch', wrap(p_need(2), lambda r, o: ((), dict(kind=G.pick(
        r, ['value', 'slinear', 'nearest']))))),
    Op('scale', 'switch', lambda r, o: ((), dict(scalex=G.pick(r, [1., 2., -1., make_unit('m')*2.]),
                                                 scaley=G.pick(r, [1., -2., make_unit('s')])))),
    Op('smooth', 'switch', wrap(p_need(3), lambda r, o: ((), dict(tos=G.pick(r, ['uniform', 'gaussian']),
                                                                 size=int(r.integers(1, 4)))))),
    Op('evenly_space', 'switch', wrap(p_need(3), none)),
    Op('augment_resolution', 'switch', wrap(p_need(3), lambda r, o: ((), dict(fact=int(r.integers(2, 4)))))),
    Op('crop_masked_border', 'switch', wrap(p_need(1), none)),
    Op('remove_nans', 'switch', none), Op('remove_doublons', 'switch', wrap(p_need(2), none)),
    Op('remove_marginal_values', 'switch', wrap(p_need(3), none)),
    Op('remove_local_marginal_values', 'switch', wrap(p_need(3), lambda r, o: ((), dict(neighb=3)))),
    Op('change_unit', 'mut', p_unit), Op('copy', 'pure', none),
    Op('add_point', 'mut', lambda r, o: ((float(r.normal()*3), float(r.normal())), {})),
    Op('remove_point', 'mut', wrap(p_need(3), lambda r, o: ((int(r.integers(len(o.x))),), {}))),
    Op('get_gradient', 'pure', wrap(p_need(3), none)), Op('get_integral', 'pure', wrap(p_need(2), none)),
    Op('get_interpolated_values', 'pure', wrap(p_need(2), lambda r, o: (
        (), dict(x=float(r.uniform(o.x[0], o.x[-1])))))),
    Op('get_value_position', 'pure', wrap(p_need(2), lambda r, o: ((float(r.normal()),), {}))),
    Op('get_extrema_position', 'pure', wrap(p_need(4), none)),
    Op('get_spectrum', 'pure', wrap(p_need(5), none)),
    Op('get_auto_correlation', 'pure', wrap(p_need(5), lambda r, o: ((2,), {}))),
    Op('get_interpolator', 'pure', wrap(p_need(3), none)),
    Op('min', 'pure', wrap(p_need(1), none)), Op('max', 'pure', wrap(p_need(1), none)),
    Op('mean', 'pure', wrap(p_need(1), none)),
    Op('neg', 'pure', none, lambda o: -o), Op('mul', 'pure', lambda r, o: ((2.,), {}), lambda o, c: o*c),
    Op('mulunum', 'pure', lambda r, o: ((make_unit('m')*2.,), {}), lambda o, c: o*c),
    Op('div', 'pure', lambda r, o: ((2.,), {}), lambda o, c: o/c),
    Op('add', 'pure', lambda r, o: ((2.,), {}), lambda o, c: o + c),
    Op('sub', 'pure', lambda r, o: ((2.,), {}), lambda o, c: o - c),
    Op('pow', 'pure', lambda r, o: ((int(r.integers(1, 4)),), {}), lambda o, c: o**c),
    Op('addprof', 'pure', p_same, lambda o, c: o + c), Op('mulprof', 'pure', p_same, lambda o, c: o*c),
    Op('subprof', 'pure', p_same, lambda o, c: o - c), Op('divprof', 'pure', p_same, lambda o, c: o/c),
    Op('rdiv', 'pure', lambda r, o: ((2.,), {}), lambda o, c: c/o),
    Op('iadd', 'pure', lambda r, o: ((2.,), {}), lambda o, c: _iop(o, c)),
]


# ---------------------------------------------------------------- points
def pt_need(n, v=False):
    def chk(rng, o):
        if len(o.xy) < n or (v and len(o.v) == 0):
            raise Skip
    return chk


def pt_crop(rng, o):
    k = {}
    for q, c in (('intervx', 0), ('intervy', 1)):
        if rng.random() < .7:
            b = sorted(float(e) for e in rng.normal(size=2)*3)
            k[q] = b
    return (), k


def pt_unit(rng, o):
    axe = G.pick(rng, ['x', 'y', 'v'])
    u = dict(x=o.unit_x, y=o.unit_y, v=o.unit_v)[axe]
    return (axe, G.pick(rng, G.family_of(u.strUnit()[1:-1]))), {}


def pt_cut(rng, o):
    a, k = pt_crop(rng, o)
    if not k:
        raise Skip
    return a, k


def pt_merge(rng, o):
    q = o.copy()
    q.scale(2., .5, 3., inplace=True)
    return (q,), {}


def pt_add(rng, o):
    pt = [float(rng.normal()), float(rng.normal())]
    v = float(rng.normal()) if len(o.v) else None
    if isinstance(o, OrientedPoints):
        return (pt, rng.normal(size=(2, 2))), dict(v=v)
    return (pt,), dict(v=v)


PTS = [
    Op('crop', 'switch', pt_crop), Op('cut', 'pure', pt_cut),
    Op('scale', 'switch', lambda r, o: ((), dict(scalex=G.pick(r, [2., -1., make_unit('m')*2.]),
                                                 scalev=G.pick(r, [1., -2.])))),
    Op('sort', 'switch', wrap(pt_need(1), lambda r, o: ((G.pick(r, ['x', 'y'] + (['v'] if len(o.v) else [])),), {}))),
    Op('sortby', 'switch', wrap(pt_need(1), lambda r, o: ((list(r.permutation(len(o.xy))),), {}))),
    Op('smooth', 'switch', wrap(pt_need(2), lambda r, o: ((), dict(tos=G.pick(r, ['uniform', 'gaussian']))))),
    Op('remove_nans', 'switch', none), Op('reverse', 'pure', none), Op('decompose', 'pure', wrap(pt_need(1), none)),
    Op('copy', 'pure', none), Op('merge', 'pure', wrap(pt_need(1), pt_merge), lambda o, q: o + q),
    Op('change_unit', 'mut', pt_unit), Op('set_origin', 'mut', f_origin),
    Op('add', 'mut', pt_add), Op('remove', 'mut', wrap(pt_need(2), lambda r, o: ((int(r.integers(len(o.xy))),), {}))),
    Op('export_to_profile', 'pure', wrap(pt_need(1), none)),
    Op('get_clusters', 'pure', wrap(pt_need(1), lambda r, o: ((1.,), dict(min_samples=1)))),
    Op('get_velocity', 'pure', wrap(pt_need(2, True), none)),
]
PTS[4].name = 'sort'
PPTS = PTS + [
    Op('rotate', 'switch', lambda r, o: ((float(r.normal()),), {})),
    Op('remove_doublons', 'switch', wrap(pt_need(2, True), none)),
    Op('augment_resolution', 'switch', wrap(pt_need(2), none)),
    Op('order_on_line', 'switch', wrap(pt_need(4), none)),
]


# ---------------------------------------------------------------- temporal fields
def t_need(n):
    def chk(rng, o):
        if len(o) < n or min(o.shape) < 2:
            raise Skip
    return chk


def t_crop(rng, o):
    k = {}
    if rng.random() < .3:
        k = dict(intervx=_ivi(rng, len(o.axe_x)), intervy=_ivi(rng, len(o.axe_y)), ind=True)
        if rng.random() < .6:
            k['intervt'] = _ivi(rng, len(o))
        return (), k
    if rng.random() < .5:
        k['intervx'] = _iv(rng, o.axe_x)
    if rng.random() < .5:
        k['intervy'] = _iv(rng, o.axe_y)
    if rng.random() < .5:
        k['intervt'] = _iv(rng, np.asarray(o.times))
    return (), k


def t_unit(rng, o):
    axe = G.pick(rng, ['x', 'y', 'values', 'time'])
    u = dict(x=o.unit_x, y=o.unit_y, values=o.unit_values, time=o.unit_times)[axe]
    return (axe, G.pick(rng, G.family_of(u.strUnit()[1:-1]))), {}


def t_scale(rng, o):
    a, k = f_scale(rng, o)
    if rng.random() < .5:
        k['scalet'] = G.pick(rng, [2., -1., .5])
    return a, k


def t_comp(rng, o):
    return G.pick(rng, ['values'] if isinstance(o, TemporalScalarFields) else ['comp_x', 'comp_y'])


def t_mirror(rng, o):
    if any(np.any(f.mask) for f in o.fields):
        raise Skip
    return f_mirror(rng, o.fields[0])


def t_other(rng, o):
    q = type(o)()
    for tm, f in zip(o.times, o.fields):
        q.add_field(_other(rng, f), time=float(tm), unit_times=o.unit_times)
    return (q,), {}


def t_fill(rng, o):
    if any(np.all(f.mask) for f in o.fields):
        raise Skip
    if len(o) >= 3 and rng.random() < .4:
        return (), dict(tof='temporal', kind=G.pick(rng, ['linear', 'value']))
    return (), dict(tof='spatial', kind=G.pick(rng, ['value', 'nearest']))


def t_add(rng, o):
    f = _other(rng, o.fields[0])
    return (f,), dict(time=float(rng.normal()*7 + 3), unit_times=o.unit_times)


TF = [
    Op('crop', 'switch', t_crop), Op('crop_masked_border', 'switch', none), Op('extend', 'switch', f_extend),
    Op('fill', 'switch', t_fill), Op('rotate', 'switch', rotang), Op('scale', 'switch', t_scale),
    Op('smooth', 'switch', f_smooth), Op('mirroring', 'switch', t_mirror),
    Op('reduce_spatial_resolution', 'switch', f_reduce),
    Op('reduce_temporal_resolution', 'switch', wrap(t_need(3), lambda r, o: ((2,), dict(mean=bool(r.random() < .5))))),
    Op('augment_temporal_resolution', 'switch', wrap(t_need(2), lambda r, o: ((), dict(fact=2)))),
    Op('change_unit', 'mut', t_unit), Op('set_origin', 'mut', f_origin), Op('copy', 'pure', none),
    Op('add_field', 'mut', t_add),
    Op('remove_fields', 'mut', wrap(t_need(2), lambda r, o: ((int(r.integers(len(o))),), {}))),
    Op('remove_field', 'mut', wrap(t_need(2), lambda r, o: ((int(r.integers(len(o))),), {}))),
    Op('get_mean_field', 'pure', none), Op('get_fluctuant_fields', 'pure', none),
    Op('get_interpolated_field', 'pure', lambda r, o: ((float(r.uniform(o.times[0], o.times[-1])),), {})),
    Op('get_interpolated_field', 'pure', lambda r, o: ((float(G.pick(r, list(o.times))),), {})),
    Op('get_time_profile', 'pure', lambda r, o: ((t_comp(r, o), [0, 0]), dict(ind=True))),
    Op('get_recurrence_map', 'pure', wrap(t_need(2), none)),
    Op('mask_cum_as_sf', 'pure', none), Op('mask_as_sf', 'pure', none),
    Op('neg', 'pure', none, lambda o: -o), Op('mul', 'pure', lambda r, o: ((2.,), {}), lambda o, c: o*c),
    Op('div', 'pure', lambda r, o: ((2.,), {}), lambda o, c: o/c),
    Op('add', 'pure', lambda r, o: ((2.,), {}), lambda o, c: o + c),
    Op('pow', 'pure', lambda r, o: ((2,), {}), lambda o, c: o**c),
    Op('addfield', 'pure', lambda r, o: ((_other(r, o.fields[0]),), {}), lambda o, c: o + c),
    Op('addseries', 'pure', t_other, lambda o, c: o + c), Op('subseries', 'pure', t_other, lambda o, c: o - c),
]
TSF = TF + [Op('get_min_field', 'pure', none), Op('get_max_field', 'pure', none),
            Op('values', 'pure', none), Op('mulseries', 'pure', t_other, lambda o, c: o*c),
            Op('divseries', 'pure', t_other, lambda o, c: o/c)]
TVF = TF + [Op(n, 'pure', none) for n in ('Vx_as_sf', 'Vy_as_sf', 'magnitude_as_sf', 'Vx', 'magnitude', 'get_tke',
                                          'get_mean_tke', 'get_mean_kinetic_energy', 'get_reynolds_stress',
                                          'get_turbulent_intensity', 'get_time_auto_correlation')]


# ---------------------------------------------------------------- temporal points
def tp_crop(rng, o):
    k = {}
    if rng.random() < .6:
        k['intervt'] = _iv(rng, np.asarray(o.times))
    if rng.random() < .6:
        k['intervx'] = sorted(float(e) for e in rng.normal(size=2)*3)
    return (), k


def tp_unit(rng, o):
    axe = G.pick(rng, ['x', 'y', 'time'])
    u = dict(x=o.unit_x, y=o.unit_y, time=o.unit_times)[axe]
    return (axe, G.pick(rng, G.family_of(u.strUnit()[1:-1]))), {}


def tp_add(rng, o):
    p = o.point_sets[0].copy()
    return (p,), dict(time=float(rng.normal()*7), unit_times=o.unit_times)


def tp_need(rng, o):
    if len(o) < 2:
        raise Skip


TP = [
    Op('crop', 'switch', tp_crop),
    Op('scale', 'switch', lambda r, o: ((), dict(scalex=G.pick(r, [None, 2., -1., make_unit('m')*2.]),
                                                 scalet=G.pick(r, [None, 2., -1., .5])))),
    Op('smooth', 'switch', none), Op('copy', 'pure', none), Op('change_unit', 'mut', tp_unit),
    Op('add_pts', 'mut', tp_add), Op('remove_pts', 'mut', wrap(tp_need, lambda r, o: ((int(r.integers(len(o))),), {}))),
]

KINDS = ['sf', 'vf', 'prof', 'pts', 'opts', 'tsf', 'tvf', 'tpts']


def table(o):
    if isinstance(o, ScalarField):
        return SF
    if isinstance(o, VectorField):
        return VF
    if isinstance(o, Profile):
        return PROF
    if isinstance(o, OrientedPoints):
        return PTS
    if isinstance(o, Points):
        return PPTS
    if isinstance(o, TemporalScalarFields):
        return TSF
    if isinstance(o, TemporalVectorFields):
        return TVF
    return TP


def make(rng, kind=None):
    from props.c06 import oriented, tpoints
    kind = kind or G.pick(rng, KINDS + ['sf', 'vf', 'tsf', 'tvf', 'prof'])
    if kind == 'sf':
        return G.sf(rng)
    if kind == 'vf':
        return G.vf(rng)
    if kind == 'prof':
        return G.profile(rng, lo=3)
    if kind == 'pts':
        return G.points(rng, lo=1, hi=10)
    if kind == 'opts':
        return oriented(rng)
    if kind == 'tsf':
        return G.tf(rng, kind='s')
    if kind == 'tvf':
        return G.tf(rng, kind='v')
    return tpoints(rng)


def scribble(o, rng, depth=0):
    """Overwrite, in place, every array and sub-object reachable from the public attributes of an object."""
    def arr(a):
        if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
            if a.dtype == bool:
                a[...] = ~a
            elif a.dtype.kind in 'fiuc':
                a[...] = a*0 + 77
    if depth > 3 or o is None:
        return
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for e in o.ravel():
                scribble(e, rng, depth + 1)
        else:
            arr(o)
    elif isinstance(o, (list, tuple)):
        for e in o:
            scribble(e, rng, depth + 1)
        if isinstance(o, list):
            o[:] = []
    elif isinstance(o, (TemporalScalarFields, TemporalVectorFields)):
        for f in o.fields:
            scribble(f, rng, depth + 1)
        arr(o.times)
        arr(o.axe_x)
        arr(o.axe_y)
    elif isinstance(o, TemporalPoints):
        for f in o.point_sets:
            scribble(f, rng, depth + 1)
        arr(o.times)
        if isinstance(o.point_sets, list):
            o.point_sets[:] = []
    elif isinstance(o, ScalarField):
        for a in (o.axe_x, o.axe_y, o.values, o.mask):
            arr(a)
    elif isinstance(o, VectorField):
        for a in (o.axe_x, o.axe_y, o.comp_x, o.comp_y, o.mask):
            arr(a)
    elif isinstance(o, Profile):
        for a in (o.x, o.y, o.mask):
            arr(a)
    elif isinstance(o, Points):
        for a in (o.xy, o.v):
            arr(a)
        if hasattr(o, 'orientations'):
            arr(o.orientations)
