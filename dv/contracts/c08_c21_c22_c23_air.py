"""C08 dehumidification, C21 occupants, C22 infiltration, C23 moist air"""
import math
import numpy
from ..contract import contract

C_AIR, RHO, L = 1005.0, 1.2, 2501000.0
F = 101325.0


def spec_p_vs(np, th):
    t = th + 273.15
    w = np.exp(-6096.9385 / t + 21.2409642 + -0.02711193 * t + 0.00001673952 * t ** 2 + 2.433502 * np.log(t))
    i = np.exp(-6024.5282 / t + 29.32707 + 0.010613863 * t + -0.000013198825 * t ** 2 + -0.49382577 * np.log(t))
    return np.where(th >= 0.0, w, i)


def spec_x(p):
    return 0.622 * p / (F - p)


# ---------------------------------------------------------------------------------------------- C08
def spec_flow(np, q, q_max, q_min, v_max, v_min, clamp=True):
    """m3/s"""
    if clamp:
        q = np.minimum(np.maximum(q, q_min), q_max)
    return (v_min + (v_max - v_min) * (q - q_min) / (q_max - q_min)) / 60.0


def rac(g, I):
    """equipment whose maximum capacity and air flow exceed the minimum ones (sizes at which the coil stays above absolute zero)"""
    q_min = g.real('q_min', I, 1, lo=100.0, hi=900.0, hard=True)
    dq = g.real('dq', I, 1, lo=100.0, hi=6000.0, hard=True)
    v_min = g.real('v_min', I, 1, lo=2.0, hi=12.0, hard=True)
    dv = g.real('dv', I, 1, lo=0.0, hi=10.0, hard=True)
    return dict(q_min=q_min, q_max=q_min + dq, v_min=v_min, v_max=v_min + dv)


@contract('C08', ['core.heat_exchanger.get_dehumid_coeff', 'core.heat_exchanger.get_vac_is_n', 'core.heat_exchanger.get_x_e_out_is_n'], trials=400)
def dehumidification(g, W):
    """no removal unless cooling convectively and the room is moister than saturated air at the coil; then the unbypassed flow times the excess"""
    np = g.np
    I = g.dim('I')
    lcs = g.real('lcs', I, 1, lo=-6000.0, hi=2000.0, hard=True, num=lambda a: numpy.where(a > 1500, 0.0, a))
    th = g.real('theta_r', I, 1, lo=15.0, hi=35.0, hard=True)
    x = g.real('x', I, 1, lo=0.0, hi=0.03)
    spec = rac(g, I)
    brmx, brxc = W['core.heat_exchanger'].get_dehumid_coeff(lcs, th, spec, x)
    q = -lcs
    cools = q > 1.0e-3

    def state(clamp):
        v = spec_flow(np, q, spec['q_max'], spec['q_min'], spec['v_max'], spec['v_min'], clamp)
        coil = th - q / (C_AIR * RHO * v * 0.8)
        xs = spec_x(spec_p_vs(np, coil))
        removes = cools & np.logical_not(xs > x)        # also where a finding puts the coil below absolute zero
        flow = np.where(removes, RHO * v * 0.8, 0.0)
        return flow, np.where(removes, RHO * v * 0.8 * xs, 0.0), removes
    flow, const, removes = state(True)
    fid = 'F-C08-air-flow-not-clamped'
    flow1, const1, _ = state(False)
    g.eq('air passing the coil', brmx, np.identity(I) * flow, abs_tol=1e-12, finding=(fid, np.identity(I) * flow1))
    g.eq('moisture it carries back', brxc, const, abs_tol=1e-12, finding=(fid, const1))
    g.eq('nothing unless cooling', brmx, np.zeros((I, I)), when=np.dot(np.ones((I, 1)), np.where(cools, 1.0, 0.0).T) < 0.5)


@contract('C08', ['core.heat_exchanger.get_dehumid_coeff'], trials=60)
def no_dehumidification_without_air_conditioner(g, W):
    """rooms without convective cooling (capacities and flows zero in the calculation data) lose no moisture to a coil"""
    np = g.np
    I = g.dim('I')
    spec, there = rac(g, I), g.bool('installed', I, 1)
    spec = {k: np.where(there, v, 0.0) for k, v in spec.items()}
    lcs, th, x = g.real('lcs', I, 1, lo=-6000.0, hi=2000.0), g.real('theta_r', I, 1, lo=15.0, hi=35.0), g.real('x', I, 1, lo=0.0, hi=0.03)
    brmx, brxc = W['core.heat_exchanger'].get_dehumid_coeff(lcs, th, spec, x)
    g.eq('air passing the coil', brmx * np.where(there, 0.0, 1.0), np.zeros((I, I)))
    g.eq('moisture it carries back', brxc * np.where(there, 0.0, 1.0), np.zeros((I, 1)))


@contract('C08', ['core.heat_exchanger.get_vac_is_n'], trials=200)
def coil_air_flow(g, W):
    """linear between the minimum and the maximum flow, never outside"""
    np = g.np
    I = g.dim('I')
    spec = rac(g, I)
    q = g.real('q', I, 1, lo=0.0, hi=8000.0)
    v = W['core.heat_exchanger'].get_vac_is_n(q_max=spec['q_max'], q_min=spec['q_min'], qs_is_n=q, v_max=spec['v_max'], v_min=spec['v_min'])
    g.eq('air flow', v, spec_flow(np, q, spec['q_max'], spec['q_min'], spec['v_max'], spec['v_min']),
         finding=('F-C08-air-flow-not-clamped', spec_flow(np, q, spec['q_max'], spec['q_min'], spec['v_max'], spec['v_min'], False)))


# ---------------------------------------------------------------------------------------------- C21
@contract('C21', ['core.occupants.get_q_hum_psn_is_n', 'core.occupants.get_x_hum_psn_is_n'], trials=100)
def occupant_heat_and_moisture(g, W):
    """sensible heat plus moisture times heat of evaporation is 119 W; the sensible part is min(63-4(theta-24), 119)"""
    np = g.np
    I = g.dim('I')
    th = g.real('theta', I, 1, lo=-20.0, hi=60.0)
    m = W['core.occupants']
    q = m.get_q_hum_psn_is_n(theta_r_is_n=th)
    x = m.get_x_hum_psn_is_n(theta_r_is_n=th)
    g.eq('sensible heat', q, np.minimum(63.0 - 4.0 * (th - 24.0), 119.0))
    g.eq('total', q + x * L, np.full((I, 1), 119.0), abs_tol=1e-9)
    g.holds('never above the total', q <= 119.0)
    g.holds('moisture never negative', x >= 0.0)


# ---------------------------------------------------------------------------------------------- C22
def spec_rate(np, story, inside, c_value, dt):
    a = {1: 0.022, 2: 0.020}[story]
    b = {'balanced': {1: 0.0, 2: 0.0}, 'positive': {1: 0.26, 2: 0.14}, 'negative': {1: 0.28, 2: 0.13}}[inside][story]
    return np.maximum(a * (c_value * np.sqrt(dt)) - b, 0.0)


@contract('C22', ['core.infiltration._get_infiltration_residential'], trials=200)
def infiltration_of_the_building(g, W):
    """the air change of the volume-weighted mean temperature, shared by volume, never negative"""
    np = g.np
    I = g.dim('I')
    story = g.choice('story', [1, 2])
    inside = g.choice('inside', ['balanced', 'positive', 'negative'])
    c_value = g.real('c_value', lo=0.0, hi=20.0)
    v = g.real('v', I, 1, lo=1.0, hi=300.0)
    th = g.real('theta', I, 1, lo=-10.0, hi=40.0)
    to = g.real('theta_o', lo=-20.0, hi=40.0)
    r = W['core.infiltration']._get_infiltration_residential(c_value=c_value, v_room_is=v, story=story, inside_pressure=inside,
                                                             theta_r_is_n=th, theta_o_n=to)
    mean = np.sum(v * th) / np.sum(v)
    rate = spec_rate(np, story, inside, c_value, np.abs(mean - to))
    g.eq('flow', r, rate * v / 3600.0, abs_tol=1e-9)
    g.holds('never negative', r >= 0.0)


@contract('C22', ['core.infiltration.make_get_infiltration_function', 'core.infiltration._get_infiltration_residential'], trials=150)
def infiltration_from_the_description(g, W):
    """the function made from a description uses its own leakage area, storeys, pressure kind and the volumes of its own rooms"""
    np = g.np
    I = g.dim('I')
    story = g.choice('story', [1, 2])
    inside = g.choice('inside', ['balanced', 'positive', 'negative'])
    c_value = g.real('c_value', lo=0.0, hi=20.0)
    v = g.real('v', I, lo=1.0, hi=300.0)
    th = g.real('theta', I, 1, lo=-10.0, hi=40.0)
    to = g.real('theta_o', lo=-20.0, hi=40.0)
    rd = dict(building=dict(infiltration_method='balance_residential', story=story, c_value=c_value, inside_pressure=inside),
              spaces=g.records(I, lambda at, k: dict(volume=at(v), name='room', id=k)))
    f = W['core.infiltration'].make_get_infiltration_function(rd)
    r = f(th, to)
    mean = np.sum(v * th.reshape(-1)) / np.sum(v)
    rate = spec_rate(np, story, inside, c_value, np.abs(mean - to))
    g.eq('flow', r, (rate * v / 3600.0).reshape(-1, 1), abs_tol=1e-9)


@contract('C22', ['core.infiltration.make_get_infiltration_function'], mode='B', trials=10)
def unknown_infiltration_is_rejected(g, W):
    """unknown calculation methods and pressure kinds raise"""
    np = g.np
    rd = lambda m, p: dict(building=dict(infiltration_method=m, story=1, c_value=2.0, inside_pressure=p), spaces=[dict(volume=30.0)])
    mk = W['core.infiltration'].make_get_infiltration_function
    for bad in ('', 'none', 'balanced_residential', None):
        g.raises('method %r' % bad, lambda: mk(rd(bad, 'balanced'))(np.array([[20.0]]), 0.0))
    for bad in ('', 'neutral', 'Positive', None):
        g.raises('pressure %r' % bad, lambda: mk(rd('balance_residential', bad))(np.array([[20.0]]), 0.0))


@contract('C22', ['initializer.estimate_c_value.estimate_c_value'], trials=40)
def leakage_area_estimate(g, W):
    """4.16 (reinforced concrete) or 8.28 (wood, steel) cm2/m2 per W/m2K of the envelope"""
    ua = g.real('ua', lo=0.0, hi=10.0)
    m = W['initializer.estimate_c_value']
    for s, a in (('rc', 4.16), ('src', 4.16), ('wooden', 8.28), ('steel', 8.28)):
        g.eq(s, m.estimate_c_value(ua, m.Structure(s)), a * ua)
    g.raises('unknown structure', lambda: m.Structure('stone'), ValueError)


# ---------------------------------------------------------------------------------------------- C23
@contract('C23', ['external.psychrometrics.get_x', 'external.psychrometrics.get_p_v_r_is_n', 'external.psychrometrics.get_f',
                  'external.psychrometrics.get_h'], trials=100)
def humidity_conversions(g, W):
    """standard pressure; the two conversions invert each other up to the molar mass ratio; saturation is 100 percent"""
    np = g.np
    I = g.dim('I')
    m = W['external.psychrometrics']
    p = g.real('p', I, 1, lo=0.0, hi=20000.0, hard=True)
    x = g.real('x', I, 1, lo=0.0, hi=0.1)
    g.eq('standard pressure', m.get_f(), F)
    g.eq('humidity ratio', m.get_x(p), 0.622 * p / (F - p))
    g.eq('vapour pressure', m.get_p_v_r_is_n(x), F * x / (x + 0.62198))
    g.eq('x -> p -> x', m.get_x(m.get_p_v_r_is_n(x)), x * (0.622 / 0.62198))
    ps = g.real('ps', I, 1, lo=1.0, hi=20000.0)
    g.eq('relative humidity', m.get_h(p, ps), 100.0 * p / ps)
    q = g.real('q', I, 1, lo=0.0, hi=20000.0, hard=True)
    g.holds('humidity rises with vapour pressure', m.get_x(p) < m.get_x(q), when=p < q - 1e-6)


@contract('C23', ['external.psychrometrics.get_p_vs', 'external.psychrometrics.get_p_vs_is', 'external.psychrometrics.get_p_vs_is2'], trials=200)
def saturation_pressure(g, W):
    """Wexler-Hyland over ice below 0 degC and over water from 0 degC on; scalar and vector forms agree"""
    np = g.np
    I = g.dim('I')
    m = W['external.psychrometrics']
    th = g.real('theta', I, 1, lo=-60.0, hi=90.0)
    want = spec_p_vs(np, th)
    g.eq('vector', m.get_p_vs_is2(th), want)
    g.eq('element by element', m.get_p_vs_is(th), want)
    t0 = g.real('t0', lo=-60.0, hi=90.0)
    g.eq('scalar', m.get_p_vs(t0), spec_p_vs(np, t0))
    g.holds('positive', m.get_p_vs_is2(th) > 0.0)


@contract('C23', ['external.psychrometrics.get_p_vs_is2', 'external.psychrometrics.get_p_vs'], mode='T', trials=60)
def saturation_pressure_increases(g, W):
    """increasing with temperature (within each phase; 0 degC joins from below up to 0.01 Pa)"""
    np = g.np
    m = W['external.psychrometrics']
    th = numpy.sort(g.real('theta', 40, lo=-60.0, hi=90.0))
    p = m.get_p_vs_is2(th)
    same = (th[1:] >= 0) == (th[:-1] >= 0)
    gap = th[1:] - th[:-1] > 1e-6
    g.holds('increasing', (p[1:] > p[:-1]), when=same & gap)
    g.holds('across freezing', p[1:] > p[:-1] - 0.05)


@contract('C23', ['external.rac.get_q_rtd', 'external.rac.get_q_max', 'external.rac.get_q_min_h', 'external.rac.get_q_min_c', 'external.rac.get_v_max',
                  'external.rac.get_v_min'], trials=60)
def equipment_estimates(g, W):
    """rated, maximum and minimum capacities and flows by their formulas, consistent with each other"""
    np = g.np
    I = g.dim('I')
    m = W['external.rac']
    a = g.real('a', I, lo=1.0, hi=200.0)
    qh, qc = m.get_q_rtd(a_floor_is=a)
    g.eq('rated cooling', qc, np.minimum(190.5 * a + 45.6, 5600.0))
    g.eq('rated heating', qh, 1.2090 * qc - 85.1)
    mh, mc = m.get_q_max(q_rtd_h_is=qh, q_rtd_c_is=qc)
    g.eq('maximum cooling', mc, np.maximum(0.8462 * qc + 1205.9, qc))
    g.eq('maximum heating', mh, np.maximum(1.7597 * mc - 413.7, qh))
    g.holds('maximum not below rated (cooling)', mc >= qc)
    g.holds('maximum not below rated (heating)', mh >= qh)
    g.eq('minimum', m.get_q_min_h() + m.get_q_min_c(), 1000.0)
    v = m.get_v_max(qc)
    g.eq('maximum flow', v, 11.076 * (qc / 1000.0) ** 0.3432)
    g.eq('minimum flow', m.get_v_min(v), 0.55 * v)
    b = g.real('b', I, lo=1.0, hi=200.0)
    g.holds('grows with the floor area', m.get_q_rtd(a_floor_is=a)[1] <= m.get_q_rtd(a_floor_is=b)[1], when=a <= b)
