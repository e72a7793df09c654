"""C04 operation mode, C05 target operative temperature"""
import math
from ..contract import contract

MET = 58.15


def spec_mode(np, M, demand, prev, ph, pm, pl):
    """the decision table of the comfort thresholds"""
    H, C, SO, SC = M.HEATING, M.COOLING, M.STOP_OPEN, M.STOP_CLOSE
    heating = np.where(ph <= 0.7, H, np.where(pl >= 0.7, C, SC))
    cooling = np.where(pl >= -0.7, C, np.where(ph <= -0.7, H, SC))
    opened = np.where(pl >= 0.7, C, np.where(ph <= -0.7, H, np.where(pm <= 0.0, SC, SO)))
    closed = np.where(pl >= 0.7, C, np.where(ph <= -0.7, H, np.where(pm >= 0.0, SO, SC)))
    return np.where(demand > 0.0, np.where(prev == H, heating, np.where(prev == C, cooling, np.where(prev == SO, opened, closed))), SC)


def spec_icl(clo):
    return 0.155 * clo


def spec_fcl(np, icl):
    return np.where(icl <= 0.078, 1.0 + 1.29 * icl, 1.05 + 0.645 * icl)


def spec_pmv(np, t_air, clo, p_a, h, ot):
    """heat balance of a seated person (1 met), surface coefficient h, operative temperature ot"""
    icl = spec_icl(clo)
    fcl = spec_fcl(np, icl)
    q = (35.7 - 0.028 * MET - ot) / (icl + 1.0 / (fcl * h))
    return (0.303 * math.exp(-0.036 * MET) + 0.028) * (
        MET - 3.05e-3 * (5733.0 - 6.99 * MET - p_a) - 1.7e-5 * MET * (5867.0 - p_a) - 0.0014 * MET * (34.0 - t_air) - q)


H_C = 4.0
H_R = 4 * 3.96e-8 * 293.15 ** 3


def spec_p_v(x):
    return 101325.0 * x / (x + 0.62198)


@contract('C04', ['core.ot_target_pmv.get_operation_mode_is_n', 'core.ot_target_pmv.get_operation_mode_i_n'], trials=200)
def mode_decision_table(g, W):
    """each room's new mode is the decision table of its own demand, old mode and comfort indices"""
    np = g.np
    M = W['core.operation_mode'].OperationMode
    I = g.dim('I')
    d = g.real('demand', I, 1, lo=0.0, hi=1.0)
    prev = g.enum('prev', [M.HEATING, M.COOLING, M.STOP_OPEN, M.STOP_CLOSE], I, 1)
    snap = (lambda a: [float(v) for v in a.reshape(-1)] and a.round(1))
    ph = g.real('ph', I, 1, lo=-1.5, hi=1.5, num=snap)
    pm = g.real('pm', I, 1, lo=-1.5, hi=1.5, num=snap)
    pl = g.real('pl', I, 1, lo=-1.5, hi=1.5, num=snap)
    m = W['core.ot_target_pmv'].get_operation_mode_is_n(
        ac_demand_is_n=d, operation_mode_is_n_mns=prev, pmv_heavy_is_n=ph, pmv_middle_is_n=pm, pmv_light_is_n=pl)
    g.eq('mode', m, spec_mode(np, M, d, prev, ph, pm, pl))
    four = (m == M.HEATING) | (m == M.COOLING) | (m == M.STOP_OPEN) | (m == M.STOP_CLOSE)
    g.holds('one of the four modes', four)


def state(g, W):
    M = W['core.operation_mode'].OperationMode
    I = g.dim('I')
    return dict(M=M, I=I, x=g.real('x', I, 1, lo=0.0, hi=0.03), t=g.real('t', I, 1, lo=-5.0, hi=45.0),
                mrt=g.real('mrt', I, 1, lo=-5.0, hi=45.0), d=g.real('demand', I, 1, lo=0.0, hi=1.0),
                prev=g.enum('prev', [M.HEATING, M.COOLING, M.STOP_OPEN, M.STOP_CLOSE], I, 1),
                rh=g.bool('rad_h', I, 1), rc=g.bool('rad_c', I, 1))


@contract(['C04', 'C05'], ['core.ot_target.make_get_ot_target_and_h_hum_function', 'core.ot_target_pmv.get_ot_target_and_h_hum_with_pmv',
                           'core.ot_target_pmv._get_h_hum', 'core.ot_target_pmv.get_pmv_is_n', 'core.ot_target_pmv.get_theta_ot_target',
                           'core.ot_target_pmv.get_clo_is_n', 'core.ot_target_pmv.get_pmv_target_is_n', 'core.ot_target_pmv.get_v_hum_is_n'],
          trials=300, timeout=200)
def mode_and_targets_of_a_step(g, W):
    """the step's mode follows the decision table with the indices of the three clothings at the old state; the lower (upper) target
    is the operative temperature at which a heating (cooling) room has index -0.5 (+0.5) with clothing 1.1 (0.3), others have none"""
    np = g.np
    s = state(g, W)
    M, I = s['M'], s['I']
    # the factory is given plain per-room flags, shape [i]
    f = W['core.ot_target'].make_get_ot_target_and_h_hum_function(
        is_radiative_heating_is=s['rh'].reshape(-1), is_radiative_cooling_is=s['rc'].reshape(-1))
    hc, hr, mode, lo, up, rem = f(theta_r_is_n=s['t'], theta_mrt_hum_is_n=s['mrt'], x_r_is_n=s['x'], operation_mode_is_n_mns=s['prev'],
                                  ac_demand_is_n=s['d'])
    g.eq('convective coefficient', hc, np.full((I, 1), H_C))
    g.eq('radiative coefficient', hr, np.full((I, 1), H_R))
    h = H_C + H_R
    ot = (H_R * s['mrt'] + H_C * s['t']) / h
    p = spec_p_v(s['x'])
    pmv = [spec_pmv(np, s['t'], np.full((I, 1), clo), p, h, ot) for clo in (1.1, 0.7, 0.3)]
    want = spec_mode(np, M, s['d'], s['prev'], *pmv)
    near = np.zeros((I, 1)) > 1.0
    if not g.symbolic:
        import numpy
        for q in pmv:
            for th in (0.7, -0.7, 0.0):
                near = near | (numpy.abs(q - th) < 1e-9)
    g.eq('mode', mode, want, when=~near)
    heats, cools = mode == M.HEATING, mode == M.COOLING
    # a room with air at the operative temperature ot* has exactly the target index
    g.eq('index at the lower target', spec_pmv(np, lo, 1.1, p, h, lo), -0.5, when=heats, abs_tol=1e-7)
    g.eq('index at the upper target', spec_pmv(np, up, 0.3, p, h, up), 0.5, when=cools, abs_tol=1e-7)
    col = lambda x: g.arr(x).reshape(-1, 1)
    g.eq('remarks: air speed', col(g.each(rem, lambda r: r['v_hum m/s'])),
         np.where((heats & ~s['rh']) | (cools & ~s['rc']), 0.2, np.where(mode == M.STOP_OPEN, 0.1, 0.0)))
    g.eq('no lower target unless heating', lo, 0.0, when=~heats)
    g.eq('no upper target unless cooling', up, 0.0, when=~cools)


@contract('C05', ['core.ot_target_pmv.get_pmv_is_n'], trials=100)
def comfort_index(g, W):
    """the index is the human heat balance of the inputs, and rises strictly with the operative temperature"""
    np = g.np
    I = g.dim('I')
    t = g.real('t', I, 1, lo=-10.0, hi=50.0)
    clo = g.real('clo', lo=0.0, hi=2.0)
    p = g.real('p', I, 1, lo=0.0, hi=5000.0)
    h = g.real('h', I, 1, lo=1.0, hi=40.0)
    a = g.real('ot', I, 1, lo=-10.0, hi=50.0)
    b = g.real('ot2', I, 1, lo=-10.0, hi=50.0)
    f = W['core.ot_target_pmv'].get_pmv_is_n
    pa = f(theta_r_is_n=t, clo_is_n=clo, p_a_is_n=p, h_hum_is_n=h, theta_ot_is_n=a)
    pb = f(theta_r_is_n=t, clo_is_n=clo, p_a_is_n=p, h_hum_is_n=h, theta_ot_is_n=b)
    g.eq('heat balance', pa, spec_pmv(np, t, clo, p, h, a), abs_tol=1e-9)
    g.holds('rises strictly with the operative temperature', pb > pa, when=b > a + 1e-6)


@contract('C05', ['core.ot_target_pmv.get_theta_ot_target', 'core.ot_target_pmv.get_pmv_is_n'], trials=100)
def target_inverts_index(g, W):
    """the index of a room whose air is at the target operative temperature is the target index, for every clothing and coefficient"""
    np = g.np
    I = g.dim('I')
    clo = g.real('clo', I, 1, lo=0.0, hi=2.0)
    p = g.real('p', I, 1, lo=0.0, hi=5000.0)
    h = g.real('h', I, 1, lo=1.0, hi=40.0)
    v = g.real('pmv', I, 1, lo=-3.0, hi=3.0)
    m = W['core.ot_target_pmv']
    ot = m.get_theta_ot_target(clo_is_n=clo, p_a_is_n=p, h_hum_is_n=h, pmv_target_is_n=v)
    g.eq('index at the target', m.get_pmv_is_n(theta_r_is_n=ot, clo_is_n=clo, p_a_is_n=p, h_hum_is_n=h, theta_ot_is_n=ot), v, abs_tol=1e-8)


@contract('C05', ['core.ot_target_pmv.get_v_hum_is_n', 'core.ot_target_pmv.get_clo_is_n', 'core.ot_target_pmv.get_pmv_target_is_n'], trials=60)
def air_speed_clothing_and_target(g, W):
    """0.2 m/s under convective conditioning, 0.1 m/s with open windows, else 0; clothing 1.1/0.3/0.7; target -0.5/+0.5/0"""
    np = g.np
    M = W['core.operation_mode'].OperationMode
    I = g.dim('I')
    mode = g.enum('mode', [M.HEATING, M.COOLING, M.STOP_OPEN, M.STOP_CLOSE], I, 1)
    rh, rc = g.bool('rad_h', I, 1), g.bool('rad_c', I, 1)
    m = W['core.ot_target_pmv']
    H, C = mode == M.HEATING, mode == M.COOLING
    v = m.get_v_hum_is_n(operation_mode_is_n=mode, is_radiative_heating_is=rh, is_radiative_cooling_is=rc)
    g.eq('air speed', v, np.where((H & ~rh) | (C & ~rc), 0.2, np.where(mode == M.STOP_OPEN, 0.1, 0.0)))
    g.eq('clothing', m.get_clo_is_n(operation_mode_is_n=mode), np.where(H, 1.1, np.where(C, 0.3, 0.7)))
    g.eq('target', m.get_pmv_target_is_n(operation_mode_is_n=mode), np.where(H, -0.5, np.where(C, 0.5, 0.0)))


def spec_h_r(tcl, mrt):
    return 3.96e-8 * ((tcl + 273.0) ** 2 + (mrt + 273.0) ** 2) * ((tcl + 273.0) + (mrt + 273.0))


def spec_h_c(np, tcl, t, v):
    return np.maximum(12.1 * np.sqrt(v), 2.38 * np.abs(tcl - t) ** 0.25)


@contract('C05', ['core.ot_target_pmv._get_h_hum', 'core.ot_target_pmv._get_theta_cl_is_n', 'core.ot_target_pmv.get_h_hum_c_is_n',
                  'core.ot_target_pmv.get_h_hum_r_is_n'], trials=100)
def converged_body_coefficients(g, W):
    """the iteration solves the surface balance of the clothing, and the coefficients are those at the temperature it finds"""
    np = g.np
    I = g.dim('I')
    t = g.real('t', I, 1, lo=5.0, hi=40.0)
    mrt = g.real('mrt', I, 1, lo=5.0, hi=40.0)
    clo = g.real('clo', lo=0.0, hi=2.0)
    v = g.real('v', I, 1, lo=0.0, hi=0.4)
    any_t, found = g.real('any', I, 1, lo=5.0, hi=40.0), g.real('found', I, 1, lo=5.0, hi=40.0)
    seen = []

    def newton(func, x0):
        seen.append(func)
        return found
    g.replace('core.ot_target_pmv', 'newton', newton, 'scipy.optimize.newton returns a root of the function it is given')
    hc, hr = W['core.ot_target_pmv']._get_h_hum(theta_mrt_is_n=mrt, theta_r_is_n=t, clo_is_n=clo, v_hum_is_n=v, method='convergence')
    g.eq('radiative coefficient', hr, spec_h_r(found, mrt))
    g.eq('convective coefficient', hc, spec_h_c(np, found, t, v))
    a, b = spec_h_r(any_t, mrt), spec_h_c(np, any_t, t, v)
    icl = spec_icl(clo)
    fcl = spec_fcl(np, icl)
    ot = (a * mrt + b * t) / (a + b)
    g.eq('balance of the clothing surface', seen[-1](any_t), (35.7 - 0.028 * MET - ot) / (1 + icl * fcl * (a + b)) + ot - any_t, abs_tol=1e-7)


@contract(['C04', 'C05'], ['core.ot_target_pmv.get_ot_target_and_h_hum_with_pmv', 'core.ot_target_pmv._get_h_hum_and_pmv'], trials=150, timeout=200)
def mode_and_targets_with_any_body_coefficients(g, W):
    """whatever the coefficients depend on: each clothing is judged with its own coefficients at the air speed of the old mode, and the
    target, the coefficients handed on and the remarks are those of the clothing and the air speed of the new mode"""
    np = g.np
    s = state(g, W)
    M, I = s['M'], s['I']
    c = [g.real('c%d' % k, lo=0.1, hi=3.0) for k in range(8)]
    hc_of = lambda mrt, t, clo, v: c[0] + c[1] * clo + c[2] * v + 0.01 * c[3] * (t - mrt)
    hr_of = lambda mrt, t, clo, v: c[4] + c[5] * clo + c[6] * v + 0.01 * c[7] * (t + mrt)

    def h_hum(theta_mrt_is_n, theta_r_is_n, clo_is_n, v_hum_is_n, method):
        a = (theta_mrt_is_n, theta_r_is_n, clo_is_n, v_hum_is_n)
        return hc_of(*a), hr_of(*a)
    g.replace('core.ot_target_pmv', '_get_h_hum', h_hum)
    k = [g.real('k%d' % j, lo=-1.0, hi=1.0) for j in range(9)]
    pmv_of = lambda t, clo, p, h, ot: 0.05 * k[0] * (t - 20.0) + k[1] * clo + 0.0005 * k[2] * p + 0.05 * k[3] * h + 0.1 * k[4] * (ot - 20.0)
    ot_of = lambda clo, p, h, target: 20.0 + k[5] * clo + 0.001 * k[6] * p + k[7] * h + k[8] * target
    g.replace('core.ot_target_pmv', 'get_pmv_is_n', lambda theta_r_is_n, clo_is_n, p_a_is_n, h_hum_is_n, theta_ot_is_n: pmv_of(
        theta_r_is_n, clo_is_n, p_a_is_n, h_hum_is_n, theta_ot_is_n), 'get_pmv_is_n by its own contract (C05 comfort_index)')
    g.replace('core.ot_target_pmv', 'get_theta_ot_target', lambda clo_is_n, p_a_is_n, h_hum_is_n, pmv_target_is_n: ot_of(
        clo_is_n, p_a_is_n, h_hum_is_n, pmv_target_is_n), 'get_theta_ot_target by its own contract (C05 target_inverts_index)')
    hc, hr, mode, ot, rem = W['core.ot_target_pmv'].get_ot_target_and_h_hum_with_pmv(
        x_r_is_n=s['x'], operation_mode_is_n_mns=s['prev'], is_radiative_heating_is=s['rh'], is_radiative_cooling_is=s['rc'],
        theta_r_is_n=s['t'], theta_mrt_is_n=s['mrt'], ac_demand_is_n=s['d'], method='convergence')
    speed = lambda m: np.where(((m == M.HEATING) & ~s['rh']) | ((m == M.COOLING) & ~s['rc']), 0.2, np.where(m == M.STOP_OPEN, 0.1, 0.0))
    p = spec_p_v(s['x'])
    v = speed(s['prev'])
    pmv = []
    for clo in (1.1, 0.7, 0.3):
        a, b = hc_of(s['mrt'], s['t'], clo, v), hr_of(s['mrt'], s['t'], clo, v)
        pmv.append(pmv_of(s['t'], clo, p, a + b, (b * s['mrt'] + a * s['t']) / (a + b)))
    want = spec_mode(np, M, s['d'], s['prev'], *pmv)
    near = np.zeros((I, 1)) > 1.0
    if not g.symbolic:
        import numpy
        for q in pmv:
            for th in (0.7, -0.7, 0.0):
                near = near | (numpy.abs(q - th) < 1e-9)
    g.eq('mode', mode, want, when=~near)
    heats, cools = mode == M.HEATING, mode == M.COOLING
    clo = np.where(heats, 1.1, np.where(cools, 0.3, 0.7))
    target = np.where(heats, -0.5, np.where(cools, 0.5, 0.0))
    v = speed(mode)
    a, b = hc_of(s['mrt'], s['t'], clo, v), hr_of(s['mrt'], s['t'], clo, v)
    g.eq('convective coefficient', hc, a)
    g.eq('radiative coefficient', hr, b)
    g.eq('target', ot, ot_of(clo, p, a + b, target), when=heats | cools)
    col = lambda x: g.arr(x).reshape(-1, 1)
    g.eq('remarks: air speed', col(g.each(rem, lambda r: r['v_hum m/s'])), v)
    g.eq('remarks: clothing', col(g.each(rem, lambda r: r['clo'])), clo)
    g.eq('remarks: target', col(g.each(rem, lambda r: r['pmv_target'])), target)
