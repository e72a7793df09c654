"""C03: heating and cooling loads"""
import numpy
from ..contract import contract


@contract('C03', 'core.next_condition.get_load_and_temp', trials=80)
def load_and_temp_linear_solve(g, W):
    """kt.theta = kc.lc + kr.lr + k; each of theta, lc, lr is its set value exactly where it is prescribed"""
    np = g.np
    I = g.dim('I')
    kt = g.real('kt', I, I, lo=-5.0, hi=50.0, num=lambda a: a * 0.05 + 20.0 * numpy.identity(I))
    kr = g.real('kr', I, I, lo=-5.0, hi=5.0, num=lambda a: a * 0.1 + 2.0 * numpy.identity(I))
    k = g.real('k', I, 1, lo=-500.0, hi=500.0)
    kc = np.identity(I)
    # exactly one of the three is unknown in every room
    what = g.enum('unknown', ['theta', 'lc', 'lr'], I, 1)
    nt = np.where(what == 'theta', 1, 0)
    c = np.where(what == 'lc', 1, 0)
    r = np.where(what == 'lr', 1, 0)
    th = g.real('theta_set', I, 1, lo=-20.0, hi=40.0)
    lr_set = g.real('lr_set', I, 1, lo=-2000.0, hi=2000.0)
    lc_set = g.real('lc_set', I, 1, lo=-2000.0, hi=2000.0)
    theta, lc, lr = W['core.next_condition'].get_load_and_temp(
        kt, kc, kr, k, nt.copy(), th.copy(), c.copy(), lc_set.copy(), r.copy(), lr_set.copy())
    g.eq('linear equation', np.dot(kt, theta), lc + np.dot(kr, lr) + k, abs_tol=1e-6, scale=500.0)
    g.eq('prescribed temperature', theta, th, when=nt == 0)
    g.eq('prescribed convective load', lc, lc_set, when=c == 0)
    g.eq('prescribed radiant load', lr, lr_set, when=r == 0)


@contract('C03', 'core.next_condition.calc_next_temp_and_load', trials=300, timeout=200)
def loads_meet_target_or_capacity(g, W):
    """rooms not called get no load; called rooms reach the demand-weighted target; radiant first, clamped at capacity,
    convection takes the remainder; the building equation holds throughout"""
    np = g.np
    M = W['core.operation_mode'].OperationMode
    I = g.dim('I')
    kt = g.real('kt', I, I, lo=-5.0, hi=60.0, num=lambda a: (a - 60) / 13.0 + 45.0 * numpy.identity(I))
    kr = g.real('kr', I, I, lo=0.0, hi=1.0, num=lambda a: 0.15 * a + 0.6 * numpy.identity(I))
    k = g.real('k', I, 1, lo=-1500.0, hi=3000.0)
    mode = g.enum('mode', [M.HEATING, M.COOLING, M.STOP_OPEN, M.STOP_CLOSE], I, 1)
    rad_h = g.bool('rad_h', I, 1)
    rad_c = g.bool('rad_c', I, 1)
    lower = g.real('lower', I, 1, lo=10.0, hi=25.0)
    upper = g.real('upper', I, 1, lo=20.0, hi=32.0)
    cap_h = g.real('cap_h', I, 1, lo=0.0, hi=900.0)
    cap_c = g.real('cap_c', I, 1, lo=0.0, hi=900.0)
    d = g.real('demand', I, 1, lo=0.0, hi=1.0)
    calls = []
    if g.symbolic:
        def by_contract(kt_, kc_, kr_, k_, nt_, theta_set_, c_, lc_set_, r_, lr_set_):
            # the contract of get_load_and_temp (load_and_temp_linear_solve above)
            n = len(calls)
            g.eq('call %d: exactly one unknown per room' % n, nt_ + c_ + r_, 1.0)
            v = g.real('V%d' % n, I, 1)
            th = v * nt_ + theta_set_ * (1 - nt_)
            lc_ = v * c_ + lc_set_ * (1 - c_)
            lr_ = v * r_ + lr_set_ * (1 - r_)
            g.hyp(np.dot(kt_, th), np.dot(kc_, lc_) + np.dot(kr_, lr_) + k_)
            calls.append([x.copy() for x in (kt_, kr_, k_, nt_, theta_set_, c_, lc_set_, r_, lr_set_, v)])
            return th, lc_, lr_
        g.stub('core.next_condition', 'get_load_and_temp', by_contract, 'get_load_and_temp by its own contract')
    theta, lc, lr = W['core.next_condition'].calc_next_temp_and_load(
        is_radiative_heating_is=rad_h, is_radiative_cooling_is=rad_c, brc_ot_is_n=k, brm_ot_is_is_n=kt, brl_ot_is_is_n=kr,
        theta_lower_target_is_n=lower, theta_upper_target_is_n=upper, lr_h_max_cap_is=cap_h, lr_cs_max_cap_is=cap_c,
        operation_mode_is_n=mode, ac_demand_is_n=d)
    g.eq('building equation', np.dot(kt, theta), lc + np.dot(kr, lr) + k, abs_tol=1e-6, scale=500.0)
    # specification
    nat = np.dot(np.linalg.inv(kt), k)
    heats = (mode == M.HEATING) & (nat < lower)
    cools = (mode == M.COOLING) & (upper < nat)
    called = heats | cools
    target = np.where(heats, lower * d + nat * (1.0 - d), np.where(cools, upper * d + nat * (1.0 - d), 0.0))
    g.eq('not called: no convective load', lc, 0.0, when=~called, abs_tol=1e-6)
    g.eq('not called: no radiant load', lr, 0.0, when=~called, abs_tol=1e-6)
    g.eq('called: demand-weighted target', theta, target, when=called)
    rad = (heats & rad_h) | (cools & rad_c)
    g.eq('no radiant system: convection only', lr, 0.0, when=~rad, abs_tol=1e-6)
    if g.symbolic and len(calls) != 2:
        g.unsupported('get_load_and_temp is not called twice')
    # the loads with every radiant system carrying its room alone
    nt = np.where(called, 0.0, 1.0)
    c = np.where(called & ~rad, 1.0, 0.0)
    r = np.where(rad, 1.0, 0.0)
    if g.symbolic:
        ks, rs, k1, nt1, th1, c1, lcs1, r1, lrs1, v = calls[0]
        for n, a, b in (('kt', ks, kt), ('kr', rs, kr), ('k', k1, k), ('nt', nt1, nt), ('target', th1, target), ('c', c1, c),
                        ('r', r1, r), ('lr_set', lrs1, 0.0), ('lc_set', lcs1, 0.0)):
            g.eq('first solve is the unclamped one: ' + n, a, b)
    else:
        v = np.dot(np.linalg.inv(kt * nt.T - np.identity(I) * c.T - kr * r.T), k - np.dot(kt, target))
    alone = v * r
    over = cap_h < alone
    under = alone < -cap_c
    if not g.symbolic:
        # stay away from the rounding of the comparison itself
        tie = (abs(alone - cap_h) < 1e-6) | (abs(alone + cap_c) < 1e-6)
        if bool(tie[rad].any()):
            return
    g.eq('beyond capacity: clamped (heating)', lr, cap_h, when=rad & over, abs_tol=1e-6)
    g.eq('beyond capacity: clamped (cooling)', lr, -cap_c, when=rad & under, abs_tol=1e-6)
    g.eq('within capacity: radiant alone', lc, 0.0, when=rad & ~over & ~under, abs_tol=1e-6)
    if not g.symbolic:
        ok = (lr <= cap_h + 1e-6) & (lr >= -cap_c - 1e-6)
        # a second room can be pushed over its capacity by the clamping of a first one (only one clamping pass is made)
        clamped_elsewhere = (rad & (over | under)).any() & (rad & ~over & ~under)
        g.holds('radiant load within capacity', ok, when=rad,
                finding=('F-C03-single-clamping-pass', (ok | clamped_elsewhere)[rad]))
