"""C01 C02 C06 C07 (C11): one time step of the building"""
import numpy
from ..contract import contract

C_AIR, RHO, L_WTR = 1005.0, 1.2, 2501000.0


class State:
    pass


def pre_calc(g, W, next_vent):
    """any parameter object that satisfies the invariant make_pre_calc_parameters establishes (contract parameters_of_a_house)"""
    np = g.np
    s = State()
    I, J, M, N = g.dim('I', 1, 3), g.dim('J', 1, 5), g.dim('M', 1, 3), g.dim('N', 1, 3)
    s.I, s.J, s.M, s.N = I, J, M, N
    s.dt = g.real('delta_t', lo=100.0, hi=3600.0)
    s.n = g.real('n', lo=0, integer=True, num=lambda v: int(v) % g.sizes['N'])
    r = lambda name, *d, lo, hi, **k: g.real(name, *d, lo=lo, hi=hi, **k)
    s.v_room = r('v_room', I, 1, lo=10.0, hi=150.0)
    s.c_room = r('c_room', I, 1, lo=1e4, hi=2e5)
    s.c_sh, s.g_sh = r('c_sh', I, 1, lo=1e4, hi=1e6), r('g_sh', I, 1, lo=1.0, hi=200.0)
    s.c_lh, s.g_lh = r('c_lh', I, 1, lo=100.0, hi=3000.0), r('g_lh', I, 1, lo=0.1, hi=6.0)
    s.demand = r('demand', I, N, lo=0.0, hi=1.0)
    s.n_hum = r('n_hum', I, N, lo=0.0, hi=4.0)
    s.q_gen, s.x_gen = r('q_gen', I, N, lo=0.0, hi=500.0), r('x_gen', I, N, lo=0.0, hi=1e-4)
    s.v_mec = r('v_mec', I, N, lo=0.0, hi=0.1)
    s.q_frt = r('q_sol_frt', I, N, lo=0.0, hi=500.0)
    s.v_ntrl = r('v_ntrl', I, 1, lo=0.0, hi=0.2)
    s.beta = r('beta', I, 1, lo=0.05, hi=1.0)
    s.v_int = r('v_int', I, I, lo=0.0, hi=0.05) if next_vent else np.zeros((I, I))
    s.p = r('p', I, J, lo=0.05, hi=1.0)
    s.pt = s.p.T
    s.fmrt = r('f_mrt', I, J, lo=0.0, hi=0.4)
    s.fhum = r('f_mrt_hum', I, J, lo=0.0, hi=0.4)
    s.flr = r('flr', J, I, lo=0.0, hi=1.0)
    s.kei = r('k_ei', J, J, lo=0.0, hi=0.3)
    s.a = r('a', J, 1, lo=0.5, hi=60.0)
    s.hc, s.hr = r('h_c', J, 1, lo=0.5, hi=8.0), r('h_r', J, 1, lo=1.0, hi=8.0)
    s.hi = s.hc + s.hr
    s.a0, s.t0 = r('phi_a0', J, 1, lo=0.0, hi=0.08), r('phi_t0', J, 1, lo=0.0, hi=0.6)
    s.a1, s.t1, s.row = r('phi_a1', J, M, lo=-0.05, hi=0.05), r('phi_t1', J, M, lo=-0.05, hi=0.05), r('row', J, M, lo=0.0, hi=0.99)
    s.q_sol = r('q_sol', J, N, lo=0.0, hi=300.0)
    s.dstrb = r('theta_dstrb', J, N, lo=-20.0, hi=60.0)
    s.theta_o, s.x_o = r('theta_o', N, lo=-20.0, hi=40.0), r('x_o', N, lo=0.0, hi=0.03)
    s.rad_h, s.rad_c = g.bool('rad_h', I, 1), g.bool('rad_c', I, 1)
    s.cap_h, s.cap_c = r('cap_h', I, 1, lo=0.0, hi=3000.0), r('cap_c', I, 1, lo=0.0, hi=3000.0)
    qmin, dq = r('q_min', I, 1, lo=300.0, hi=600.0), r('dq', I, 1, lo=500.0, hi=4000.0)
    vmin, dv = r('v_min', I, 1, lo=6.0, hi=10.0), r('dv', I, 1, lo=0.0, hi=4.0)
    # the invariant
    s.rw = np.dot(s.pt, s.fmrt)                       # [j, l]: weight of surface l in the radiant temperature seen by j
    s.flr1 = s.flr * (1.0 - s.beta.T)
    ax = np.diag(1.0 + (s.a0 * s.hi).flatten()) - s.rw * s.hr * s.a0 - np.dot(s.kei, s.rw) * s.hr * s.t0 / s.hi
    fia = s.a0 * s.hc * s.pt + np.dot(s.kei, s.pt) * s.t0 * s.hc / s.hi
    crx = s.a0 * s.q_sol + s.t0 / s.hi * np.dot(s.kei, s.q_sol) + s.t0 * s.dstrb
    flb = s.flr1 * s.a0 / s.a + np.dot(s.kei, s.flr1) * s.t0 / s.hi / s.a
    if g.symbolic:
        # any matrices; their defining equations enter in `surface_equations`
        inv, wsr, wsc, wsb = g.real('INV', J, J), g.real('WSR', J, I), g.real('WSC', J, N), g.real('WSB', J, I)
    else:
        inv = np.linalg.inv(ax)
        wsr, wsc, wsb = np.dot(inv, fia), np.dot(inv, crx), np.dot(inv, flb)
    s.ax, s.fia, s.crx, s.flb, s.inv, s.wsr, s.wsc, s.wsb = ax, fia, crx, flb, inv, wsr, wsc, wsb
    brl = np.dot(s.p, wsb * s.hc * s.a) + np.diag(s.beta.flatten())
    brm = np.diag(s.c_room.flatten() / s.dt) + np.dot(s.p, (s.pt - wsr) * s.a * s.hc) \
        + np.diag((s.c_sh * s.g_sh / (s.c_sh + s.g_sh * s.dt)).flatten())
    m = W['core.operation_mode'].OperationMode
    s.mode = g.enum('mode', [m.HEATING, m.COOLING, m.STOP_OPEN, m.STOP_CLOSE], I, 1)
    s.hhc, s.hhr = r('hum_c', I, 1, lo=1.0, hi=8.0), r('hum_r', I, 1, lo=1.0, hi=8.0)
    s.lower = lower = r('lower', I, 1, lo=16.0, hi=22.0)
    s.upper = upper = r('upper', I, 1, lo=24.0, hi=29.0)
    s.leak = r('v_leak', I, 1, lo=0.0, hi=0.05)
    s.seen = {}

    def get_ot(**k):
        s.seen['ot'] = k
        return s.hhc, s.hhr, s.mode, lower, upper, g.records(I, lambda at, k: {'pmv': 0.0})

    def get_leak(**k):
        s.seen['leak'] = k
        return s.leak
    s.M_ = m
    s.ss = W['core.pre_calc_parameters'].PreCalcParameters(
        n_spaces=I, id_space_is=None, name_space_is=None, v_room_is=s.v_room, c_room_is=s.c_room, c_sh_frt_is=s.c_sh, c_lh_frt_is=s.c_lh,
        g_sh_frt_is=s.g_sh, g_lh_frt_is=s.g_lh, v_int_vent_is_is=s.v_int, name_bdry_js=None, sub_name_bdry_js=None, a_srf_js=s.a,
        v_mec_vent_is_ns=s.v_mec, q_gen_is_ns=s.q_gen, n_hum_is_ns=s.n_hum, x_gen_is_ns=s.x_gen, f_mrt_hum_is_js=s.fhum,
        theta_dstrb_js_ns=s.dstrb, n_bdries=J, r_js_ms=s.row, phi_t0_js=s.t0, phi_a0_js=s.a0, phi_t1_js_ms=s.t1, phi_a1_js_ms=s.a1,
        q_trs_sol_is_ns=s.q_frt * 2.0, v_ntrl_vent_is=s.v_ntrl, ac_demand_is_ns=s.demand, is_radiative_heating_is=s.rad_h,
        is_radiative_cooling_is=s.rad_c, lr_h_max_cap_is=s.cap_h, lr_cs_max_cap_is=s.cap_c, flr_js_is=s.flr, h_r_js=s.hr, h_c_js=s.hc,
        f_mrt_is_js=s.fmrt, q_sol_js_ns=s.q_sol, q_sol_frt_is_ns=s.q_frt, beta_is=s.beta, wsr_js_is=wsr, wsb_js_is=wsb,
        brm_non_vent_is_is=brm, ivs_ax_js_js=inv, brl_is_is=brl, p_is_js=s.p, p_js_is=s.pt, is_ground_js=g.bool('is_ground', J, 1),
        wsc_js_ns=wsc, k_ei_js_js=s.kei, theta_o_ns=s.theta_o, x_o_ns=s.x_o, theta_o_ave=15.0,
        rac_spec=dict(v_min=vmin, v_max=vmin + dv, q_min=qmin, q_max=qmin + dq),
        get_ot_target_and_h_hum=get_ot, get_infiltration=get_leak)
    return s


def surface_equations(g, s, th, lr, cvl):
    """the invariant AX.WSR = FIA, AX.WSC = CRX, AX.WSB = FLB, AX.inv = I, multiplied with the vectors of the step"""
    np = g.np
    at = lambda a: a[:, s.n].reshape(-1, 1)
    g.hyp(np.dot(s.ax, np.dot(s.wsr, th)), np.dot(s.fia, th))
    g.hyp(np.dot(s.ax, at(s.wsc)), at(s.crx))
    g.hyp(np.dot(s.ax, np.dot(s.wsb, lr)), np.dot(s.flb, lr))
    g.hyp(np.dot(s.ax, np.dot(s.inv, cvl)), cvl)


def old_state(g, W, s):
    I, J, M = s.I, s.J, s.M
    m = s.M_
    c = State()
    c.mode = g.enum('mode_old', [m.HEATING, m.COOLING, m.STOP_OPEN, m.STOP_CLOSE], I, 1)
    c.tr, c.mrt = g.real('tr', I, 1, lo=0.0, hi=40.0), g.real('mrt', I, 1, lo=0.0, hi=40.0)
    c.x, c.xf = g.real('x', I, 1, lo=0.0, hi=0.03), g.real('xf', I, 1, lo=0.0, hi=0.03)
    c.tf = g.real('tf', I, 1, lo=0.0, hi=40.0)
    c.ta, c.tt = g.real('ta', J, M, lo=-2.0, hi=2.0), g.real('tt', J, M, lo=-2.0, hi=2.0)
    c.q, c.ei = g.real('q', J, 1, lo=-50.0, hi=50.0), g.real('ei', J, 1, lo=0.0, hi=40.0)
    c.c = W['core.conditions'].Conditions(
        operation_mode_is_n=c.mode, theta_r_is_n=c.tr, theta_mrt_hum_is_n=c.mrt, x_r_is_n=c.x, theta_dsh_srf_a_js_ms_n=c.ta,
        theta_dsh_srf_t_js_ms_n=c.tt, q_srf_js_n=c.q, theta_frt_is_n=c.tf, x_frt_is_n=c.xf, theta_ei_js_n=c.ei)
    return c


def stubs(g, s):
    """callees by their own contracts"""
    np = g.np
    s.calls = {}
    if not g.symbolic:
        return

    def load(is_radiative_heating_is, is_radiative_cooling_is, brc_ot_is_n, brm_ot_is_is_n, brl_ot_is_is_n, theta_lower_target_is_n,
             theta_upper_target_is_n, lr_h_max_cap_is, lr_cs_max_cap_is, operation_mode_is_n, ac_demand_is_n):
        th, lc, lr = g.real('OT', s.I, 1), g.real('LC', s.I, 1), g.real('LR', s.I, 1)
        g.hyp(np.dot(brm_ot_is_is_n, th), lc + np.dot(brl_ot_is_is_n, lr) + brc_ot_is_n)
        s.calls['load'] = dict(th=th, lc=lc, lr=lr, rh=is_radiative_heating_is, rc=is_radiative_cooling_is, caph=lr_h_max_cap_is,
                               capc=lr_cs_max_cap_is, mode=operation_mode_is_n, demand=ac_demand_is_n)
        return th, lc, lr

    def dehumid(lcs_is_n, theta_r_is_npls, rac_spec, x_r_non_dh_is_n):
        s.calls['dh'] = dict(lc=lcs_is_n, th=theta_r_is_npls, rac=rac_spec, x=x_r_non_dh_is_n)
        return np.diag(g.real('RACM', s.I)), g.real('RACC', s.I, 1)
    g.stub('core.next_condition', 'calc_next_temp_and_load', load, 'calc_next_temp_and_load by its own contract (C03: the loads satisfy the building equation)')
    g.stub('core.heat_exchanger', 'get_dehumid_coeff', dehumid, 'get_dehumid_coeff by its own contract (C08)')


def run(g, W, next_vent, run_up=False):
    np = g.np
    s = pre_calc(g, W, next_vent)
    c = old_state(g, W, s)
    stubs(g, s)
    log = W['core.log'].Logger(n_spaces=s.I, n_boundaries=s.J, n_step_main=s.N)
    k = W['core.sequence'].run_tick(n=s.n, delta_t=s.dt, ss=s.ss, c_n=c.c, logger=log, run_up=run_up)
    s.lc = log.l_cs[:, s.n].reshape(-1, 1)
    s.lr = log.l_rs[:, s.n].reshape(-1, 1)
    s.lcl = log.l_cl[:, s.n].reshape(-1, 1)
    s.at = lambda a: a[:, s.n].reshape(-1, 1)
    s.open = np.where(s.mode == s.M_.STOP_OPEN, s.v_ntrl, 0.0)
    s.v_out = s.leak + s.at(s.v_mec) + s.open
    s.q_hum = np.minimum(63.0 - 4.0 * (c.tr - 24.0), 119.0)
    s.ts = s.at(log.theta_s)
    s.ot = s.at(log.theta_ot)
    return s, c, log, k


def heat_balance(g, s, c, k, inter):
    """right hand side minus stored heat, W"""
    np = g.np
    room = np.dot(s.pt, k.theta_r_is_n)
    surf = np.dot(s.p, s.hc * s.a * s.ts) - np.dot(s.p, s.hc * s.a * room)
    air = C_AIR * RHO * s.v_out * (s.theta_o[s.n] - k.theta_r_is_n)
    return surf + air + C_AIR * RHO * inter + s.at(s.q_gen) + s.q_hum * s.at(s.n_hum) + s.g_sh * (k.theta_frt_is_n - k.theta_r_is_n) \
        + s.lc + s.beta * s.lr


@contract('C01', ['core.sequence.run_tick', 'core.next_condition.calc_next_temp_and_load', 'core.occupants.get_q_hum_psn_is_n'],
          trials=120, timeout=300)
def sensible_heat_balance_of_a_step(g, W):
    """stored heat of room air and furniture equals what they exchange at the new temperatures; operative temperature is the weighting of
    the new room and radiant temperatures"""
    np = g.np
    s, c, log, k = run(g, W, False)
    g.eq('furniture balance', s.c_sh * (k.theta_frt_is_n - c.tf) / s.dt, s.g_sh * (k.theta_r_is_n - k.theta_frt_is_n) + s.at(s.q_frt),
         abs_tol=1e-6, scale=1000.0)
    g.eq('radiant temperature seen by the occupant', k.theta_mrt_hum_is_n, np.dot(s.fhum, s.ts))
    g.eq('operative temperature', s.ot, (s.hhc * k.theta_r_is_n + s.hhr * k.theta_mrt_hum_is_n) / (s.hhc + s.hhr), abs_tol=1e-7)
    g.eq('room air balance', s.c_room * (k.theta_r_is_n - c.tr) / s.dt, heat_balance(g, s, c, k, 0.0), abs_tol=1e-5, scale=5000.0)


@contract('C02', ['core.sequence.run_tick'], trials=150, timeout=300)
def surface_heat_balance_of_a_step(g, W):
    """surface temperature = absorbed response of the new flow + through response of the new rear temperature + carried components;
    components advance by their ratio; flow = convection + long-wave + sunshine + radiant heating"""
    np = g.np
    s, c, log, k = run(g, W, False)
    th = k.theta_r_is_n
    rear_old = np.dot(s.kei, c.ei) + s.at(s.dstrb)
    g.eq('temperature behind', s.at(log.theta_rear), rear_old)
    g.eq('absorbed components', k.theta_dsh_srf_a_js_ms_n, s.a1 * c.q + s.row * c.ta)
    g.eq('through components', k.theta_dsh_srf_t_js_ms_n, s.t1 * rear_old + s.row * c.tt)
    flow = s.hc * (np.dot(s.pt, th) - s.ts) + s.hr * (np.dot(s.rw, s.ts) - s.ts) + s.at(s.q_sol) + np.dot(s.flr1, s.lr) / s.a
    g.eq('surface heat flow', k.q_srf_js_n, flow, abs_tol=1e-6, scale=100.0)
    ei = s.ts + flow / s.hi
    g.eq('equivalent temperature', k.theta_ei_js_n, ei, abs_tol=1e-7, scale=20.0)
    # the temperature behind at the new state; the finding: coefficients of the surface itself instead of those of the boundary behind
    rear = np.dot(s.kei, k.theta_ei_js_n) + s.at(s.dstrb)

    def own():
        return (np.dot(s.kei, np.dot(s.pt, th)) * s.hc + np.dot(s.kei, np.dot(s.rw, s.ts)) * s.hr + np.dot(s.kei, s.at(s.q_sol))
                + np.dot(s.kei, np.dot(s.flr1, s.lr)) / s.a) / s.hi + s.at(s.dstrb)
    carried = np.sum(k.theta_dsh_srf_a_js_ms_n + k.theta_dsh_srf_t_js_ms_n, axis=1, keepdims=True)
    resp = lambda behind: s.a0 * k.q_srf_js_n + s.t0 * behind + carried
    surface_equations(g, s, th, s.lr, carried)
    g.eq('surface temperature', s.ts, resp(rear), abs_tol=1e-7, scale=20.0,
         finding=('F-C02-rear-coefficients', lambda: resp(own())))


@contract('C07', ['core.sequence.run_tick', 'core.heat_exchanger.get_dehumid_coeff', 'core.occupants.get_x_hum_psn_is_n'], trials=150, timeout=300)
def moisture_balance_of_a_step(g, W):
    """stored water of room air and furniture equals what they exchange at the new humidities; latent load = water removed x heat of evaporation"""
    np = g.np
    s, c, log, k = run(g, W, False)
    x = k.x_r_is_n
    removed = -s.lcl / L_WTR
    g.eq('furniture moisture', s.c_lh * (k.x_frt_is_n - c.xf) / s.dt, s.g_lh * (x - k.x_frt_is_n), abs_tol=1e-9, scale=0.01)
    x_hum = (119.0 - s.q_hum) / L_WTR * s.at(s.n_hum)
    g.eq('room moisture balance', RHO * s.v_room * (x - c.x) / s.dt,
         RHO * s.v_out * (s.x_o[s.n] - x) + s.g_lh * (k.x_frt_is_n - x) + s.at(s.x_gen) + x_hum - removed, abs_tol=1e-10, scale=1e-2)
    if g.symbolic:
        if 'dh' not in s.calls:
            g.unsupported('the coil model is not called')
        d = s.calls['dh']
        g.eq('water removed by the coil', removed, g.real('RACM', s.I).reshape(-1, 1) * x - g.real('RACC', s.I, 1))
        g.eq('coil sees the convective load', d['lc'], s.lc)
        g.eq('coil sees the new room temperature', d['th'], k.theta_r_is_n)
        dry = RHO * s.v_room * (d['x'] - c.x) / s.dt - (RHO * s.v_out * (s.x_o[s.n] - d['x']) + s.at(s.x_gen) + x_hum) \
            - s.g_lh * ((s.c_lh * c.xf + s.dt * s.g_lh * d['x']) / (s.c_lh + s.dt * s.g_lh) - d['x'])
        g.eq('coil sees the humidity without removal', dry, 0.0)
        for n in ('v_min', 'v_max', 'q_min', 'q_max'):
            g.eq('coil sees the equipment', d['rac'][n], s.ss.rac_spec[n])
    else:
        A, b = W['core.heat_exchanger'].get_dehumid_coeff(lcs_is_n=s.lc, theta_r_is_npls=k.theta_r_is_n, rac_spec=s.ss.rac_spec,
                                                          x_r_non_dh_is_n=undehumidified(s, c))
        g.eq('water removed by the coil', removed, numpy.dot(A, x) - b, abs_tol=1e-10)


def undehumidified(s, c):
    f = s.c_lh * s.g_lh / (s.c_lh + s.dt * s.g_lh)
    x_hum = (119.0 - s.q_hum) / L_WTR * s.at(s.n_hum)
    A = RHO * numpy.diag((s.v_room / s.dt + s.v_out).flatten()) + numpy.diag(f.flatten())
    return numpy.linalg.solve(A, RHO * (s.v_room / s.dt * c.x + s.v_out * s.x_o[s.n]) + f * c.xf + s.at(s.x_gen) + x_hum)


@contract('C06', ['core.sequence.run_tick'], trials=100, timeout=300)
def air_between_rooms(g, W):
    """air from another room brings its heat and moisture and displaces air of the receiving room"""
    np = g.np
    s, c, log, k = run(g, W, True)
    th, x = k.theta_r_is_n, k.x_r_is_n
    inflow = np.sum(s.v_int, axis=1, keepdims=True)
    stored = s.c_room * (th - c.tr) / s.dt
    g.eq('heat', stored, heat_balance(g, s, c, k, np.dot(s.v_int, th) - inflow * th), abs_tol=1e-5, scale=5000.0,
         finding=('F-C06-inter-room-heat', lambda: heat_balance(g, s, c, k, 0.0 - np.dot(s.v_int, th))))
    x_hum = (119.0 - s.q_hum) / L_WTR * s.at(s.n_hum)
    rest = RHO * s.v_out * (s.x_o[s.n] - x) + s.g_lh * (k.x_frt_is_n - x) + s.at(s.x_gen) + x_hum + s.lcl / L_WTR
    g.eq('moisture', RHO * s.v_room * (x - c.x) / s.dt, rest + RHO * (np.dot(s.v_int, x) - inflow * x), abs_tol=1e-10, scale=1e-2,
         finding=('F-C06-inter-room-moisture', lambda: rest + RHO * np.dot(s.v_int, x)))


@contract('C11', ['core.sequence.run_tick'], trials=80, timeout=300)
def a_step_records_its_own_row(g, W):
    """a step of the main period writes its own results into its own column and nothing else; a run-up step records nothing; the step hands
    old state and outdoor temperature of its own time to the models it calls"""
    np = g.np
    run_up = g.choice('run_up', [False, True])
    s, c, log, k = run(g, W, True, run_up)
    pairs = [('operation_mode', k.operation_mode_is_n), ('theta_r', k.theta_r_is_n), ('theta_mrt_hum', k.theta_mrt_hum_is_n), ('x_r', k.x_r_is_n),
             ('theta_frt', k.theta_frt_is_n), ('x_frt', k.x_frt_is_n), ('theta_ei', k.theta_ei_js_n), ('qiall_s', k.q_srf_js_n),
             ('q_hum', s.q_hum * s.at(s.n_hum)), ('x_hum', (119.0 - s.q_hum) / L_WTR * s.at(s.n_hum)), ('v_reak_is_ns', s.leak),
             ('v_ntrl_is_ns', s.open), ('h_hum_c_is_n', s.hhc), ('h_hum_r_is_n', s.hhr)]
    if g.symbolic and 'load' in s.calls:
        pairs += [('l_cs', s.calls['load']['lc']), ('l_rs', s.calls['load']['lr']), ('theta_ot', s.calls['load']['th'])]
    fresh = W['core.log'].Logger(n_spaces=s.I, n_boundaries=s.J, n_step_main=s.N)
    for name, v in pairs:
        a, z = getattr(log, name), getattr(fresh, name)
        if run_up:
            if name != 'operation_mode':
                g.eq(name + ' untouched', a, z)
            continue
        if name == 'operation_mode':
            g.eq(name, a[:, s.n].reshape(-1, 1), v)
            continue
        g.eq(name, a, np.where(np.arange(s.N) == s.n, v, z))
    g.eq('mode handed on', k.operation_mode_is_n, s.mode)
    o, l = s.seen['ot'], s.seen['leak']
    g.eq('comfort model sees the old humidity', o['x_r_is_n'], c.x)
    g.eq('comfort model sees the old temperature', o['theta_r_is_n'], c.tr)
    g.eq('comfort model sees the old radiant temperature', o['theta_mrt_hum_is_n'], c.mrt)
    g.eq('comfort model sees the old mode', o['operation_mode_is_n_mns'], c.mode)
    g.eq('comfort model sees the demand of the step', o['ac_demand_is_n'], s.at(s.demand))
    g.eq('infiltration sees the old temperature', l['theta_r_is_n'], c.tr)
    g.eq('infiltration sees the outdoor temperature', l['theta_o_n'], s.theta_o[s.n])


@contract('C21', ['core.sequence.run_tick'], trials=60, timeout=200)
def people_of_a_step(g, W):
    """each person of the step, however many, gives off 119 W: heat by the temperature of the room, the rest as moisture"""
    np = g.np
    s, c, log, k = run(g, W, True)
    heat, vapour = s.at(log.q_hum), s.at(log.x_hum)
    g.eq('sensible heat', heat, np.minimum(63.0 - 4.0 * (c.tr - 24.0), 119.0) * s.at(s.n_hum))
    g.eq('heat and moisture', heat + vapour * L_WTR, 119.0 * s.at(s.n_hum))


@contract(['C04', 'C05'], ['core.sequence.run_tick'], trials=60, timeout=200)
def comfort_of_a_step(g, W):
    """modes and targets are decided for the present temperatures, humidity and mode of the rooms and the demand of the step; the mode goes on to the next step"""
    s, c, log, k = run(g, W, True, g.choice('run_up', [False, True]))
    o = s.seen['ot']
    for what, want in (('x_r_is_n', c.x), ('theta_r_is_n', c.tr), ('theta_mrt_hum_is_n', c.mrt), ('operation_mode_is_n_mns', c.mode), ('ac_demand_is_n', s.at(s.demand))):
        g.eq('sees ' + what, o[what], want)
    g.eq('mode of the next step', k.operation_mode_is_n, s.mode)


@contract('C22', ['core.sequence.run_tick'], trials=60, timeout=200)
def infiltration_of_a_step(g, W):
    """the infiltration of a step is that of the rooms' present temperatures and the outdoor temperature of the step, and comes in in addition to the ventilation"""
    np = g.np
    s, c, log, k = run(g, W, False)
    g.eq('room temperatures', s.seen['leak']['theta_r_is_n'], c.tr)
    g.eq('outdoor temperature', s.seen['leak']['theta_o_n'], s.theta_o[s.n])
    g.eq('reported', s.at(log.v_reak_is_ns), s.leak)
    x = k.x_r_is_n
    x_hum = (119.0 - s.q_hum) / L_WTR * s.at(s.n_hum)
    g.eq('reaches the rooms', RHO * s.leak * (s.x_o[s.n] - x), RHO * s.v_room * (x - c.x) / s.dt - (
        RHO * (s.at(s.v_mec) + s.open) * (s.x_o[s.n] - x) + s.g_lh * (k.x_frt_is_n - x) + s.at(s.x_gen) + x_hum + s.lcl / L_WTR),
        abs_tol=1e-10, scale=1e-2)


@contract(['C11', 'C01', 'C02', 'C07'], ['core.sequence.run_tick'], trials=60, timeout=200, also={
    'C04': ('modes before the start of the year are decided with the demand of the end of the year', ['comfort model', 'next operation']),
    'C22': ('the infiltration before the start of the year is that of the outdoor temperature of the end of the year', ['infiltration'])})
def a_run_up_step_uses_the_same_time_of_the_end_of_the_year(g, W):
    """the step k before the start of the year sees weather, schedules and sunshine of the step k before the end of the year and does the same with them"""
    np = g.np
    s = pre_calc(g, W, False)
    c = old_state(g, W, s)
    k = g.real('k', lo=1, integer=True, num=lambda v: 1 + int(v) % s.N)
    g.assume(k <= s.N)
    calls = []
    if g.symbolic:
        def load(is_radiative_heating_is, is_radiative_cooling_is, brc_ot_is_n, brm_ot_is_is_n, brl_ot_is_is_n, theta_lower_target_is_n,
                 theta_upper_target_is_n, lr_h_max_cap_is, lr_cs_max_cap_is, operation_mode_is_n, ac_demand_is_n):
            calls.append([brc_ot_is_n, brm_ot_is_is_n, brl_ot_is_is_n, theta_lower_target_is_n, theta_upper_target_is_n, lr_h_max_cap_is,
                          lr_cs_max_cap_is, operation_mode_is_n, ac_demand_is_n])
            return g.real('OT', s.I, 1), g.real('LC', s.I, 1), g.real('LR', s.I, 1)

        def dehumid(lcs_is_n, theta_r_is_npls, rac_spec, x_r_non_dh_is_n):
            calls.append([lcs_is_n, theta_r_is_npls, x_r_non_dh_is_n])
            return np.diag(g.real('RACM', s.I)), g.real('RACC', s.I, 1)
        g.stub('core.next_condition', 'calc_next_temp_and_load', load, 'calc_next_temp_and_load by its own contract (C03)')
        g.stub('core.heat_exchanger', 'get_dehumid_coeff', dehumid, 'get_dehumid_coeff by its own contract (C08)')
    states = []
    for n in (s.N - k, -k):
        log = W['core.log'].Logger(n_spaces=s.I, n_boundaries=s.J, n_step_main=s.N)
        states.append((W['core.sequence'].run_tick(n=n, delta_t=s.dt, ss=s.ss, c_n=c.c, logger=log, run_up=True), dict(s.seen['ot']), dict(s.seen['leak'])))
    (k1, o1, l1), (k2, o2, l2) = states
    for f in ('operation_mode_is_n', 'theta_r_is_n', 'theta_mrt_hum_is_n', 'x_r_is_n', 'theta_dsh_srf_a_js_ms_n', 'theta_dsh_srf_t_js_ms_n', 'q_srf_js_n',
              'theta_frt_is_n', 'x_frt_is_n', 'theta_ei_js_n'):
        g.eq('next ' + f, getattr(k2, f), getattr(k1, f))
    for f in o1:
        g.eq('comfort model ' + f, o2[f], o1[f])
    for f in l1:
        g.eq('infiltration ' + f, l2[f], l1[f])
    m = len(calls) // 2
    for i in range(m):
        for q in range(len(calls[i])):
            g.eq('argument %d of call %d' % (q, i), calls[m + i][q], calls[i][q])


@contract(['C03', 'C04'], ['core.sequence.run_tick'], trials=100, timeout=200, also={
    'C05': ('the targets of the comfort model are those the loads are found for', ['lower target', 'upper target', 'mode'])})
def the_step_solves_for_its_own_mode_targets_and_capacities(g, W):
    """the loads of a step are found for the mode and the targets the comfort model gave for this step, for the demand of this step and the
    declared radiant systems and capacities, and with the coefficients of the building equation of this step's operative temperature"""
    np = g.np
    s = pre_calc(g, W, False)
    c = old_state(g, W, s)
    seen = {}

    def load(is_radiative_heating_is, is_radiative_cooling_is, brc_ot_is_n, brm_ot_is_is_n, brl_ot_is_is_n, theta_lower_target_is_n,
             theta_upper_target_is_n, lr_h_max_cap_is, lr_cs_max_cap_is, operation_mode_is_n, ac_demand_is_n):
        seen.update(locals())
        return g.real('OT', s.I, 1, lo=10.0, hi=30.0), g.real('LC', s.I, 1, lo=-3000.0, hi=3000.0), g.real('LR', s.I, 1, lo=-500.0, hi=500.0)
    g.replace('core.next_condition', 'calc_next_temp_and_load', load, 'calc_next_temp_and_load by its own contract (C03)')
    if g.symbolic:
        g.stub('core.heat_exchanger', 'get_dehumid_coeff', lambda lcs_is_n, theta_r_is_npls, rac_spec, x_r_non_dh_is_n: (
            np.diag(g.real('RACM', s.I)), g.real('RACC', s.I, 1)), 'get_dehumid_coeff by its own contract (C08)')
    log = W['core.log'].Logger(n_spaces=s.I, n_boundaries=s.J, n_step_main=s.N)
    W['core.sequence'].run_tick(n=s.n, delta_t=s.dt, ss=s.ss, c_n=c.c, logger=log, run_up=False)
    g.eq('radiant heating', seen['is_radiative_heating_is'], s.rad_h)
    g.eq('radiant cooling', seen['is_radiative_cooling_is'], s.rad_c)
    g.eq('lower target', seen['theta_lower_target_is_n'], s.lower)
    g.eq('upper target', seen['theta_upper_target_is_n'], s.upper)
    g.eq('heating capacity', seen['lr_h_max_cap_is'], s.cap_h)
    g.eq('cooling capacity', seen['lr_cs_max_cap_is'], s.cap_c)
    g.eq('mode', seen['operation_mode_is_n'], s.mode)
    g.eq('demand', seen['ac_demand_is_n'], s.ss.ac_demand_is_ns[:, s.n].reshape(-1, 1))
    for name in ('theta_ot', 'l_cs', 'l_rs'):
        g.eq(name + ' recorded', getattr(log, name)[:, s.n].reshape(-1, 1), g.real(dict(theta_ot='OT', l_cs='LC', l_rs='LR')[name], s.I, 1) if g.symbolic
             else g.inputs[dict(theta_ot='OT', l_cs='LC', l_rs='LR')[name]])
