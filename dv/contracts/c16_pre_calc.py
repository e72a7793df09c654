"""C16 C17 C24 (C06): make_pre_calc_parameters - the house description as written becomes the calculation data"""
from ..contract import contract
from .c01_step import State

C_AIR, RHO = 1005.0, 1.2


def house(g, radiative=True):
    """a prepared house: rooms, boundaries and series of any number and length"""
    np = g.np
    s = State()
    I = g.dim('I', 1, 3)
    J, M, N = g.dim('J', 3 if g.symbolic else max(3, I), 6 if g.symbolic else max(6, I)), g.dim('M', 1, 3), g.dim('N', 1, 3)
    s.I, s.J, s.M, s.N = I, J, M, N
    s.dt = g.real('delta_t', lo=100.0, hi=3600.0)
    r = lambda name, *d, lo, hi, **k: g.real(name, *d, lo=lo, hi=hi, **k)
    s.vol = r('volume', I, lo=10.0, hi=150.0)
    s.beta = r('beta', I, lo=0.0, hi=1.0)
    s.mech, s.ntrl = r('mechanical', I, lo=0.0, hi=0.1), r('natural', I, lo=0.0, hi=0.2)
    s.v_int = r('next_spaces', I, I, lo=0.0, hi=0.05)
    s.c_sh, s.g_sh = r('c_sh', I, lo=1e4, hi=1e6), r('g_sh', I, lo=1.0, hi=200.0)
    s.c_lh, s.g_lh = r('c_lh', I, lo=100.0, hi=3000.0), r('g_lh', I, lo=0.1, hi=6.0)
    s.rad_h, s.rad_c = g.bool('rad_h', I), g.bool('rad_c', I)
    s.cap_h, s.cap_c = r('cap_h', I, lo=10.0, hi=3000.0), r('cap_c', I, lo=10.0, hi=3000.0)
    s.qmin, s.qmax = r('q_min', I, lo=300.0, hi=600.0), r('q_max', I, lo=900.0, hi=4000.0)
    s.vmin, s.vmax = r('v_min', I, lo=6.0, hi=10.0), r('v_max', I, lo=12.0, hi=14.0)
    s.rac = g.enum('cooling_kind', ['convective', 'other'], I)
    s.name = g.enum('room_name', ['main', 'other', 'none'], I)
    s.conn = g.index('connected', J, below=I, num=lambda v: _surject(v, I))
    s.area = r('area', J, lo=0.5, hi=60.0)
    s.hi_d, s.hc = r('h_i', J, lo=5.0, hi=9.0), r('h_c', J, lo=0.5, hi=5.0)
    s.flr = r('flr', J, lo=0.0, hi=1.0)
    s.fhum = r('f_mrt_hum', J, lo=0.0, hi=0.4)
    s.keo = r('k_outside', J, lo=0.0, hi=1.0)
    s.ground, s.absb = g.bool('ground', J), g.bool('absorbs', J)
    s.has_in = g.bool('has_inside', J)
    s.kid = g.index('inside_id', J, below=J)
    s.kco = r('inside_coef', J, lo=0.0, hi=1.0)
    s.bname = g.enum('boundary_name', ['wall', 'window', 'floor'], J)
    s.sub = g.enum('boundary_sub_name', ['a', 'b', 'c'], J)
    s.a0, s.t0 = r('phi_a0', J, lo=0.0, hi=0.08), r('phi_t0', J, lo=0.0, hi=0.6)
    s.a1, s.t1, s.row = r('phi_a1', J, M, lo=-0.05, hi=0.05), r('phi_t1', J, M, lo=-0.05, hi=0.05), r('row', J, M, lo=0.0, hi=0.99)
    s.theta_o, s.x_o = r('theta_o', N, lo=-20.0, hi=40.0), r('x_o', N, lo=0.0, hi=0.03)
    s.loc = r('local_vent', N, I, lo=0.0, hi=0.1)
    s.qgen, s.xgen = r('heat_generation', N, I, lo=0.0, hi=500.0), r('moisture_generation', N, I, lo=0.0, hi=1e-4)
    s.hum, s.dem = r('occupants', N, I, lo=0.0, hi=4.0), r('ac_demand', N, I, lo=0.0, hi=1.0)
    s.qtrs = r('q_trs', N, I, lo=0.0, hi=1000.0)
    s.tos = r('theta_o_sol', N, J, lo=-20.0, hi=60.0)
    s.story, s.cval = g.choice('story', [1, 2]), r('c_value', lo=0.2, hi=10.0)
    s.press = g.choice('inside_pressure', ['negative', 'positive', 'balanced'])

    def radi(at, inst, cap):
        return {'installed': at(inst), 'max_capacity': at(cap)}

    def space(at, k):
        return {'id': k, 'name': at(s.name), 'volume': at(s.vol), 'beta': at(s.beta),
                'ventilation': {'mechanical': at(s.mech), 'next_spaces': at(s.v_int), 'natural': at(s.ntrl)},
                'furniture': {'heat_capacity': at(s.c_sh), 'heat_cond': at(s.g_sh), 'moisture_capacity': at(s.c_lh), 'moisture_cond': at(s.g_lh)},
                'equipment': {
                    'heating': {'radiative': radi(at, s.rad_h, s.cap_h), 'convective': {'installed': True, 'q_min': 0.0, 'q_max': 0.0, 'v_min': 0.0, 'v_max': 0.0}},
                    'cooling': {'radiative': radi(at, s.rad_c, s.cap_c),
                                'convective': g.oneof(at(s.rac), {
                                    'convective': {'installed': True, 'q_min': at(s.qmin), 'q_max': at(s.qmax), 'v_min': at(s.vmin), 'v_max': at(s.vmax)},
                                    'other': {'installed': False}})}}}

    def boundary(at, k):
        return {'id': k, 'name': at(s.bname), 'sub_name': at(s.sub), 'is_ground': yes(g, at(s.ground), 'true', 'false'), 'connected_space_id': at(s.conn),
                'area': at(s.area), 'h_i': at(s.hi_d), 'h_c': at(s.hc), 'flr': at(s.flr), 'is_solar_absorbed': yes(g, at(s.absb), 'True', 'False'),
                'f_mrt_hum': at(s.fhum), 'k_outside': at(s.keo), 'k_inside': g.optional(at(s.has_in), {'id': at(s.kid), 'coef': at(s.kco)}),
                'spec': {'method': 'response_factor', 'phi_t0': at(s.t0), 'phi_a0': at(s.a0), 'phi_t1': at(s.t1), 'phi_a1': at(s.a1), 'r': at(s.row)}}
    s.dir = g.dir({
        'mid_data_house.json': {'spaces': g.records(I, space), 'boundaries': g.records(J, boundary),
                                'building': {'infiltration_method': 'balance_residential', 'story': s.story, 'c_value': s.cval, 'inside_pressure': s.press}},
        'weather.csv': {'cols': {'temperature': s.theta_o, 'absolute humidity': s.x_o}},
        'mid_data_local_vent.csv': s.loc, 'mid_data_heat_generation.csv': s.qgen, 'mid_data_moisture_generation.csv': s.xgen,
        'mid_data_occupants.csv': s.hum, 'mid_data_ac_demand.csv': s.dem, 'mid_data_q_trs_sol.csv': s.qtrs, 'mid_data_theta_o_sol.csv': s.tos})
    return s


def yes(g, c, a, b):
    return g.np.where(c, a, b) if g.symbolic else (a if c else b)


def _surject(v, n):
    for k in range(min(n, len(v))):
        v[k] = k
    return v


def prepared(g, W):
    np = g.np
    s = house(g)
    s.seen = {}
    I, J = s.I, s.J
    col = lambda a: a.reshape(-1, 1)
    s.p = np.where(s.conn[np.newaxis, :] == np.arange(I).reshape(-1, 1), 1.0, 0.0)        # [i, j]
    if g.symbolic:
        s.hr = g.real('h_r', J, 1, lo=1.0, hi=8.0)

        def h_r(a_srf_js, p_js_is):
            s.seen['h_r'] = (a_srf_js, p_js_is)
            return s.hr
        g.stub('core.shape_factor', 'get_h_r_js', h_r, 'get_h_r_js by its own contract (C17)')
    def comfort(is_radiative_heating_is, is_radiative_cooling_is):
        s.seen['comfort'] = (is_radiative_heating_is, is_radiative_cooling_is)
        return s.seen
    g.replace('core.ot_target', 'make_get_ot_target_and_h_hum_function', comfort, 'the comfort model by its own contracts (C04, C05)')
    s.ss, s.gr = W['core.pre_calc_parameters'].make_pre_calc_parameters(delta_t=s.dt, data_directory=s.dir)
    if not g.symbolic:
        s.hr = W['core.shape_factor'].get_h_r_js(col(s.area), s.p.T.astype(int))
    s.hi = col(s.hc) + s.hr
    return s


@contract('C24', ['core.pre_calc_parameters.make_pre_calc_parameters'], trials=60, timeout=300, also={
    'C01': ('heat capacities, ventilation, heat sources and outdoor temperatures of the balance are those of the prepared house', [
        'heat capacity of the air', 'furniture heat', 'mechanical and local', 'natural vent', 'heat generation', 'outdoor temperature', 'convective share',
        'convective coefficient', 'area']),
    'C02': ('the responses of a surface and the temperature behind it are those of its own entry', [
        'through response', 'absorbed response', 'ratios', 'share of the outdoor', 'boundary behind', 'convective coefficient', 'rooms of the', 'boundaries of the']),
    'C03': ('demand, radiant systems and their capacities are those of the room', ['demand', 'radiative heating', 'radiative cooling']),
    'C05': ('the comfort model knows the radiant systems of the rooms', ['radiative heating known', 'radiative cooling known', 'comfort model']),
    'C06': ('the declared flow from each room to each other room reaches the balance', ['air between rooms']),
    'C07': ('moisture capacities, moisture sources and outdoor humidity of the balance are those of the prepared house', [
        'volume', 'furniture moisture', 'moisture generation', 'mechanical and local', 'natural vent', 'outdoor humidity']),
    'C08': ('the air conditioner has the limits declared for cooling in the room', ['cooling m']),
    'C13': ('the outdoor share of the temperature behind a boundary is its own coefficient times its own equivalent temperature', ['share of the outdoor']),
    'C20': ('the series of a room reach the calculation of that room', ['mechanical and local', 'heat generation', 'moisture generation', 'occupants', 'demand']),
    'C21': ('the persons of a room are those of its schedule', ['occupants'])})
def the_prepared_house_is_carried_over_entry_by_entry(g, W):
    """every room and boundary of the calculation data carries the figures of its own entry, in the order of the description"""
    np = g.np
    s = prepared(g, W)
    ss, col = s.ss, lambda a: a.reshape(-1, 1)
    I, J = s.I, s.J
    g.eq('number of rooms', ss.n_spaces, I)
    g.eq('number of boundaries', ss.n_bdries, J)
    for what, got, want in [
            ('volume', ss.v_room_is, col(s.vol)), ('heat capacity of the air', ss.c_room_is, col(s.vol) * RHO * C_AIR),
            ('furniture heat capacity', ss.c_sh_frt_is, col(s.c_sh)), ('furniture heat conductance', ss.g_sh_frt_is, col(s.g_sh)),
            ('furniture moisture capacity', ss.c_lh_frt_is, col(s.c_lh)), ('furniture moisture conductance', ss.g_lh_frt_is, col(s.g_lh)),
            ('air between rooms', ss.v_int_vent_is_is, s.v_int), ('natural ventilation', ss.v_ntrl_vent_is, col(s.ntrl)),
            ('mechanical and local ventilation', ss.v_mec_vent_is_ns, s.mech[:, np.newaxis] + s.loc.T),
            ('heat generation', ss.q_gen_is_ns, s.qgen.T), ('moisture generation', ss.x_gen_is_ns, s.xgen.T), ('occupants', ss.n_hum_is_ns, s.hum.T),
            ('demand', ss.ac_demand_is_ns, s.dem.T), ('transmitted sunshine', ss.q_trs_sol_is_ns, s.qtrs.T),
            ('radiative heating installed', ss.is_radiative_heating_is, col(s.rad_h)), ('radiative cooling installed', ss.is_radiative_cooling_is, col(s.rad_c)),
            ('radiative heating capacity', ss.lr_h_max_cap_is, col(np.where(s.rad_h, s.cap_h, 0.0))),
            ('radiative cooling capacity', ss.lr_cs_max_cap_is, col(np.where(s.rad_c, s.cap_c, 0.0))),
            ('cooling minimum capacity', ss.rac_spec['q_min'], col(np.where(s.rac == 'convective', s.qmin, 0.0))), ('cooling maximum capacity', ss.rac_spec['q_max'], col(np.where(s.rac == 'convective', s.qmax, 0.0))),
            ('cooling minimum air flow', ss.rac_spec['v_min'], col(np.where(s.rac == 'convective', s.vmin, 0.0))), ('cooling maximum air flow', ss.rac_spec['v_max'], col(np.where(s.rac == 'convective', s.vmax, 0.0))),
            ('convective share', ss.beta_is, col(s.beta)),
            ('area', ss.a_srf_js, col(s.area)), ('convective coefficient', ss.h_c_js, col(s.hc)), ('ground', ss.is_ground_js, col(s.ground)),
            ('radiative coefficient', ss.h_r_js, s.hr),
            ('through response', ss.phi_t0_js, col(s.t0)), ('absorbed response', ss.phi_a0_js, col(s.a0)),
            ('through response series', ss.phi_t1_js_ms, s.t1), ('absorbed response series', ss.phi_a1_js_ms, s.a1), ('ratios', ss.r_js_ms, s.row),
            ('outdoor temperature', ss.theta_o_ns, s.theta_o), ('outdoor humidity', ss.x_o_ns, s.x_o), ('annual mean', ss.theta_o_ave, np.average(s.theta_o)),
            ('share of the outdoor equivalent temperature', ss.theta_dstrb_js_ns, s.tos.T * col(s.keo)),
            ('rooms of the boundaries', ss.p_is_js, s.p), ('boundaries of the rooms', ss.p_js_is, s.p.T),
            ('boundary behind', ss.k_ei_js_js, np.where(np.logical_and(col(s.has_in), col(s.kid) == np.arange(J)), col(s.kco), 0.0))]:
        g.eq(what, got, want)
    g.eq('boundary names', ss.name_bdry_js, s.bname)
    g.eq('room names', g.arr(ss.name_space_is), s.name)
    h, c = s.seen['comfort']
    g.eq('radiative heating known to the comfort model', np.array(h).reshape(-1, 1), col(s.rad_h))
    g.eq('radiative cooling known to the comfort model', np.array(c).reshape(-1, 1), col(s.rad_c))
    g.holds('comfort model of this house', ss.get_ot_target_and_h_hum is s.seen)


@contract('C16', ['core.pre_calc_parameters.make_pre_calc_parameters'], trials=60, timeout=300)
def transmitted_sunshine_is_absorbed_once(g, W):
    """half of it by the furniture, half by the absorbing surfaces of the same room per area; in sum the transmitted heat of that room"""
    np = g.np
    s = prepared(g, W)
    ss, col = s.ss, lambda a: a.reshape(-1, 1)
    g.eq('furniture takes half', ss.q_sol_frt_is_ns, 0.5 * s.qtrs.T)
    absb = np.where(col(s.absb), 1.0, 0.0)
    total = np.dot(s.p, col(s.area) * absb)                       # absorbing area of each room
    g.eq('share of a surface', ss.q_sol_js_ns * np.dot(s.p.T, total), absb * 0.5 * np.dot(s.p.T, s.qtrs.T), when=np.dot(s.p.T, total) > 0.0)
    g.eq('nothing where nothing absorbs', ss.q_sol_js_ns, 0.0, when=np.logical_not(col(s.absb)))
    got = np.dot(s.p, ss.q_sol_js_ns * col(s.area)) + ss.q_sol_frt_is_ns
    g.eq('nothing is lost', got, s.qtrs.T, when=total > 0.0)


@contract('C17', ['core.pre_calc_parameters.make_pre_calc_parameters', 'core.shape_factor.get_f_mrt_is_js'], trials=60, timeout=300)
def radiant_weights_belong_to_the_room(g, W):
    """long-wave weights partition each room by area x coefficient; weights of the occupant and of radiant heating stay in the room of the surface"""
    np = g.np
    s = prepared(g, W)
    ss, col = s.ss, lambda a: a.reshape(-1, 1)
    ah = col(s.area) * s.hr
    g.eq('long-wave weights', ss.f_mrt_is_js * np.dot(s.p, ah), s.p * ah.T)
    g.eq('long-wave weights add up to one', np.sum(ss.f_mrt_is_js, axis=1, keepdims=True), 1.0, when=np.dot(s.p, ah) > 0.0)
    g.eq('occupant weights', ss.f_mrt_hum_is_js, s.p * s.fhum)
    g.eq('radiant heating shares', ss.flr_js_is, s.p.T * col(s.flr))
    if g.symbolic:
        a, p = s.seen['h_r']
        g.eq('form factors of the areas', a, col(s.area))
        g.eq('form factors of the rooms', p, s.p.T)


@contract(['C02', 'C01'], ['core.pre_calc_parameters.make_pre_calc_parameters'], trials=60, timeout=300)
def surface_equations_of_the_house(g, W):
    """the matrices of a step are those of the wall responses of this house: AX.WSR = FIA, AX.WSC = CRX, AX.WSB = FLB, AX.inv = I"""
    np = g.np
    s = prepared(g, W)
    ss, col = s.ss, lambda a: a.reshape(-1, 1)
    a0, t0, hc, hr, hi, a, beta = col(s.a0), col(s.t0), col(s.hc), s.hr, s.hi, col(s.area), col(s.beta)
    ah = a * hr
    pt = s.p.T
    fmrt = s.p * ah.T / np.dot(s.p, ah)
    rw = np.dot(pt, fmrt)
    kei = np.where(np.logical_and(col(s.has_in), col(s.kid) == np.arange(s.J)), col(s.kco), 0.0)
    flr1 = pt * col(s.flr) * (1.0 - beta.T)
    q_sol, dstrb = ss.q_sol_js_ns, ss.theta_dstrb_js_ns
    ax = np.diag((1.0 + a0 * hi).flatten()) - rw * hr * a0 - np.dot(kei, rw) * hr * t0 / hi
    fia = a0 * hc * pt + np.dot(kei, pt) * t0 * hc / hi
    crx = a0 * q_sol + t0 / hi * np.dot(kei, q_sol) + t0 * dstrb
    flb = flr1 * a0 / a + np.dot(kei, flr1) * t0 / hi / a
    inv = ss.ivs_ax_js_js
    if not g.symbolic:
        g.eq('inverse', np.dot(ax, inv), np.eye(s.J), abs_tol=1e-8)
    else:
        g.eq('inverse of the matrix of this house', inv, np.linalg.inv(ax))
    g.eq('response to the rooms', ss.wsr_js_is, np.dot(inv, fia))
    g.eq('response to sunshine and outdoors', ss.wsc_js_ns, np.dot(inv, crx))
    g.eq('response to radiant heating', ss.wsb_js_is, np.dot(inv, flb))
    g.eq('radiant heating in the room balance', ss.brl_is_is, np.dot(s.p, ss.wsb_js_is * hc * a) + np.diag(beta.flatten()))
    c, f, dt = col(s.c_sh), col(s.g_sh), s.dt
    g.eq('room balance without ventilation', ss.brm_non_vent_is_is,
         np.diag((col(s.vol) * RHO * C_AIR / dt + c * f / (c + f * dt)).flatten()) + np.dot(s.p, (pt - ss.wsr_js_is) * a * hc))


@contract(['C10', 'C24'], ['core.pre_calc_parameters.make_pre_calc_parameters'], trials=60, timeout=300)
def ground_boundaries_get_their_own_figures(g, W):
    """the ground calculation works on the ground boundaries, in their order, with their own responses and coefficients"""
    np = g.np
    s = prepared(g, W)
    gr, col = s.gr, lambda a: a.reshape(-1, 1)
    m = s.ground
    g.eq('number', gr.n_grounds, np.count_nonzero(m))
    for what, got, want in [('ratios', gr.r_js_ms, s.row), ('absorbed response', gr.phi_a0_js, col(s.a0)), ('absorbed response series', gr.phi_a1_js_ms, s.a1),
                            ('radiative coefficient', gr.h_r_js, s.hr), ('convective coefficient', gr.h_c_js, col(s.hc))]:
        g.eq(what, got, want[m, :])
    g.eq('outdoor temperature', gr.theta_o_ns, s.theta_o)
    g.eq('annual mean', gr.theta_o_ave, np.average(s.theta_o))


@contract('C17', ['core.shape_factor.get_h_r_js', 'core.shape_factor._get_f_i_js', 'core.shape_factor._get_f_j'], trials=80, timeout=300)
def radiative_coefficients_follow_the_small_sphere_model(g, W):
    """h_r = eps/(1 - eps f) 4 sigma 293.15^3 with the form factor of the surface's area share in its own room, whatever the order"""
    np = g.np
    I = g.dim('I', 1, 3)
    J = g.dim('J', 9 if g.symbolic else max(9, 3 * I), 12 if g.symbolic else max(12, 3 * I))
    conn = g.index('connected', J, below=I, num=lambda v: _spread(v, I))
    area = g.real('area', J, lo=2.0, hi=20.0)
    p = np.where(conn[:, np.newaxis] == np.arange(I), 1, 0)
    if g.symbolic:
        # the level f of a room is some function of its area shares that does not depend on their order
        g.stub('core.shape_factor', '_get_f_ver', lambda r_a_srf_js: np.sum(g.uf('level', r_a_srf_js)), '_get_f_ver by its own contract')
    h = W['core.shape_factor'].get_h_r_js(a_srf_js=area.reshape(-1, 1), p_js_is=p)
    share = area / np.dot(p, np.dot(p.T, area))
    if g.symbolic:
        f_ver = np.dot(p, np.dot(p.T, g.uf('level', share)))
    else:
        f_ver = np.dot(p, np.array([solve_level(np, share[conn == i]) for i in range(I)]))
    f = 0.5 * (1.0 - np.sign(1.0 - 4.0 * share / f_ver) * np.sqrt(abs(1.0 - 4.0 * share / f_ver)))
    g.eq('coefficient', h, (0.9 / (1.0 - 0.9 * f) * 4.0 * 5.67e-8 * 293.15 ** 3).reshape(-1, 1), tol=1e-6)


@contract('C17', ['core.shape_factor._get_f_ver', 'core.shape_factor._get_f_j'], trials=60)
def the_level_makes_the_form_factors_add_up(g, W):
    """the level handed to the form factors is the root of: form factors of all surfaces of the room add up to one"""
    np = g.np
    J = g.dim('J', 3, 8)
    share = g.real('share', J, lo=0.02, hi=0.6)
    any_level, found = g.real('any', lo=0.5, hi=8.0), g.real('found', lo=0.5, hi=8.0)
    seen = []

    class optimize:
        @staticmethod
        def fsolve(func, x0, *a, **k):
            seen.append(func)
            return np.array([found])
    g.replace('core.shape_factor', 'optimize', optimize, 'scipy.optimize.fsolve returns a root of the function it is given')
    g.eq('level', W['core.shape_factor']._get_f_ver(r_a_srf_js=share), found)
    f = 0.5 * (1.0 - np.sign(1.0 - 4.0 * share / any_level) * np.sqrt(abs(1.0 - 4.0 * share / any_level)))
    g.eq('equation', seen[-1](any_level), np.sum(f) - 1.0, abs_tol=1e-9)


def solve_level(np, share):
    """the level at which the form factors add up to one (bisection of the same equation, independent of the program's solver)"""
    f = lambda v: float(np.sum(0.5 * (1.0 - np.sign(1.0 - 4.0 * share / v) * np.sqrt(abs(1.0 - 4.0 * share / v))))) - 1.0
    lo, hi = 1e-3, 100.0
    for _ in range(200):
        m = 0.5 * (lo + hi)
        lo, hi = (m, hi) if f(m) > 0 else (lo, m)
    return 0.5 * (lo + hi)


def _spread(v, n):
    """every room gets at least three surfaces"""
    for k in range(3 * n):
        v[k] = k % n
    return v
