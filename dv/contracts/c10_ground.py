"""C10: ground spin-up and hand-over"""
from ..contract import contract
from .c01_step import State


def ground(g, W):
    np = g.np
    s = State()
    G, M, N = g.dim('G', 0 if not g.symbolic else 1, 4), g.dim('M', 1, 4), g.dim('N', 1, 4)
    s.G, s.M, s.N = G, M, N
    r = lambda name, *d, lo, hi, **k: g.real(name, *d, lo=lo, hi=hi, **k)
    s.a0 = r('phi_a0', G, 1, lo=0.0, hi=2.0)
    s.a1, s.row = r('phi_a1', G, M, lo=-0.2, hi=0.2), r('row', G, M, lo=0.0, hi=0.999)
    s.hc, s.hr = r('h_c', G, 1, lo=0.5, hi=8.0), r('h_r', G, 1, lo=1.0, hi=8.0)
    s.to, s.ave = r('theta_o', N, lo=-20.0, hi=40.0), r('theta_o_ave', lo=-5.0, hi=25.0)
    s.ss = W['core.pre_calc_parameters'].PreCalcParametersGround(
        n_grounds=G, r_js_ms=s.row, phi_a0_js=s.a0, phi_a1_js_ms=s.a1, h_r_js=s.hr, h_c_js=s.hc, theta_o_ns=s.to, theta_o_ave=s.ave)
    s.theta, s.q = r('theta_dsh', G, M, lo=-20.0, hi=20.0), r('q_srf', G, 1, lo=-100.0, hi=100.0)
    return s


@contract('C10', ['core.sequence_ground.run_tick'], trials=120)
def ground_temperature_is_the_response_to_present_and_earlier_flows(g, W):
    """theta_s = annual mean + phi_a0 q' + sum of the carried components, q' = h_i (theta_o(n) - theta_s); the components decay and take up the old flow"""
    np = g.np
    s = ground(g, W)
    n = g.real('n', lo=-1e5, hi=1e5, integer=True, num=lambda v: int(v) % g.sizes['N'] - (0 if g.bool('from_start') else g.sizes['N'])) if not g.symbolic \
        else g.real('n', integer=True)
    W_ = W['core.conditions']
    gc = W_.GroundConditions(theta_dsh_srf_a_js_ms_n=s.theta, q_srf_js_n=s.q)
    out = W['core.sequence_ground'].run_tick(gc_n=gc, ss=s.ss, n=n)
    h = s.hc + s.hr
    to = s.to[n]
    g.eq('carried components', out.theta_dsh_srf_a_js_ms_n, s.row * s.theta + s.a1 * s.q)
    q = out.q_srf_js_n
    carried = np.sum(s.row * s.theta + s.a1 * s.q, axis=1, keepdims=True)
    # the surface temperature is the one the flow implies
    theta_s = to - q / h
    g.eq('surface temperature', theta_s, s.ave + s.a0 * q + carried, scale=20.0)
    g.eq('the old state is left alone', gc.q_srf_js_n, s.q)


@contract('C10', ['core.conditions.initialize_ground_conditions', 'core.conditions.initialize_conditions', 'core.conditions.update_conditions_by_ground_conditions'], trials=120)
def ground_state_goes_to_the_ground_boundaries_only(g, W):
    """flow and components of the k-th ground boundary are those the ground calculation ended with; all other boundaries keep their initial state"""
    np = g.np
    C = W['core.conditions']
    I, J, M = g.dim('I', 1, 3), g.dim('J', 1, 6), 12
    ground_js = g.bool('is_ground', J)
    th, q = g.real('theta_dsh', J, M, lo=-20.0, hi=20.0), g.real('q_srf', J, 1, lo=-100.0, hi=100.0)
    c0 = C.initialize_conditions(n_spaces=I, n_bdries=J)
    keep = {k: v for k, v in vars(C.initialize_conditions(n_spaces=I, n_bdries=J)).items()}
    gc = C.GroundConditions(theta_dsh_srf_a_js_ms_n=th[ground_js, :], q_srf_js_n=q[ground_js, :])
    c = C.update_conditions_by_ground_conditions(is_ground=ground_js, c=c0, gc=gc)
    col = ground_js.reshape(-1, 1)
    g.eq('components', c.theta_dsh_srf_a_js_ms_n, np.where(col, th, 0.0))
    g.eq('flows', c.q_srf_js_n, np.where(col, q, 0.0))
    g.eq('through components', c.theta_dsh_srf_t_js_ms_n, np.zeros((J, M)))
    for what, name, want in [('rear temperature', 'theta_ei_js_n', np.full((J, 1), 15.0)), ('air temperature', 'theta_r_is_n', np.full((I, 1), 15.0)),
                             ('radiant temperature', 'theta_mrt_hum_is_n', np.full((I, 1), 15.0)), ('furniture temperature', 'theta_frt_is_n', np.full((I, 1), 15.0)),
                             ('mode', 'operation_mode_is_n', np.full((I, 1), W['core.operation_mode'].OperationMode.STOP_CLOSE)),
                             ('humidity', 'x_r_is_n', keep['x_r_is_n']), ('furniture humidity', 'x_frt_is_n', keep['x_r_is_n'])]:
        g.eq(what, getattr(c, name), want)
    p = 0.4 * W['external.psychrometrics'].get_p_vs(theta=20.0)
    g.eq('humidity at 20 degrees and 40 %', c.x_r_is_n * (101325.0 - p), np.full((I, 1), 1.0) * (0.622 * p), tol=1e-4)


@contract('C10', ['core.conditions.initialize_ground_conditions'], trials=20)
def ground_starts_at_rest(g, W):
    """the ground spin-up starts with no flow and no carried response"""
    np = g.np
    G = g.dim('G', 1, 4)
    gc = W['core.conditions'].initialize_ground_conditions(n_grounds=G)
    g.eq('components', gc.theta_dsh_srf_a_js_ms_n, np.zeros((G, 12)))
    g.eq('flows', gc.q_srf_js_n, np.zeros((G, 1)))
