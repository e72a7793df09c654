"""C11: the run - order of the steps, state handed from step to step, what is recorded"""
from ..contract import contract
from .c01_step import State


class Tag:
    pass


@contract(['C11', 'C10'], ['core.core.calc', 'core.period.get_n_step'], trials=120)
def steps_run_in_calendar_order(g, W):
    """ground spin-up, building spin-up and main period follow each other without gap, end at step 0 and n_main, each step starts from the
    state of the step before, and only the main period is recorded"""
    np = g.np
    h = g.real('n_step_hourly', lo=1, hi=4, integer=True)
    d_main, d_up, d_b = [g.real(n, lo=0, hi=hi, integer=True) for n, hi in (('d_main', 3), ('d_run_up', 4), ('d_run_up_build', 4))]
    if not g.symbolic:
        h, d_main, d_up, d_b = int(h), int(d_main), int(d_up), int(d_b)
    g.assume(d_b <= d_up)
    n_main, n_up, n_b = d_main * h * 24, d_up * h * 24, d_b * h * 24
    pp, ppg = Tag(), Tag()
    pp.n_spaces, pp.n_bdries, ppg.n_grounds = g.dim('I'), g.dim('J'), g.dim('G')
    gmask = g.bool('is_ground', pp.n_bdries, 1)
    pp.is_ground_js = gmask
    seen = State()
    seen.log = []
    init = Tag()

    def once(what):
        seen.log.append(what)

    def prepare(delta_t, data_directory):
        once('prepare')
        g.eq('interval', delta_t * h, 3600.0)
        g.holds('directory', data_directory == 'in')
        return pp, ppg

    def ground0(n_grounds):
        g.eq('number of ground boundaries', n_grounds, ppg.n_grounds)
        return g.ghost('ground', 0 - n_up)

    def ground_step(gc_n, ss, n):
        g.holds('ground calculation works on the ground parameters', ss is ppg)
        g.holds('ground state', gc_n.tag == 'ground')
        g.eq('ground step starts from the step before', gc_n.pos, n)
        return g.ghost('ground', n + 1)

    def init_(n_spaces, n_bdries):
        g.eq('rooms of the initial state', n_spaces, pp.n_spaces)
        g.eq('boundaries of the initial state', n_bdries, pp.n_bdries)
        return init

    def hand_over(is_ground, c, gc):
        g.holds('initial state is completed', c is init)
        g.eq('ground boundaries', is_ground, gmask.flatten())
        g.holds('by the ground state', gc.tag == 'ground')
        g.eq('ground state at the start of the building run-up', gc.pos, 0 - n_b)
        return g.ghost('building', 0 - n_b)

    def step(n, delta_t, ss, c_n, logger, run_up):
        g.holds('building step works on the building parameters', ss is pp)
        g.holds('building state', c_n.tag == 'building')
        g.eq('building step starts from the step before', c_n.pos, n)
        g.eq('interval of the step', delta_t * h, 3600.0)
        g.holds('logger', logger is seen.logger)
        g.holds('recorded exactly in the main period', n < 0 if run_up else n >= 0)
        seen.last = n
        return g.ghost('building', n + 1)

    class Log:
        def __init__(self, n_spaces, n_boundaries, n_step_main):
            g.eq('rooms of the log', n_spaces, pp.n_spaces)
            g.eq('boundaries of the log', n_boundaries, pp.n_bdries)
            g.eq('rows of the log', n_step_main, n_main)
            seen.logger = self

        def pre_logging(self, ss):
            g.holds('given series of the building', ss is pp)
            once('pre')

        def post_logging(self, ss):
            g.holds('derived series of the building', ss is pp)
            once('post')

    def record(pps, logger, output_data_dir, show_simple_result, show_detail_result, n_step_main, n_d_main, **k):
        once('record')
        g.holds('record of this run', pps is pp and logger is seen.logger and output_data_dir == 'out' and show_simple_result is True and show_detail_result is False)
        g.eq('recorded steps', n_step_main, n_main)
        g.eq('recorded days', n_d_main, d_main)
        return 'ds', 'dd'

    g.replace('core.pre_calc_parameters', 'make_pre_calc_parameters', prepare, 'make_pre_calc_parameters by its own contracts')
    g.replace('core.conditions', 'initialize_ground_conditions', ground0)
    g.replace('core.sequence_ground', 'run_tick', ground_step, 'ground step by its own contract')
    g.replace('core.conditions', 'initialize_conditions', init_)
    g.replace('core.conditions', 'update_conditions_by_ground_conditions', hand_over, 'hand-over by its own contract')
    g.replace('core.sequence', 'run_tick', step, 'building step by its own contracts')
    g.replace('core.log', 'Logger', Log)
    g.replace('core.log', 'record', record, 'record by its own contract')
    out = W['core.core'].calc(input_data_dir='in', output_data_dir='out', show_simple_result=True, show_detail_result=False,
                              n_step_hourly=h, n_d_main=d_main, n_d_run_up=d_up, n_d_run_up_build=d_b)
    g.eq('the ground was run up to the start of the building', g.latest('ground'), 0 - n_b)
    g.eq('every step of the main period was made', g.latest('building'), n_main)
    g.holds('results', out[0] == 'ds' and out[1] == 'dd')
    g.holds('each part once, in order', seen.log == ['prepare', 'pre', 'post', 'record'])


@contract('C11', ['core.period.get_n_step'], trials=200)
def step_counts_are_whole_days(g, W):
    """the numbers of steps are those of whole days; a building run-up longer than the run-up is rejected"""
    h, d_main, d_up, d_b = [g.real(n, lo=1 if n == 'n_step_hourly' else 0, hi=400, integer=True) for n in ('n_step_hourly', 'd_main', 'd_run_up', 'd_run_up_build')]
    f = lambda: W['core.period'].get_n_step(n_step_hourly=h, n_d_main=d_main, n_d_run_up=d_up, n_d_run_up_build=d_b)
    if d_up < d_b:
        g.raises('rejected', f, ValueError)
        return
    a, b, c = f()
    g.eq('main', a, d_main * 24 * h)
    g.eq('run-up', b, d_up * 24 * h)
    g.eq('building run-up', c, d_b * 24 * h)


def series(g, names, *dims, lo=-20.0, hi=40.0):
    return {n: g.real(n, *dims, lo=lo, hi=hi) for n in names}


@contract(['C11', 'C01', 'C02', 'C07'], ['core.log.Logger.pre_logging', 'core.log.Logger.post_logging'], trials=80)
def derived_series_follow_from_the_recorded_state(g, W):
    """relative humidity, furniture and surface exchange of every recorded step are those of the recorded state of that step"""
    np = g.np
    I, J, N = g.dim('I', 1, 3), g.dim('J', 1, 5), g.dim('N', 1, 4)
    ss = State()
    r = g.real
    ss.theta_o_ns, ss.x_o_ns = r('theta_o', N, lo=-20.0, hi=40.0), r('x_o', N, lo=0.0, hi=0.03)
    ss.ac_demand_is_ns, ss.q_trs_sol_is_ns = r('demand', I, N, lo=0.0, hi=1.0), r('q_trs', I, N, lo=0.0, hi=1000.0)
    ss.q_gen_is_ns, ss.x_gen_is_ns, ss.q_sol_frt_is_ns = r('q_gen', I, N, lo=0.0, hi=500.0), r('x_gen', I, N, lo=0.0, hi=1e-4), r('q_sol_frt', I, N, lo=0.0, hi=500.0)
    ss.q_sol_js_ns, ss.a_srf_js = r('q_sol', J, N, lo=0.0, hi=300.0), r('a', J, 1, lo=0.5, hi=60.0)
    ss.h_c_js, ss.h_r_js = r('h_c', J, 1, lo=0.5, hi=8.0), r('h_r', J, 1, lo=1.0, hi=8.0)
    ss.g_sh_frt_is, ss.g_lh_frt_is = r('g_sh', I, 1, lo=1.0, hi=200.0), r('g_lh', I, 1, lo=0.1, hi=6.0)
    ss.p_is_js, ss.f_mrt_is_js = r('p', I, J, lo=0.0, hi=1.0), r('f_mrt', I, J, lo=0.0, hi=1.0)
    ss.p_js_is = ss.p_is_js.T
    log = W['core.log'].Logger(n_spaces=I, n_boundaries=J, n_step_main=N)
    log.pre_logging(ss)
    st = {'theta_r': r('theta_r', I, N, lo=-10.0, hi=45.0), 'theta_frt': r('theta_frt', I, N, lo=-10.0, hi=45.0), 'x_r': r('x_r', I, N, lo=0.0, hi=0.03),
          'x_frt': r('x_frt', I, N, lo=0.0, hi=0.03), 'theta_s': r('theta_s', J, N, lo=-10.0, hi=60.0)}
    for k, v in st.items():
        setattr(log, k, v)
    log.post_logging(ss)
    for k, v in st.items():
        g.eq('recorded ' + k + ' is left alone', getattr(log, k), v)
    for k in ('theta_o_ns', 'x_o_ns', 'ac_demand_is_ns', 'q_trs_sol_is_ns', 'q_gen_is_ns', 'x_gen_is_ns', 'q_sol_frt_is_ns'):
        g.eq('given ' + k, getattr(log, k), getattr(ss, k))
    g.eq('sunshine on the surfaces', log.qisol_s, ss.q_sol_js_ns * ss.a_srf_js)
    g.eq('convective coefficients', log.h_c_s, ss.h_c_js * np.full((J, N), 1.0))
    g.eq('radiative coefficients', log.h_r_s, ss.h_r_js * np.full((J, N), 1.0))
    psy = W['external.psychrometrics']
    g.eq('relative humidity', log.rh * psy.get_p_vs_is(theta_is=st['theta_r']), 100.0 * psy.get_p_v_r_is_n(x_r_is_n=st['x_r']))
    g.eq('furniture heat', log.q_frt, ss.g_sh_frt_is * (st['theta_r'] - st['theta_frt']))
    g.eq('furniture moisture', log.q_l_frt, ss.g_lh_frt_is * (st['x_r'] - st['x_frt']))
    g.eq('convection at the surfaces', log.qc, ss.h_c_js * ss.a_srf_js * (np.dot(ss.p_js_is, st['theta_r']) - st['theta_s']))
    mrt = np.dot(ss.p_js_is, np.dot(ss.f_mrt_is_js, st['theta_s']))
    g.eq('radiation at the surfaces', log.qr, ss.h_r_js * ss.a_srf_js * (mrt - st['theta_s']))


ROOM = [('ac_operate', 'operation_mode'), ('occupancy', 'ac_demand_is_ns'), ('hc_hum', 'h_hum_c_is_n'), ('hr_hum', 'h_hum_r_is_n'), ('t_r', 'theta_r'), ('rh_r', 'rh'),
        ('x_r', 'x_r'), ('mrt', 'theta_mrt_hum'), ('ot', 'theta_ot'), ('q_sol_t', 'q_trs_sol_is_ns'), ('q_s_except_hum', 'q_gen_is_ns'), ('q_l_except_hum', 'x_gen_is_ns'),
        ('q_hum_s', 'q_hum'), ('q_hum_l', 'x_hum'), ('l_s_c', 'l_cs'), ('l_s_r', 'l_rs'), ('l_l_c', 'l_cl'), ('t_fun', 'theta_frt'), ('q_s_fun', 'q_frt'),
        ('q_s_sol_fun', 'q_sol_frt_is_ns'), ('x_fun', 'x_frt'), ('q_l_fun', 'q_l_frt'), ('v_reak', 'v_reak_is_ns'), ('v_ntrl', 'v_ntrl_is_ns'), ('remarks', 'space_remarks')]
SURF = [('t_s', 'theta_s'), ('t_e', 'theta_ei'), ('t_b', 'theta_rear'), ('hir_s', 'h_r_s'), ('qir_s', 'qr'), ('hic_s', 'h_c_s'), ('qic_s', 'qc'), ('qisol_s', 'qisol_s'),
        ('qiall_s', 'qiall_s')]
DIGEST = [('t_r', 'mean', 2), ('x_r', 'mean', 4), ('ot', 'mean', 2), ('l_s_c', 'sum', 0), ('l_s_r', 'sum', 0), ('l_l_c', 'sum', 0)]


@contract('C11', ['core.log.record'], mode='B', trials=24, note='three boundaries in two rooms, all assignments; any number of steps')
def every_column_belongs_to_its_room_and_boundary(g, W):
    """column rm<i>_<q> is quantity q of room i, rm<i>_b<k>_<q> that of the k-th boundary of room i, row n is step n; the digest is by the hour"""
    np = g.np
    if g.symbolic:
        I, J, N, h, D = 2, 3, g.dim('N'), g.real('h', lo=1, integer=True), g.real('D', lo=1, integer=True)
        conn = g.choice('rooms', [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)])
        more = N
    else:
        I, J, h, D = g.dim('I', 1, 3), g.dim('J', 1, 7), g.choice('h', [4, 1, 2, 6]), g.dim('D', 1, 2)
        N = 24 * h * D
        conn = tuple(int(k) for k in g.index('rooms', J, below=I))
        more = N + g.dim('extra', 0, 5)
    log, pp = State(), State()
    pp.n_spaces, pp.n_bdries = I, J
    pp.p_is_js = g.arr([[1 if conn[j] == i else 0 for j in range(J)] for i in range(I)])
    names = ['wall %d' % j for j in range(J)]
    pp.name_bdry_js = np.array(names) if not g.symbolic else g.arr(names)
    m = W['core.operation_mode'].OperationMode
    given = ('ac_demand_is_ns', 'q_trs_sol_is_ns', 'q_gen_is_ns', 'x_gen_is_ns', 'q_sol_frt_is_ns')
    for q, f in ROOM:
        v = g.enum(f, [m.HEATING, m.COOLING, m.STOP_OPEN], I, N) if f == 'operation_mode' else g.real(f, I, more if f in given else N)
        setattr(log, f, v)
    for q, f in SURF:
        setattr(log, f, g.real(f, J, more if f == 'qisol_s' else N))
    log.theta_o_ns, log.x_o_ns = g.real('theta_o', more), g.real('x_o', more, lo=0.0, hi=0.03)
    simple = g.choice('simple', [False, True])
    detail = not simple if g.symbolic else g.choice('detail', [False, True])
    out = g.dir({})
    ds, dd = W['core.log'].record(pps=pp, logger=log, output_data_dir=out, show_simple_result=simple, show_detail_result=detail,
                                  n_step_main=N, n_d_main=D, **({} if h == 4 and not g.symbolic else {'n_step_hourly': h}))
    cols, hours = (lambda f: f.cols) if g.symbolic else (lambda f: {c: f[c].to_numpy() for c in f.columns}), None
    got, dig = cols(dd), cols(ds)
    for f, asked, d in [('result_digest.csv', simple, ds), ('result_detail.csv', detail, dd)]:
        g.holds(f + ' is written when asked for', g.exists(out, f) == asked)
        if asked and g.symbolic:
            g.holds(f + ' has these columns', set(g.read(out, f).cols) == set(cols(d)))
        elif asked:
            import pandas as pd
            w = pd.read_csv(out + '/' + f, index_col=0, encoding='cp932', parse_dates=True)
            g.holds(f + ' has these columns and times', list(w.columns) == list(d.columns) and list(w.index) == list(d.index))
            for c in d.columns:
                if d[c].dtype == float:
                    g.eq(f + ': ' + c, w[c].to_numpy(), d[c].to_numpy())
    want = {'out_temp': log.theta_o_ns, 'out_abs_humid': log.x_o_ns}
    for i in range(I):
        for q, f in ROOM:
            want['rm%d_%s' % (i, q)] = getattr(log, f)[i]
        for q, f in SURF:
            for k, j in enumerate([j for j in range(J) if conn[j] == i]):
                want['rm%d_b%d_%s' % (i, k, q)] = getattr(log, f)[j]
    g.holds('columns', set(got) == set(want))
    for c in sorted(want):
        g.eq('column ' + c, got[c], want[c] if g.symbolic else want[c][:N])
    wd = {'out_temp': ('mean', 2), 'out_abs_humid': ('mean', 2)}
    for i in range(I):
        for q, how, dec in DIGEST:
            wd['rm%d_%s' % (i, q)] = (how, dec)
        wd['rm%d_ac_operate' % i] = ('first', None)
    g.holds('digest columns', set(dig) == set(wd))
    for c in sorted(wd):
        how, dec = wd[c]
        if g.symbolic:
            x = dig[c]
            g.holds('digest by the hour ' + c, x.ops == ((('asfreq', 'H'),) if how == 'first' else (('resample', 'H'), (how,), ('round', dec))))
            g.eq('digest of ' + c, x.values, want[c])
        else:
            v = want[c][:N].reshape(-1, h)
            if how == 'first':
                g.holds('digest of ' + c, list(dig[c]) == list(v[:, 0]))
            else:
                g.eq('digest of ' + c, dig[c], np.round(getattr(np, how)(v.astype(float), axis=1), dec), abs_tol=1.01 * 10.0 ** -dec)
    if g.symbolic:
        for what, ix, step, n in [('step', dd.index, 3600.0 / h, N), ('hour', ds.index, 3600.0, D * 24)]:
            g.holds('first ' + what, ix.start == '1/1/1989')
            g.eq('times of the %ss' % what, seconds(ix.freq), step)
            g.eq('number of %ss' % what, ix.periods, n)
    else:
        import pandas as pd
        t0 = pd.Timestamp('1989-01-01')
        g.holds('times of the steps', list(dd.index) == [t0 + k * pd.Timedelta(seconds=3600 // h) for k in range(N)])
        g.holds('times of the hours', list(ds.index) == [t0 + k * pd.Timedelta(hours=1) for k in range(24 * D)])


def seconds(f):
    return {'H': 3600.0, 'h': 3600.0, '15min': 900.0, '15T': 900.0}[f] if isinstance(f, str) else f.s
