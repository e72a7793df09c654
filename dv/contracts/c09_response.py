"""C09 response factors of layered constructions"""
import numpy as rnp

from ..contract import contract

RF = 'initializer.response_factor'


@contract('C09', [RF + '.get_RFTRI'], trials=200)
def triangle_response_in_steady_state(g, W):
    """first term and geometric tails of the response to a triangular pulse: their sum over all time is the final value of the step response"""
    np = g.np
    K = g.dim('roots', 1, 5)
    M = g.dim('terms', 1, 5) + 1
    alp = g.real('alp', K, lo=1e-6, hi=0.05)
    at, aa = g.real('at', K, lo=-5.0, hi=5.0), g.real('aa', K, lo=-5.0, hi=5.0)
    at0, aa0 = g.real('at0', lo=0.0, hi=2.0), g.real('aa0', lo=0.0, hi=20.0)
    t, a, t1, a1, row = W[RF].get_RFTRI(alp, at0, aa0, at, aa, M)
    e = np.exp(-alp * 900)
    g.eq('common ratio', row, e)
    for what, first, tail, start, amp in (('through', t, t1, at0, at), ('absorbed', a, a1, aa0, aa)):
        g.eq(what + ' tails', tail, -amp * (1 - e) ** 2 / (alp * 900))
        rest = amp * (1 - e) / (alp * 900)
        g.eq(what + ' of each tail over all time', -tail / (1 - row), rest)
        g.eq(what + ' over all time', first[0] - np.sum(rest), start)
        g.eq(what + ' second', first[1], np.sum(tail))


@contract('C09', [RF + '.get_step_reps_of_wall'], mode='B', trials=200)
def step_response_of_layers(g, W):
    """final value one and the sum of the resistances; the exponentials are the least-squares fit of the transfer functions of the layers, room side first"""
    np = g.np
    n = g.choice('layers', [1, 2, 3])
    heavy = [g.choice('heavy%d' % k, [True, False]) for k in range(n)]
    r = [g.real('r%d' % k, lo=1e-5, hi=5.0, hard=True) for k in range(n)]
    c = [g.real('c%d' % k, lo=0.01, hi=5e5, hard=True) if heavy[k] else 0.0 for k in range(n)]
    P, K, M = g.dim('laps', 3, 6, hard=True), g.dim('roots', 1, 3, hard=True), g.dim('terms', 1, 4) + 1
    laps = g.real('s', P, lo=1e-10, hi=0.1, hard=True, num=lambda x: 1e-6 * 2.3 ** rnp.arange(len(x)) * (1 + x))     # far enough apart for a fit
    alp = g.real('alp', K, lo=1e-10, hi=0.1, hard=True, num=lambda x: 2e-6 * 4.1 ** rnp.arange(len(x)) * (1 + x))
    f = [[1.0, 0.0], [0.0, 1.0]]
    for k in range(n):
        if heavy[k]:
            q = np.sqrt(r[k] * c[k] * laps)
            ch, sh = np.cosh(q), np.sinh(q)
            l = [[ch, r[k] / q * sh], [q / r[k] * sh, ch]]
        else:
            l = [[1.0, r[k]], [0.0, 1.0]]
        f = [[f[i][0] * l[0][j] + f[i][1] * l[1][j] for j in (0, 1)] for i in (0, 1)]
    total = sum(r)
    ga, gt = f[0][1] / f[1][1] - total + laps * 0.0, 1.0 / f[1][1] - 1.0 + laps * 0.0
    at0, aa0, at, aa, st, sa = W[RF].get_step_reps_of_wall(np.array(c), np.array(r), laps, alp, M)
    g.eq('final value through', at0, 1.0)
    g.eq('final value absorbed', aa0, total)
    m = laps.reshape(-1, 1) / (laps.reshape(-1, 1) + alp.reshape(1, -1))
    u = np.linalg.inv(np.dot(m.T, m))
    g.eq('fit through', at, np.dot(u, np.dot(m.T, gt)))
    g.eq('fit absorbed', aa, np.dot(u, np.dot(m.T, ga)))
    for what, step, start, amp in (('through', st, at0, at), ('absorbed', sa, aa0, aa)):
        g.eq('begin ' + what, step[0], start + np.sum(amp))
        g.eq('after the first step ' + what, step[1], start + np.sum(amp * np.exp(-900 * alp)))


def _ratios(g, ground):
    return [1.05970e-09, 4.23890e-09, 1.69560e-08, 6.78060e-08, 2.71280e-07, 1.08500e-06, 4.34170e-06, 1.73610e-05, 6.94444e-05, 2.77778e-04] if ground \
        else [2.0e-06, 7.9e-06, 3.1205e-05, 1.2325e-04, 4.8687e-04, 1.9231e-03, 7.5964e-03, 3.0006e-02]


@contract('C09', [RF + '.calc_response_factor', RF + '.get_alpha_m', RF + '.get_laps'], trials=200)
def response_factors_sum_to_the_final_step_response(g, W):
    """twelve tails; through and absorbed response add up over all time to the final values of the step response of the layers; every tail dies out"""
    np = g.np
    ground = g.choice('ground', [False, True])
    K = len(_ratios(g, ground))
    N = g.dim('layers', 1, 4)
    c, r = g.real('c', N, lo=0.0, hi=5e5), g.real('r', N, lo=1e-5, hi=5.0)
    at, aa = g.real('at', K, lo=-5.0, hi=5.0), g.real('aa', K, lo=-5.0, hi=5.0)
    at0, aa0 = g.real('at0', lo=0.5, hi=2.0), g.real('aa0', lo=0.0, hi=20.0)
    seen = []

    def fit(cs, rs, laps, alp, m):
        seen.append((cs, rs, laps, alp, m))
        return at0, aa0, at, aa, None, None
    g.replace(RF, 'get_step_reps_of_wall', fit)
    pulses = []

    def pulse(alp, s0, b0, s, b, m):
        pulses.append((alp, m, [s0, b0, s, b]))
        e = np.exp(-alp * 900)
        f, t = (1 - e) / (alp * 900), -(1 - e) ** 2 / (alp * 900)
        return [s0 + np.sum(f * s)], [b0 + np.sum(f * b)], t * s, t * b, e
    g.replace(RF, 'get_RFTRI', pulse)       # by triangle_response_in_steady_state
    t0, a0, t1, a1, row, n = W[RF].calc_response_factor(ground, c, r)
    g.holds('the layers are fitted', len(seen) >= 1)
    cs, rs, laps, alp, m = seen[0]
    g.eq('capacities of the layers', cs, c)
    g.eq('resistances of the layers', rs, r)
    g.holds('at least as many points as roots', len(laps) >= len(alp))
    g.eq('number of roots', n, K)
    g.holds('a pulse', len(pulses) >= 1)
    g.eq('roots of the pulse', pulses[0][0], alp)
    for what, x, y in zip(('through', 'absorbed', 'tails through', 'tails absorbed'), pulses[0][2], (at0, aa0, at, aa)):
        g.eq('pulse ' + what, x, y)
    g.holds('terms of the pulse', pulses[0][1] >= 2)
    g.holds('twelve tails', len(t1) == 12 and len(a1) == 12 and len(row) == 12)
    for k in range(12):
        g.le('tail %d does not grow' % k, 0.0, row[k])
        g.le('tail %d dies out' % k, row[k], 1.0 - 1e-7)
        if k < K:
            g.le('point %d is not zero' % k, 1e-12, laps[k])
            g.eq('ratio of tail %d' % k, row[k], np.exp(-900 * alp[k]))
        else:
            g.eq('tail %d through is not used' % k, t1[k], 0.0)
            g.eq('tail %d absorbed is not used' % k, a1[k], 0.0)
    g.eq('through over all time', t0 + sum(t1[k] / (1 - row[k]) for k in range(12)), at0)
    g.eq('absorbed over all time', a0 + sum(a1[k] / (1 - row[k]) for k in range(12)), aa0)


def _layers(g, n):
    return [{'name': 'l%d' % k, 'thermal_resistance': g.real('r%d' % k, lo=1e-5, hi=5.0),
             'thermal_capacity': g.real('c%d' % k, lo=0.0, hi=500.0)} for k in range(n)]


@contract('C09', [RF + '.ResponseFactorFactory.create', RF + '.ResponseFactorFactoryTransientEnvelope.get_response_factors',
                  RF + '.ResponseFactorFactoryTransientGround.get_response_factors'], trials=200)
def layered_constructions_end_at_the_outdoor_air_or_the_deep_ground(g, W):
    """the layers are analysed in their order from the room, with the outside film or three metres of soil behind them; every query is the same"""
    kind = g.choice('kind', ['external_general_part', 'internal', 'ground'])
    n = g.dim('layers', 1, 5)
    k = g.index('k', below=n)
    g.assume(k <= n - 1)
    r, c = g.real('r', n, lo=1e-5, hi=5.0), g.real('c', n, lo=0.0, hi=500.0)
    layers = g.records(n, lambda at, k: {'name': 'layer', 'thermal_resistance': at(r), 'thermal_capacity': at(c)})
    ro = g.real('ro', lo=0.001, hi=1.0)
    spec = {'method': 'layers', 'boundary_type': kind, 'layers': layers}
    if kind != 'ground':
        spec['outside_heat_transfer_resistance'] = ro
    seen = []

    def calc(ground, cs, rs):
        seen.append((ground, cs, rs))
        return 0.5, 0.25, rs * 2.0, cs * 3.0, rs * 0.1, 8
    g.replace(RF, 'calc_response_factor', calc)
    f = W[RF].ResponseFactorFactory.create(spec)
    rf = [f.get_response_factors() for k in range(3)]
    g.holds('analysed', len(seen) >= 1)
    for q in range(3):
        ground, cs, rs = seen[min(q, len(seen) - 1)]
        g.holds('kind of ground, query %d' % q, ground == (kind == 'ground'))
        g.eq('one capacity more than listed, query %d' % q, g.len(cs), n + 1)
        g.eq('one resistance more than listed, query %d' % q, g.len(rs), n + 1)
        g.eq('capacities of the layers, query %d' % q, cs[k], c[k] * 1000)
        g.eq('resistances of the layers, query %d' % q, rs[k], r[k])
        g.eq('capacity behind, query %d' % q, cs[-1], 3300.0 * 3.0 * 1000 if kind == 'ground' else 0.0)
        g.eq('resistance behind, query %d' % q, rs[-1], 3.0 if kind == 'ground' else ro)
        g.eq('through first, query %d' % q, rf[q].rft0, 0.5)
        g.eq('absorbed first, query %d' % q, rf[q].rfa0, 0.25)
        g.eq('through tails, query %d' % q, rf[q].rft1, rs * 2.0)
        g.eq('absorbed tails, query %d' % q, rf[q].rfa1, cs * 3.0)
        g.eq('ratios, query %d' % q, rf[q].row, rs * 0.1)
        g.eq('roots, query %d' % q, rf[q].n_root, 8)


@contract('C09', [RF + '.ResponseFactorFactory.create', RF + '.ResponseFactorFactorySteady.get_response_factors',
                  RF + '.ResponseFactorFactoryDirect.get_response_factors'], trials=200)
def windows_and_doors_answer_at_once(g, W):
    """a part without heat capacity: all heat passes at once through the resistance from inner surface to outside; given factors are taken as they are"""
    kind = g.choice('kind', ['external_transparent_part', 'external_opaque_part', 'given', 'roof'])
    u, ri = g.real('u', lo=0.1, hi=6.0), g.real('ri', lo=0.05, hi=0.15)
    t0, a0 = g.real('t0', lo=0.0, hi=2.0), g.real('a0', lo=0.0, hi=2.0)
    n = 12
    t1, a1, row = g.real('t1', n, lo=-2.0, hi=2.0), g.real('a1', n, lo=-2.0, hi=2.0), g.real('row', n, lo=0.0, hi=0.99)
    spec = {'method': 'u_value', 'boundary_type': kind, 'u_value': u, 'inside_heat_transfer_resistance': ri}
    if kind == 'given':
        spec = {'method': 'response_factor', 'phi_t0': t0, 'phi_a0': a0, 'phi_t1': t1, 'phi_a1': a1, 'r': row}
    if kind == 'roof':
        g.raises('unknown kind of boundary', lambda: W[RF].ResponseFactorFactory.create(spec), KeyError)
        return
    f = W[RF].ResponseFactorFactory.create(spec)
    for q in range(2):
        rf = f.get_response_factors()
        s = ', query %d' % q
        if kind == 'given':
            g.eq('through' + s, rf.rft0, t0)
            g.eq('absorbed' + s, rf.rfa0, a0)
            g.eq('through tails' + s, rf.rft1, t1)
            g.eq('absorbed tails' + s, rf.rfa1, a1)
            g.eq('ratios' + s, rf.row, row)
            g.eq('roots' + s, rf.n_root, n)
        else:
            g.eq('through' + s, rf.rft0, 1.0)
            g.eq('resistances add up' + s, rf.rfa0 + ri, 1 / u)
            for k in range(12):
                g.eq('no through tail %d' % k + s, rf.rft1[k], 0.0)
                g.eq('no absorbed tail %d' % k + s, rf.rfa1[k], 0.0)
                g.eq('no ratio %d' % k + s, rf.row[k], 0.0)


@contract('C09', [RF + '.ResponseFactorFactory.create', RF + '.calc_response_factor', RF + '.get_step_reps_of_wall', RF + '.get_RFTRI'], mode='T', trials=300)
def layered_constructions_in_the_steady_state(g, W):
    """executed: factors of a layered construction over all time; the exponentials minimise the squared error at the points of the fit"""
    np = g.np
    kind = g.choice('kind', ['external_general_part', 'internal', 'ground'])
    n = g.choice('layers', [1, 2, 3, 4])
    layers = _layers(g, n)
    for k in range(n):
        if g.bool('light%d' % k):
            layers[k]['thermal_capacity'] = 0.0
    ro = g.real('ro', lo=0.001, hi=1.0)
    spec = {'method': 'layers', 'boundary_type': kind, 'layers': layers, 'outside_heat_transfer_resistance': ro}
    other = {'method': 'layers', 'boundary_type': g.choice('other', ['internal', 'ground']), 'layers': layers[::-1], 'outside_heat_transfer_resistance': 0.11}
    f = W[RF].ResponseFactorFactory.create(spec)
    a = f.get_response_factors()
    W[RF].ResponseFactorFactory.create(other).get_response_factors()
    b = f.get_response_factors()
    c = W[RF].ResponseFactorFactory.create(spec).get_response_factors()
    for what, o in (('again', b), ('of another analysis', c)):
        g.eq('through ' + what, o.rft0, a.rft0, tol=1e-12)
        g.eq('absorbed ' + what, o.rfa0, a.rfa0, tol=1e-12)
        g.eq('through tails ' + what, o.rft1, a.rft1, tol=1e-12)
        g.eq('absorbed tails ' + what, o.rfa1, a.rfa1, tol=1e-12)
        g.eq('ratios ' + what, o.row, a.row, tol=1e-12)
    total = sum(l['thermal_resistance'] for l in layers) + (3.0 if kind == 'ground' else ro)
    size = 1.0 + np.sum(np.abs(a.rft1 / (1 - a.row)))
    g.eq('through over all time', (a.rft0 + np.sum(a.rft1 / (1 - a.row))) / size, 1.0 / size, abs_tol=1e-7)
    size = total + np.sum(np.abs(a.rfa1 / (1 - a.row)))
    g.eq('absorbed over all time', (a.rfa0 + np.sum(a.rfa1 / (1 - a.row))) / size, total / size, abs_tol=1e-7)
