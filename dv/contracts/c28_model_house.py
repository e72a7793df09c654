"""C28 geometry of the model house made from a floor area, an opening ratio and, if given, an envelope area"""
from ..contract import contract

MH = 'convert.model_house'
KINDS = [('attached', None, None), ('detached', 'base', None), ('detached', 'floor', 'base'), ('detached', 'floor', 'floor'),
         ('detached', 'floor', 'not_exist')]
SIDES = ['main side', 'left', 'back', 'right']
PARTS = [MH + '.' + f for f in ('calc_area', '_get_a_f', '_get_entrance', '_get_bath', '_get_l_prm', '_get_l', '_get_a_evp_ef_other', '_get_a_evp_ef_total',
                                '_get_a_evp_f_other', '_get_a_evp_f_total', '_get_l_base_other', '_get_l_base_total', '_get_a_evp_roof',
                                '_get_a_evp_base_entrance', '_get_a_evp_base_bath', '_get_a_evp_base_other', '_get_a_evp_base_total', '_get_a_evp_srf',
                                '_get_a_evp_total_not_base', '_get_a_evp_total', '_get_a_evp_open_total', '_get_a_evp_window_total', '_get_a_evp_window',
                                '_get_a_evp_door', '_get_a_evp_wall')]
HEIGHT = {'detached': (2.9, 2.7), 'attached': (2.8,)}
FORM = {'detached': (1.08, 1.04), 'attached': (1.048215,)}


def figures(g):
    kind = g.choice('kind', KINDS)
    a = g.real('floor_area', lo=11.0, hi=500.0, hard=True)         # entrance and bath fit on the ground floor
    return kind, a, g.real('open', lo=0.0, hi=0.9)


def foundation(kind):
    """(height of entrance, bath, rest) foundations; their (outside, inside) lengths on the (back, left) sides"""
    house, floor, bath = kind
    if house == 'attached':
        return (0.0, 0.0, 0.0), (0.0, 0.0), (0.0, 0.0), 0.0, 0.0
    on_ground = floor == 'base' or bath == 'base'
    b = 1.82 if on_ground else 0.0
    inside = floor == 'floor'
    return ((0.18, 0.5 if on_ground else 0.0, 0.5 if floor == 'base' else 0.0), (1.82, 1.365), (b, b),
            3.185 if inside else 0.0, 2 * b if inside else 0.0)


@contract('C28', PARTS, trials=300)
def geometry_closes(g, W):
    """floor plan, foundations, envelope and openings agree with each other and with the figures given"""
    np = g.np
    kind, a, r = figures(g)
    house, floor, bath = kind
    s = W[MH].calc_area(house_type=house, a_f_total=a, r_open=r, floor_ins_type=floor, bath_ins_type=bath)
    n = len(HEIGHT[house])
    # storeys
    g.eq('storeys', len(s['a_f']), n)
    g.eq('storeys add up', sum(s['a_f']), a)
    if n == 2:
        g.eq('upper storey', s['a_f'][1], 0.77 * s['a_f'][0])
    g.eq('form', list(s['f_s']), list(FORM[house]))
    plan(g, s, house)
    # ground floor: insulated or on the ground
    ground = s['a_f'][0]
    etrc = 1.0 if house == 'attached' else 1.365 * 1.82
    bth = 2.1 * 1.365 if house == 'attached' else 1.82 * 1.82
    h, l_etrc, l_bath, etrc_in, bath_in = foundation(kind)
    on = {'etrc': house == 'detached', 'bath': bath == 'base' or floor == 'base', 'other': floor == 'base'}
    rest = ground - etrc - bth
    for k, x in (('etrc', etrc), ('bath', bth), ('other', rest)):
        g.eq('%s on the ground' % k, s['a_evp_ef_' + k], x if on[k] else 0.0)
        g.eq('%s insulated' % k, s['a_evp_f_' + k], 0.0 if on[k] else x)
    g.eq('on the ground', s['a_evp_ef_total'], sum(x for k, x in (('etrc', etrc), ('bath', bth), ('other', rest)) if on[k]))
    g.eq('insulated', s['a_evp_f_total'], sum(x for k, x in (('etrc', etrc), ('bath', bth), ('other', rest)) if not on[k]))
    g.eq('ground floor', s['a_evp_ef_total'] + s['a_evp_f_total'], ground)
    g.eq('roof', s['a_evp_roof'], ground)
    # foundations
    sides = [s['l_ms'][0], s['l_os'][0], s['l_ms'][0], s['l_os'][0]]
    e4, b4 = [0.0, l_etrc[0], l_etrc[1], 0.0], [0.0, l_bath[0], l_bath[1], 0.0]
    for i, d in enumerate(SIDES):
        o = sides[i] - e4[i] - b4[i] if on['other'] else 0.0
        g.eq('length entrance ' + d, s['l_base_etrc_outside'][i], e4[i])
        g.eq('length bath ' + d, s['l_base_bath_outside'][i], b4[i])
        g.eq('length rest ' + d, s['l_base_other_outside'][i], o)
        g.eq('length ' + d, s['l_base_total_outside'][i], sides[i] if on['other'] else e4[i] + b4[i])
        for k, x, y in (('etrc', e4[i], h[0]), ('bath', b4[i], h[1]), ('other', o, h[2])):
            g.eq('foundation %s %s' % (k, d), s['a_evp_base_%s_outside' % k][i], x * y)
        g.eq('foundation ' + d, s['a_evp_base_total_outside'][i], e4[i] * h[0] + b4[i] * h[1] + o * h[2])
    g.eq('length entrance inside', s['l_base_etrc_inside'], etrc_in)
    g.eq('length bath inside', s['l_base_bath_inside'], bath_in)
    g.eq('length rest inside', s['l_base_other_inside'], 0.0)
    g.eq('length inside', s['l_base_total_inside'], etrc_in + bath_in)
    g.eq('foundation etrc inside', s['a_evp_base_etrc_inside'], etrc_in * h[0])
    g.eq('foundation bath inside', s['a_evp_base_bath_inside'], bath_in * h[1])
    g.eq('foundation rest inside', s['a_evp_base_other_inside'], 0.0)
    g.eq('foundation inside', s['a_evp_base_total_inside'], etrc_in * h[0] + bath_in * h[1])
    # envelope
    walls = sum(l * x for l, x in zip(s['l_prm'], HEIGHT[house]))
    for i, d in enumerate(SIDES):
        g.eq('side ' + d, list(s['a_evp_srf'][i]), [l * x for l, x in zip([s['l_ms'], s['l_os']][i % 2], HEIGHT[house])])
    g.eq('envelope above the foundations', s['a_evp_total_not_base'], 2 * ground + walls)
    g.eq('envelope', s['a_evp_total'], s['a_evp_total_not_base'] + sum(s['a_evp_base_total_outside']) + s['a_evp_base_total_inside'])
    # openings
    g.eq('openings', s['a_evp_open_total'], r * s['a_evp_total_not_base'])
    doors = {'detached': [0.0, 1.89, 1.62, 0.0], 'attached': [0.0, 0.0, 1.755, 0.0]}[house]
    g.eq('windows', s['a_evp_window_total'], s['a_evp_open_total'] - sum(doors))
    g.eq('windows of the sides add up', sum(s['a_evp_window']), s['a_evp_window_total'])
    share = {'detached': [0.6862, 0.0721, 0.1097, 0.1320], 'attached': [0.6330, 0.1517, 0.2153, 0.0]}[house]
    for i, d in enumerate(SIDES):
        g.eq('doors ' + d, s['a_evp_door'][i], doors[i])
        g.eq('windows ' + d, s['a_evp_window'][i], share[i] * s['a_evp_window_total'])
        g.eq('side filled ' + d, s['a_evp_wall'][i] + s['a_evp_window'][i] + s['a_evp_door'][i], sum(s['a_evp_srf'][i]))


def plan(g, s, house):
    """each storey is a rectangle of its floor area and of the perimeter its form factor says"""
    for i in range(len(HEIGHT[house])):
        g.eq('perimeter of storey %d' % i, s['l_prm'][i], 4 * g.np.sqrt(s['a_f'][i]) * s['f_s'][i])
        g.eq('sides of storey %d' % i, 2 * (s['l_ms'][i] + s['l_os'][i]), s['l_prm'][i])
        g.eq('rectangle of storey %d' % i, s['l_ms'][i] * s['l_os'][i], s['a_f'][i])
        long, short = (s['l_ms'][i], s['l_os'][i]) if house == 'detached' else (s['l_os'][i], s['l_ms'][i])
        g.le('longer side of storey %d' % i, short, long)
        g.le('shorter side of storey %d' % i, 0.0, short)


def given_form(g, house, lo=1.0):
    f = g.real('form', lo=lo, hi=3.0, hard=True)
    return [f * (1.08 / 1.04), f] if house == 'detached' else [f]


@contract('C28', PARTS, trials=200)
def envelope_of_a_given_form(g, W):
    """the form of the plan comes from the envelope area given; plan and envelope follow it"""
    kind, a, r = figures(g)
    house, floor, bath = kind
    env = g.real('envelope', lo=10.0, hi=3000.0)
    fs = given_form(g, house)
    (h_e, h_b, h_o), l_e, l_b, in_e, in_b = foundation(kind)
    sizes = [a / 1.77, a * 0.77 / 1.77] if house == 'detached' else [a]

    def form(house_type, floor_ins_type, bath_ins_type, a_env, a_f, h, h_base_other, h_base_bath, h_base_etrc, l_base_bath_outside,
             l_base_bath_inside, l_base_etrc_outside, l_base_etrc_inside, f_s_default):
        g.eq('kind', str((house_type, floor_ins_type, bath_ins_type)), str(kind))
        g.eq('envelope given', a_env, env)
        g.eq('storeys', list(a_f), sizes)
        g.eq('heights', list(h), list(HEIGHT[house]))
        g.eq('height of the foundations', [h_base_etrc, h_base_bath, h_base_other], [h_e, h_b, h_o])
        g.eq('bath outside', sum(l_base_bath_outside), sum(l_b))
        g.eq('bath inside', l_base_bath_inside, in_b)
        g.eq('entrance outside', sum(l_base_etrc_outside), sum(l_e))
        g.eq('entrance inside', l_base_etrc_inside, in_e)
        g.eq('default form', list(f_s_default), list(FORM[house]))
        return fs
    g.replace(MH, '_get_f_s', form)
    s = W[MH].calc_area(house, a, r, floor, bath, env)
    plan(g, s, house)
    g.eq('form', list(s['f_s']), fs)
    total = 2 * sizes[0] + sum(4 * g.np.sqrt(x) * f * h for x, f, h in zip(sizes, fs, HEIGHT[house])) \
        + (sum(l_e) + in_e) * h_e + (sum(l_b) + in_b) * h_b
    if floor == 'base':
        total = total + (4 * g.np.sqrt(sizes[0]) * fs[0] - sum(l_e) - sum(l_b)) * h_o
    g.eq('envelope', s['a_evp_total'], total)


@contract('C28', [MH + '._get_f_s'], trials=300)
def form_of_an_envelope(g, W):
    """the form that gives the envelope area, the compact one at least"""
    kind = g.choice('kind', KINDS)
    house, floor, bath = kind
    low = floor == 'base'          # only there the rest of the plan has foundations too
    n = 2 if house == 'detached' else 1
    env = g.real('envelope', lo=10.0, hi=3000.0)
    size = [g.real('area%d' % i, lo=1.0, hi=500.0, hard=True) for i in range(n)]
    h = [g.real('height%d' % i, lo=1.0, hi=5.0) for i in range(n)]
    he, hb = [g.real(k, lo=0.0, hi=1.0) for k in ('entrance', 'bath')]
    ho = g.real('rest', lo=0.0, hi=1.0) if low else 0.0
    side = lambda name: tuple(g.real('%s_%d' % (name, i), lo=0.0, hi=5.0) for i in range(4))
    le, lb = side('l_entrance'), side('l_bath')
    ie, ib = (0.0, 0.0) if low else (g.real('in_entrance', lo=0.0, hi=5.0), g.real('in_bath', lo=0.0, hi=5.0))
    d = [g.real('default%d' % i, lo=1.0, hi=1.5, hard=True) for i in range(n)]
    f = W[MH]._get_f_s(house_type=house, floor_ins_type=floor, bath_ins_type=bath, a_env=env, a_f=size, h=h, h_base_other=ho, h_base_bath=hb,
                       h_base_etrc=he, l_base_bath_outside=lb, l_base_bath_inside=ib, l_base_etrc_outside=le, l_base_etrc_inside=ie, f_s_default=d)
    g.eq('storeys', len(f), n)
    g.le('compact at least', 1.0, f[-1])
    if n == 2:
        g.eq('both storeys of like form', f[0] * d[1], f[1] * d[0])
    total = lambda f: (2 * size[0] + sum(4 * g.np.sqrt(x) * k * y for x, k, y in zip(size, f, h)) + (sum(le) + ie) * he + (sum(lb) + ib) * hb
                       + (4 * g.np.sqrt(size[0]) * f[0] - sum(le) - ie - sum(lb) - ib) * ho)
    g.eq('envelope', total(f), env, when=f[-1] > 1.0)
    g.le('not smaller than asked for', env, total(f))


@contract('C28', PARTS + [MH + '._get_f_s'], mode='T', trials=300)
def envelope_area_met_all_in_one(g, W):
    """with an envelope area given the plan is as long as it takes; an area smaller than a compact plan has gives the compact plan"""
    np = g.np
    kind, a, r = figures(g)
    house, floor, bath = kind
    env = g.real('envelope', lo=10.0, hi=3000.0)
    s = W[MH].calc_area(house_type=house, a_f_total=a, r_open=r, floor_ins_type=floor, bath_ins_type=bath, a_env_input=env)
    plan(g, s, house)
    # envelope of the compact plan
    (h_e, h_b, h_o), l_e, l_b, in_e, in_b = foundation(kind)
    compact = (1.08 / 1.04, 1.0) if house == 'detached' else (1.0,)
    sizes = [a / 1.77, a * 0.77 / 1.77] if house == 'detached' else [a]
    least = 2 * sizes[0] + sum(4 * np.sqrt(x) * f * h for x, f, h in zip(sizes, compact, HEIGHT[house])) \
        + (sum(l_e) + in_e) * h_e + (sum(l_b) + in_b) * h_b
    if floor == 'base':
        least = least + (4 * np.sqrt(sizes[0]) * compact[0] - sum(l_e) - sum(l_b)) * h_o
    g.eq('envelope met', s['a_evp_total'], env, when=env >= least)
    g.eq('compact plan', list(s['f_s']), list(compact), when=env <= least)
    g.le('longer than compact', compact[-1], s['f_s'][-1])
    if house == 'detached':
        g.eq('both storeys of like form', s['f_s'][0] * 1.04, s['f_s'][1] * 1.08)


def ordinary(g):
    house, floor, bath = g.choice('kind', KINDS)
    most = (100.0, 0.1) if house == 'attached' else (400.0, 0.15)     # more window than side in a bigger flat
    a, r = g.real('floor_area', lo=60.0, hi=most[0], hard=True), g.real('open', lo=0.03, hi=most[1], hard=True)
    return dict(house_type=house, a_f_total=a, r_open=r, floor_ins_type=floor, bath_ins_type=bath)


@contract('C28', PARTS, trials=300)
def areas_not_negative(g, W):
    """in a house of ordinary size and openings no area or length is negative"""
    s = W[MH].calc_area(**ordinary(g))
    for k in sorted(s):
        if k.startswith(('a_', 'l_', 'f_s')) and k != 'a_evp_wall':
            xs = s[k]
            flat = [y for x in (xs if isinstance(xs, (list, tuple)) else [xs]) for y in (x if isinstance(x, (list, tuple)) else [x])]
            for i, x in enumerate(flat):
                g.le('%s %d' % (k, i), 0.0, x)


@contract('C28', PARTS, mode='T', trials=300)
def walls_not_negative(g, W):
    """nor a wall (not proved: product of the opening ratio and the root of the floor area)"""
    for d, x in zip(SIDES, W[MH].calc_area(**ordinary(g))['a_evp_wall']):
        g.le('wall ' + d, 0.0, x)


# ------------------------------------------------------------------ the parts of the house
def four(g, name, zero=()):
    return tuple(0.0 if i in zero else g.real('%s_%d' % (name, i), lo=0.0, hi=100.0) for i in range(4))


def figures_of_parts(g, kind):
    house, floor, _ = kind
    flat, low = house == 'attached', floor == 'base'
    every = (0, 1, 2, 3)
    return dict(
        a_evp_ef_total=0.0 if flat else g.real('ground', lo=0.0, hi=200.0),
        a_evp_f_total=0.0 if low else g.real('floor', lo=0.0, hi=200.0),
        l_base_total_outside=four(g, 'edge', every if flat else () if low else (0, 3)),
        l_base_total_inside=0.0 if flat or low else g.real('edge_inside', lo=0.0, hi=30.0),
        a_evp_roof=g.real('roof', lo=0.0, hi=200.0),
        a_evp_base_total_outside=four(g, 'foundation', every if flat else () if low else (0, 3)),
        a_evp_base_total_inside=0.0 if flat or low else g.real('foundation_inside', lo=0.0, hi=30.0),
        a_evp_window=four(g, 'window', (3,) if flat else ()),
        a_evp_door=four(g, 'door', (0, 1, 3) if flat else (0, 3)),
        a_evp_wall=four(g, 'wall'))


FACES = ['sw', 'nw', 'ne', 'se']


def expected_parts(kind, s):
    """[(kind, behind, direction, area)] of general parts, windows and doors; [(behind, length)] of edges; areas of ground floors"""
    house, floor, _ = kind
    if house == 'detached':
        gps = [('ceiling', 'outdoor', 'top', s['a_evp_roof'])] + [('wall', 'outdoor', f, x) for f, x in zip(FACES, s['a_evp_wall'])]
        gps += [('wall', 'outdoor', f, x) for f, x in zip(FACES, s['a_evp_base_total_outside'])]
        gps += [('wall', 'open_underfloor', 'horizontal', s['a_evp_base_total_inside']), ('floor', 'open_underfloor', 'downward', s['a_evp_f_total'])]
        ws = [('window', 'outdoor', f, x) for f, x in zip(FACES, s['a_evp_window'])]
        ds = [('door', 'outdoor', f, x) for f, x in zip(FACES, s['a_evp_door'])]
        eps = [('outdoor', sum(s['l_base_total_outside'])), ('open_underfloor', s['l_base_total_inside'])]
    else:
        gps = [('upward_boundary_floor', 'air_conditioned', 'upward', s['a_evp_roof']), ('downward_boundary_floor', 'air_conditioned', 'downward', s['a_evp_f_total']),
               ('wall', 'outdoor', 'sw', s['a_evp_wall'][0]), ('wall', 'outdoor', 'nw', s['a_evp_wall'][1]),
               ('wall', 'open_space', 'horizontal', s['a_evp_wall'][2]), ('boundary_wall', 'air_conditioned', 'horizontal', s['a_evp_wall'][3])]
        ws = [('window', 'outdoor', 'sw', s['a_evp_window'][0]), ('window', 'outdoor', 'nw', s['a_evp_window'][1]),
              ('window', 'open_space', 'horizontal', s['a_evp_window'][2])]
        ds = [('door', 'open_space', 'horizontal', s['a_evp_door'][2])]
        eps = []
    return gps, ws, ds, eps, s['a_evp_ef_total']


@contract('C28', [MH + '.get_model_house_no_spec'], trials=200)
def parts_fill_the_envelope(g, W):
    """every area and length of the geometry becomes a part that faces the right way, and nothing else does"""
    kind = g.choice('kind', KINDS)
    s = figures_of_parts(g, kind)
    out = W[MH].get_model_house_no_spec(house_type=kind[0], floor_ins_type=kind[1], bath_ins_type=kind[2], a_evp_total=g.real('other', lo=0.0, hi=9.0), **s)
    gps, ws, ds, eps, ground = expected_parts(kind, s)
    for what, want, got, tag in (('general parts', gps, out[0], lambda p: p.general_part_type.value), ('windows', ws, out[1], lambda p: 'window'),
                                 ('doors', ds, out[2], lambda p: 'door')):
        keys = sorted({x[:3] for x in want})
        for k in keys:
            here = [p for p in got if (tag(p), p.next_space.value, p.direction.value) == k]
            g.eq('%s: %s to %s facing %s' % ((what,) + k), sum(p.area for p in here), sum(x[3] for x in want if x[:3] == k))
        g.eq('no other ' + what, [str(k) for k in sorted({(tag(p), p.next_space.value, p.direction.value) for p in got} - set(keys))], [])
    for k, x in eps:
        g.eq('edges to ' + k, sum(p.length for p in out[3] if p.next_space.value == k), x)
    g.eq('no other edges', sorted({p.next_space.value for p in out[3]} - {k for k, _ in eps}), [])
    g.eq('ground floors', sum(p.area for p in out[4]), ground)
    for p in out[1]:
        g.eq('shade of the ' + p.name, p.sunshade.get_as_dict(), {'is_defined': True, 'input': 'simple', 'depth': 0.3, 'd_h': 1.0, 'd_e': 0.0})
    for p in out[0] + out[2]:
        if p.next_space.value == 'outdoor':
            g.eq('shade of the ' + p.name, p.sunshade.get_as_dict(), {'is_defined': True, 'input': 'not_input'})
    names = [p.name for xs in out[:4] for p in xs]
    g.eq('names differ', len(names), len(set(names)))


@contract('C28', PARTS + [MH + '.get_model_house_no_spec'], trials=200)
def geometry_becomes_parts(g, W):
    """floor area and opening ratio to parts: all areas are those of the envelope, all edges those of the plan"""
    kind, a, r = figures(g)
    s = W[MH].calc_area(house_type=kind[0], a_f_total=a, r_open=r, floor_ins_type=kind[1], bath_ins_type=kind[2])
    gps, ws, ds, eps, ecs = W[MH].get_model_house_no_spec(**s)
    total = sum(p.area for xs in (gps, ws, ds, ecs) for p in xs)
    g.eq('envelope filled', total, s['a_evp_total'])
    g.eq('edges', sum(p.length for p in eps), sum(s['l_base_total_outside']) + s['l_base_total_inside'])


@contract('C28', [MH + '.get_model_house_no_spec', MH + '._get_a_f', MH + '._get_entrance', MH + '._get_bath', MH + '.calc_area'], trials=300)
def parts_where_there_are_none_rejected(g, W):
    """openings, foundations and edges where this kind of house has none, and unknown kinds of house"""
    kind = g.choice('kind', KINDS)
    house, floor, bath = kind
    s = figures_of_parts(g, kind)
    flat, low = house == 'attached', floor == 'base'
    places = [('a_evp_window', i) for i in ([3] if flat else [])] + [('a_evp_door', i) for i in ([0, 1, 3] if flat else [0, 3])]
    places += [(k, i) for k in ('l_base_total_outside', 'a_evp_base_total_outside') for i in ([0, 1, 2, 3] if flat else [] if low else [0, 3])]
    places += [(k, None) for k in (['a_evp_ef_total'] if flat else []) + (['a_evp_f_total'] if low else [])
               + (['l_base_total_inside', 'a_evp_base_total_inside'] if flat or low else [])]
    k, i = g.choice('place', places + [('house', None), ('insulation', None)])
    x = g.real('there', lo=0.0, hi=50.0, lo_open=True)
    make = W[MH].get_model_house_no_spec
    if k == 'house':
        g.raises('unknown kind of house', lambda: make(house_type='terraced', floor_ins_type=floor, **s))
        g.raises('floor plan of an unknown kind of house', lambda: W[MH].calc_area('terraced', 90.0, 0.1, floor, bath))
    elif k == 'insulation':
        if not flat:
            g.raises('unknown insulation', lambda: make(house_type=house, floor_ins_type='walls', **s))
            g.raises('unknown insulation of the floor', lambda: W[MH].calc_area(house, 90.0, 0.1, 'walls', bath))
            g.raises('no insulation of the floor', lambda: W[MH].calc_area(house, 90.0, 0.1, None, bath))
        if not flat and not low:
            g.raises('unknown insulation of the bath', lambda: W[MH].calc_area(house, 90.0, 0.1, floor, 'walls'))
            g.raises('no insulation of the bath', lambda: W[MH].calc_area(house, 90.0, 0.1, floor, None))
    else:
        s[k] = x if i is None else tuple(x if j == i else y for j, y in enumerate(s[k]))
        g.raises('%s %s' % (k, i), lambda: make(house_type=house, floor_ins_type=floor, **s))
