"""C27 parts of a house written as plain data and read back; builders of such data shared by C25 and C26"""
from ..contract import contract

TYPES = ['roof', 'ceiling', 'wall', 'floor', 'boundary_wall', 'upward_boundary_floor', 'downward_boundary_floor']
SPACES = ['outdoor', 'open_space', 'closed_space', 'air_conditioned', 'open_underfloor', 'closed_underfloor']
DIRECTIONS = ['top', 'n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'bottom', 'upward', 'horizontal', 'downward']
SKY = DIRECTIONS[:10]
ROOMS = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor', 'undefined']
GLASS = ['single', 'double', 'triple_and_more', 'unknown']
FLAME = ['wood', 'resin', 'metal', 'wood_and_metal', 'resin_and_metal', 'unknown']
NAMES = ['part_a', 'part_b']
COMPLEX = ['x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns']
EES = 'convert.ees_house'


def layers(g, tag, *dims, thinnest=0.0):
    """(records, thermal resistances [dims])"""
    np = g.np
    n = g.enum(tag + '_layer_name', NAMES, *dims)
    m = g.enum(tag + '_method', ['conductivity', 'resistance'], *dims)
    t = g.real(tag + '_thickness', *dims, lo=thinnest, hi=0.3)
    c = g.real(tag + '_heat_capacity', *dims, lo=0.0, hi=2000.0)
    k = g.real(tag + '_conductivity', *dims, lo=0.03, hi=2.0, num=lambda v: v * (1.0 + 199.0 * (v > 1.8)))  # some metals
    r = g.real(tag + '_resistance', *dims, lo=0.01, hi=3.0)

    def rec(at):
        base = {'name': at(n), 'thickness': at(t), 'volumetric_specific_heat': at(c)}
        return g.oneof(at(m), {'conductivity': dict(base, heat_resistance_input_method='conductivity', thermal_conductivity=at(k)),
                               'resistance': dict(base, heat_resistance_input_method='resistance', thermal_resistance=at(r))})
    return rec, np.where(m == 'conductivity', t / k, r)


def opaque_shade(g, tag, *dims, kinds=('none', 'not_input', 'complex')):
    kind = g.enum(tag + '_shade', list(kinds), *dims)
    v = {k: g.real(tag + '_' + k, *dims, lo=0.0, hi=3.0) for k in COMPLEX if 'complex' in kinds}
    alts = {'none': lambda at: {'is_defined': False},
            'not_input': lambda at: {'is_defined': True, 'input': 'not_input'},
            'complex': lambda at: dict({'is_defined': True, 'input': 'complex'}, **{k: at(v[k]) for k in v})}
    return kind, lambda at: g.oneof(at(kind), {k: alts[k](at) for k in kinds})


def window_shade(g, tag, *dims, kinds=('none', 'not_input', 'not_exist', 'simple', 'complex')):
    kind = g.enum(tag + '_shade', list(kinds), *dims)
    v = {k: g.real(tag + '_' + k, *dims, lo=0.0, hi=3.0) for k in COMPLEX if 'complex' in kinds}
    s = {k: g.real(tag + '_' + k, *dims, lo=0.1, hi=3.0) for k in ('depth', 'd_h', 'd_e')}
    alts = {'none': lambda at: {'is_defined': False},
            'not_input': lambda at: {'is_defined': True, 'input': 'not_input'},
            'not_exist': lambda at: {'is_defined': True, 'input': 'not_exist'},
            'simple': lambda at: dict({'is_defined': True, 'input': 'simple'}, **{k: at(s[k]) for k in s}),
            'complex': lambda at: dict({'is_defined': True, 'input': 'complex'}, **{k: at(v[k]) for k in v})}
    return kind, s, lambda at: g.oneof(at(kind), {k: alts[k](at) for k in kinds})


def common(g, tag, N, next_spaces=SPACES, directions=DIRECTIONS, rooms=ROOMS):
    a = {'name': g.enum(tag + '_name', NAMES, N), 'next_space': g.enum(tag + '_next', next_spaces, N),
         'direction': g.enum(tag + '_direction', directions, N), 'area': g.real(tag + '_area', N, lo=0.0, hi=100.0),
         'space_type': g.enum(tag + '_room', rooms, N)}
    return a, lambda at: {k: at(v) for k, v in a.items()}


def twice(g, cls, make, ds, N, attrs=()):
    """written as data it is what was read, and read again it is the same part"""
    parts = make(ds)
    back = g.each(parts, lambda p: p.get_as_dict())
    g.eq('as many parts', g.len(parts), N)
    g.eq('the same data', back, ds)
    again = make(back)
    g.eq('the same parts', again, parts)
    return parts, again


def spec_of(g, tag, structure):
    """one specification of a general part, with any number of portions of any number of layers; (data, U value)"""
    np = g.np
    if structure == 'other':
        u = g.real(tag + '_u', lo=0.1, hi=6.0)
        return {'structure': 'other', 'u_value_other': u, 'weight': g.enum(tag + '_weight', ['light', 'heavy'])}, u
    P = g.dim('portions', 1, 3)
    L = g.dim('layers', 1, 3)
    rec, r = layers(g, tag, P, L)
    share = g.shares(tag + '_share', P)
    names = g.enum(tag + '_portion_name', NAMES, P)
    ri, ro = g.real(tag + '_r_in', lo=0.04, hi=0.2), g.real(tag + '_r_out', lo=0.04, hi=0.2)
    d = {'structure': structure, 'r_srf_in': ri, 'r_srf_ex': ro,
         'parts': g.records(P, lambda at, k: {'name': at(names), 'part_area_ratio': at(share),
                                              'layers': g.records(L, lambda at2, j: rec(lambda a: at2(at(a))))})}
    u = np.sum(share / (ri + np.sum(r, axis=1) + ro))
    if structure == 'steel':
        add = g.real(tag + '_u_r', lo=0.0, hi=1.0)
        d['u_r_value_steel'] = add
        u = u + add
    return d, u


@contract('C27', [EES + '.Layer.make_layers', EES + '.Layer.get_as_dict', EES + '.Layer.r'], trials=60)
def layers_there_and_back(g, W):
    E = W[EES]
    L = g.dim('layers', 1, 4)
    rec, r = layers(g, 'l', L)
    ds = g.records(L, lambda at, k: rec(at))
    ls, _ = twice(g, E.Layer, E.Layer.make_layers, ds, L)
    g.eq('thermal resistance', g.arr(g.each(ls, lambda l: l.r)), r)


@contract('C27', [EES + '.GeneralPartSpec.make_general_part_spec', EES + '.GeneralPartPart.make_general_part_parts',
                  EES + '.GeneralPartSpecDetailWood.get_as_dict', EES + '.GeneralPartSpecDetailRC.get_as_dict',
                  EES + '.GeneralPartSpecDetailSteel.get_as_dict', EES + '.GeneralPartSpecUValueOther.get_as_dict'], trials=120)
def specification_there_and_back(g, W):
    """a specification of any form is the same after being written and read, with the U value its layers give"""
    E = W[EES]
    d, u = spec_of(g, 's', g.choice('structure', ['wood', 'rc', 'steel', 'other']))
    t = g.enum('type', TYPES)
    kind = E.GeneralPartType(t)
    s = E.GeneralPartSpec.make_general_part_spec(d=d, general_part_type=kind)
    back = s.get_as_dict()
    g.eq('the same data', back, d)
    again = E.GeneralPartSpec.make_general_part_spec(d=back, general_part_type=kind)
    g.eq('the same specification', again, s)
    g.eq('U value', s.get_u(), u)
    g.eq('U value when read again', again.get_u(), u)


def specs(g, tag, N, structures=('wood', 'rc', 'steel', 'other')):
    """specifications of any of these structures for N parts; (record at k, U values [N])"""
    np = g.np
    if structures == ('other',):
        uo, w = g.real(tag + '_u', N, lo=0.1, hi=6.0), g.enum(tag + '_weight', ['light', 'heavy'], N)
        return lambda k: {'structure': 'other', 'u_value_other': k(uo), 'weight': k(w)}, uo
    st = g.enum(tag + '_structure', list(structures), N)
    P = g.dim(tag + '_portions', 1, 3)
    L = g.dim(tag + '_layers', 1, 3)
    rec, r = layers(g, tag, N, P, L)
    share = g.shares(tag + '_share', P)
    names = g.enum(tag + '_portion_name', NAMES, N, P)
    ri, ro = g.real(tag + '_r_in', N, lo=0.04, hi=0.2), g.real(tag + '_r_out', N, lo=0.04, hi=0.2)
    add = g.real(tag + '_u_r', N, lo=0.0, hi=1.0)
    uo = g.real(tag + '_u', N, lo=0.1, hi=6.0)
    w = g.enum(tag + '_weight', ['light', 'heavy'], N)

    def at(k):
        def detail(s, **more):
            return dict({'structure': s, 'r_srf_in': k(ri), 'r_srf_ex': k(ro),
                         'parts': g.records(P, lambda p, _: {
                             'name': p(k(names)), 'part_area_ratio': p(share),
                             'layers': g.records(L, lambda l, _2: rec(lambda a: l(p(k(a)))))})}, **more)
        alts = {'wood': lambda: detail('wood'), 'rc': lambda: detail('rc'),
                'steel': lambda: detail('steel', u_r_value_steel=k(add)),
                'other': lambda: {'structure': 'other', 'u_value_other': k(uo), 'weight': k(w)}}
        return g.oneof(k(st), {s: alts[s]() for s in structures})
    whole = np.sum(share[np.newaxis, :] / (ri[:, np.newaxis] + np.sum(r, axis=2) + ro[:, np.newaxis]), axis=1)
    u = np.where(st == 'other', uo, np.where(st == 'steel', whole + add, whole))
    return at, u


def general_parts(g, tag, N, shades=('none', 'not_input', 'complex'), structures=('wood', 'rc', 'steel', 'other'), **kw):
    """(data, everything the data says)"""
    cols, com = common(g, tag, N, **kw)
    spec, u = specs(g, tag, N, structures)
    kind, shade = opaque_shade(g, tag, N, kinds=shades)
    t = g.enum(tag + '_type', TYPES, N)
    ds = g.records(N, lambda at, k: dict(com(at), general_part_type=at(t), spec=spec(at), sunshade=shade(at)))
    return ds, dict(cols, u=u, shade=kind, type=t)


def windows(g, tag, N, shades=('none', 'not_input', 'not_exist', 'simple', 'complex'), **kw):
    cols, com = common(g, tag, N, **kw)
    kind, s, shade = window_shade(g, tag, N, kinds=shades)
    v = {'u': g.real(tag + '_u', N, lo=0.5, hi=6.5), 'eta_h': g.real(tag + '_eta_h', N, lo=0.0, hi=0.9),
         'eta_c': g.real(tag + '_eta_c', N, lo=0.0, hi=0.9), 'glass': g.enum(tag + '_glass', GLASS, N),
         'flame': g.enum(tag + '_flame', FLAME, N)}
    ds = g.records(N, lambda at, k: dict(com(at), sunshade=shade(at), spec={
        'u_value': at(v['u']), 'eta_d_h_value': at(v['eta_h']), 'eta_d_c_value': at(v['eta_c']),
        'glass_type': at(v['glass']), 'flame_type': at(v['flame'])}))
    return ds, dict(cols, shade=kind, **s, **v)


def doors(g, tag, N, shades=('none', 'not_input', 'complex'), **kw):
    cols, com = common(g, tag, N, **kw)
    kind, shade = opaque_shade(g, tag, N, kinds=shades)
    u = g.real(tag + '_u', N, lo=0.5, hi=6.5)
    ds = g.records(N, lambda at, k: dict(com(at), sunshade=shade(at), spec={'u_value': at(u)}))
    return ds, dict(cols, shade=kind, u=u)


def perimeters(g, tag, N, next_spaces=SPACES):
    v = {'name': g.enum(tag + '_name', NAMES, N), 'next_space': g.enum(tag + '_next', next_spaces, N),
         'length': g.real(tag + '_length', N, lo=0.0, hi=60.0), 'space_type': g.enum(tag + '_room', ROOMS, N)}
    psi = g.real(tag + '_psi', N, lo=0.1, hi=3.0)
    ds = g.records(N, lambda at, k: dict({m: at(x) for m, x in v.items()}, spec={'psi_value': at(psi)}))
    return ds, dict(v, psi=psi)


def centres(g, tag, N):
    v = {'name': g.enum(tag + '_name', NAMES, N), 'area': g.real(tag + '_area', N, lo=0.0, hi=100.0),
         'space_type': g.enum(tag + '_room', ROOMS, N)}
    L = g.dim(tag + '_layers', 1, 3)
    rec, r = layers(g, tag, N, L)
    ds = g.records(N, lambda at, k: dict({m: at(x) for m, x in v.items()},
                                         spec={'layers': g.records(L, lambda l, _: rec(lambda a: l(at(a))))}))
    return ds, v


def bridges(g, tag, N, directions=DIRECTIONS):
    B = g.dim(tag + '_sides', 1, 3)
    ns, dr = g.enum(tag + '_nexts', SPACES, N, B), g.enum(tag + '_directions', directions, N, B)
    v = {'name': g.enum(tag + '_name', NAMES, N), 'length': g.real(tag + '_length', N, lo=0.0, hi=60.0),
         'space_type': g.enum(tag + '_room', ROOMS, N)}
    psi = g.real(tag + '_psi', N, lo=0.0, hi=1.0)
    ds = g.records(N, lambda at, k: dict({m: at(x) for m, x in v.items()}, spec={'psi_value': at(psi)},
                                         next_spaces=g.records(B, lambda b, _: b(at(ns))),
                                         directions=g.records(B, lambda b, _: b(at(dr)))))
    return ds, dict(v, psi=psi, next_spaces=ns, directions=dr)


@contract('C27', [EES + '.GeneralPart.make_general_parts', EES + '.GeneralPart.get_as_dict', EES + '.GeneralPart.get_u',
                  'convert.factor_f.SunshadeOpaque.make_sunshade_opaque'], trials=60)
def general_parts_there_and_back(g, W):
    """any number of general parts, each with any specification and any shading"""
    E = W[EES]
    N = g.dim('parts', 1, 3)
    ds, v = general_parts(g, 'p', N)
    parts, again = twice(g, E.GeneralPart, E.GeneralPart.make_general_parts, ds, N)
    g.eq('area', g.arr(g.each(again, lambda p: p.area)), v['area'])
    g.eq('U value', g.arr(g.each(again, lambda p: p.get_u())), v['u'])


@contract('C27', [EES + '.Window.make_windows', EES + '.Window.get_as_dict', EES + '.WindowSpec.make_window_spec', EES + '.WindowSpec.get_as_dict',
                  'convert.factor_f.SunshadeTransient.make_sunshade_transient'], trials=60)
def windows_there_and_back(g, W):
    E = W[EES]
    N = g.dim('windows', 1, 4)
    ds, v = windows(g, 'w', N)
    parts, again = twice(g, E.Window, E.Window.make_windows, ds, N)
    g.eq('area', g.arr(g.each(again, lambda p: p.area)), v['area'])
    g.eq('U value', g.arr(g.each(again, lambda p: p.get_u())), v['u'])
    g.eq('heating transmittance', g.arr(g.each(again, lambda p: p.get_eta_d('heating'))), v['eta_h'])
    g.eq('cooling transmittance', g.arr(g.each(again, lambda p: p.get_eta_d('cooling'))), v['eta_c'])


@contract('C27', [EES + '.Door.make_doors', EES + '.Door.get_as_dict'], trials=60)
def doors_there_and_back(g, W):
    E = W[EES]
    N = g.dim('doors', 1, 4)
    ds, v = doors(g, 'd', N)
    parts, again = twice(g, E.Door, E.Door.make_doors, ds, N)
    g.eq('area', g.arr(g.each(again, lambda p: p.area)), v['area'])
    g.eq('U value', g.arr(g.each(again, lambda p: p.get_u())), v['u'])


@contract('C27', [EES + '.EarthfloorPerimeter.make_earthfloor_perimeters', EES + '.EarthfloorPerimeter.get_as_dict'], trials=60)
def earth_floor_perimeters_there_and_back(g, W):
    E = W[EES]
    N = g.dim('perimeters', 1, 4)
    ds, v = perimeters(g, 'e', N)
    parts, again = twice(g, E.EarthfloorPerimeter, E.EarthfloorPerimeter.make_earthfloor_perimeters, ds, N)
    g.eq('length', g.arr(g.each(again, lambda p: p.length)), v['length'])
    g.eq('psi value', g.arr(g.each(again, lambda p: p.get_psi())), v['psi'])


@contract('C27', [EES + '.EarthfloorCenter.make_earthfloor_centers', EES + '.EarthfloorCenter.get_as_dict'], trials=60)
def earth_floor_centres_there_and_back(g, W):
    E = W[EES]
    N = g.dim('centres', 1, 4)
    ds, v = centres(g, 'c', N)
    parts, again = twice(g, E.EarthfloorCenter, E.EarthfloorCenter.make_earthfloor_centers, ds, N)
    g.eq('area', g.arr(g.each(again, lambda p: p.area)), v['area'])


@contract('C27', [EES + '.Heatbridge.make_heatbridges', EES + '.Heatbridge.get_as_dict'], trials=60)
def heat_bridges_there_and_back(g, W):
    E = W[EES]
    N = g.dim('bridges', 1, 4)
    ds, v = bridges(g, 'b', N)
    parts, again = twice(g, E.Heatbridge, E.Heatbridge.make_heatbridges, ds, N)
    g.eq('length', g.arr(g.each(again, lambda p: p.length)), v['length'])
    g.eq('psi value', g.arr(g.each(again, lambda p: p.get_psi())), v['psi'])


@contract('C27', [EES + '.InnerFloor.make_inner_floors', EES + '.InnerFloor.get_as_dict',
                  EES + '.InnerWall.make_inner_walls', EES + '.InnerWall.get_as_dict'], trials=60)
def inner_floors_and_walls_there_and_back(g, W):
    E = W[EES]
    N = g.dim('parts', 1, 4)
    L = g.dim('layers', 1, 3)
    which = g.choice('which', ['floor', 'wall'])
    sides = {'floor': ['upper_space_type', 'lower_space_type'], 'wall': ['space_type_1', 'space_type_2']}[which]
    rec, r = layers(g, 'i', N, L)
    v = {'name': g.enum('name', NAMES, N), 'area': g.real('area', N, lo=0.0, hi=100.0)}
    v.update({s: g.enum(s, ROOMS, N) for s in sides})
    ds = g.records(N, lambda at, k: dict({m: at(x) for m, x in v.items()},
                                         spec={'layers': g.records(L, lambda l, _: rec(lambda a: l(at(a))))}))
    if which == 'floor':
        parts, again = twice(g, E.InnerFloor, E.InnerFloor.make_inner_floors, ds, N)
    else:
        parts, again = twice(g, E.InnerWall, E.InnerWall.make_inner_walls, ds, N)
    g.eq('area', g.arr(g.each(again, lambda p: p.area)), v['area'])


@contract('C27', [EES + '.GeneralPartSpec.make_general_part_spec', EES + '.GeneralPart.make_general_part', EES + '.Window.make_window',
                  EES + '.Door.make_door', EES + '.EarthfloorPerimeter.make_earthfloor_perimeter', EES + '.Heatbridge.make_heatbridge',
                  EES + '.Layer.make_layer', 'convert.factor_f.SunshadeOpaque.make_sunshade_opaque',
                  'convert.factor_f.SunshadeTransient.make_sunshade_transient'], trials=200)
def unknown_kinds_are_rejected(g, W):
    """one entry of an otherwise good description says something else: no part is made"""
    E = W[EES]
    what = g.choice('what', ['general', 'window', 'door', 'perimeter', 'bridge', 'layer', 'shares'])
    wrong = g.choice('wrong', ['', 'unknown kind', 'Outdoor', 'walls', None])

    def spoilt(d, path):
        d = dict(d)
        d[path[0]] = wrong if len(path) == 1 else spoilt(d[path[0]], path[1:])
        return d
    a = g.real('area', lo=0.0, hi=100.0)
    u = g.real('u', lo=0.1, hi=6.0)
    base = {'name': 'a', 'next_space': 'outdoor', 'direction': 's', 'area': a, 'space_type': 'main_occupant_room',
            'sunshade': {'is_defined': True, 'input': 'not_input'}}
    layer = {'name': 'l', 'heat_resistance_input_method': 'resistance', 'thickness': a, 'volumetric_specific_heat': u,
             'thermal_resistance': u}
    if what == 'shares':
        P = g.dim('portions', 1, 3)
        s = g.real('share', P, lo=0.0, hi=1.0)
        g.assume(g.np.sum(s) > 1.001 if g.choice('more', [True, False]) else g.np.sum(s) < 0.999)
        st = g.choice('structure', ['wood', 'rc', 'steel'])
        d = {'structure': st, 'r_srf_in': u, 'r_srf_ex': u, 'u_r_value_steel': u,
             'parts': g.records(P, lambda at, k: {'name': 'a', 'part_area_ratio': at(s), 'layers': [layer]})}
        g.raises('shares that do not fill the part', lambda: E.GeneralPartSpec.make_general_part_spec(d=d, general_part_type=E.GeneralPartType('wall')).get_u())
        return
    good, path, make = {
        'general': (dict(base, general_part_type='wall', spec={'structure': 'other', 'u_value_other': u, 'weight': 'light'}),
                    [['next_space'], ['direction'], ['space_type'], ['general_part_type'], ['sunshade', 'input'], ['spec', 'structure']],
                    E.GeneralPart.make_general_part),
        'window': (dict(base, spec={'u_value': u, 'eta_d_h_value': u, 'eta_d_c_value': u, 'glass_type': 'single', 'flame_type': 'wood'}),
                   [['next_space'], ['direction'], ['space_type'], ['sunshade', 'input'], ['spec', 'glass_type'], ['spec', 'flame_type']],
                   E.Window.make_window),
        'door': (dict(base, spec={'u_value': u}), [['next_space'], ['direction'], ['space_type'], ['sunshade', 'input']],
                 E.Door.make_door),
        'perimeter': ({'name': 'a', 'next_space': 'outdoor', 'length': a, 'space_type': 'underfloor', 'spec': {'psi_value': u}},
                      [['next_space'], ['space_type']], E.EarthfloorPerimeter.make_earthfloor_perimeter),
        'bridge': ({'name': 'a', 'next_spaces': ['outdoor', wrong], 'directions': ['s', 'n'], 'length': a, 'space_type': 'underfloor',
                    'spec': {'psi_value': u}}, [['space_type'], ['next_spaces']], E.Heatbridge.make_heatbridge),
        'layer': (layer, [['heat_resistance_input_method']], E.Layer.make_layer)}[what]
    p = g.choice('entry', path)
    bad = good if p == ['next_spaces'] else spoilt(good, p)
    g.raises('not guessed', lambda: make(bad))


@contract('C27', [EES + '.GeneralPart.get_m', EES + '.Window.get_m', EES + '.Door.get_m'], trials=60)
def solar_gain_of_the_part_read_back(g, W):
    """the part read back takes in the sun as the part written did"""
    E = W[EES]
    what = g.choice('what', ['general', 'window', 'door'])
    region = g.choice('region', [1, 2, 3, 4, 5, 6, 7, 8])
    season = g.choice('season', ['heating', 'cooling'])
    g.assume(not (region == 8 and season == 'heating'))
    N = g.dim('parts', 1, 3)
    if what == 'general':
        ds, v = general_parts(g, 'p', N, shades=('not_input',), directions=SKY)
        make = E.GeneralPart.make_general_parts
    elif what == 'window':
        ds, v = windows(g, 'w', N, shades=('not_input', 'simple'), directions=SKY)
        make = E.Window.make_windows
    else:
        ds, v = doors(g, 'd', N, shades=('not_input',), directions=SKY)
        make = E.Door.make_doors
    parts = make(ds)
    again = make(g.each(parts, lambda p: p.get_as_dict()))
    g.eq('solar gain', g.arr(g.each(again, lambda p: p.get_m(region=region, season=season))),
         g.arr(g.each(parts, lambda p: p.get_m(region=region, season=season))))
