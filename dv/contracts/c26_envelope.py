"""C26 heat loss and solar gain of an envelope: sums over its parts; values derived from target averages"""
from ..contract import contract
from .c27_data import (EES, NAMES, TYPES, layers, common, SKY, SPACES, DIRECTIONS, ROOMS, general_parts, windows, doors, perimeters, centres, bridges)

CHECK = 'convert.check_ua_a_eta_a'
UPSI = 'convert.get_u_psi_eta_from_u_a_and_eta_a'
LV2 = 'convert.convert_indices_to_lv2_info'
SIDE = ['top', 'n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'bottom']
# direction coefficients of the energy standard, regions 1 to 8
NU = {'heating': {'top': [1.0] * 7, 'bottom': [0.0] * 7,
                  'n': [0.260, 0.263, 0.284, 0.256, 0.238, 0.261, 0.227],
                  'ne': [0.333, 0.341, 0.348, 0.330, 0.310, 0.325, 0.281],
                  'e': [0.564, 0.554, 0.540, 0.531, 0.568, 0.579, 0.543],
                  'se': [0.823, 0.766, 0.751, 0.724, 0.846, 0.833, 0.843],
                  's': [0.935, 0.856, 0.851, 0.815, 0.983, 0.936, 1.023],
                  'sw': [0.790, 0.753, 0.750, 0.723, 0.815, 0.763, 0.848],
                  'w': [0.535, 0.544, 0.542, 0.527, 0.538, 0.523, 0.548],
                  'nw': [0.325, 0.341, 0.351, 0.326, 0.297, 0.317, 0.284]},
      'cooling': {'top': [1.0] * 8, 'bottom': [0.0] * 8,
                  'n': [0.329, 0.341, 0.335, 0.322, 0.373, 0.341, 0.307, 0.325],
                  'ne': [0.430, 0.412, 0.390, 0.426, 0.437, 0.431, 0.415, 0.414],
                  'e': [0.545, 0.503, 0.468, 0.518, 0.500, 0.512, 0.509, 0.515],
                  'se': [0.560, 0.527, 0.487, 0.508, 0.500, 0.498, 0.490, 0.528],
                  's': [0.502, 0.507, 0.476, 0.437, 0.472, 0.434, 0.412, 0.480],
                  'sw': [0.526, 0.548, 0.550, 0.481, 0.520, 0.491, 0.479, 0.517],
                  'w': [0.508, 0.529, 0.553, 0.481, 0.518, 0.504, 0.495, 0.505],
                  'nw': [0.411, 0.428, 0.447, 0.401, 0.442, 0.427, 0.406, 0.411]}}


def pick(g, sel, values, default=0.0):
    r = default
    for k, v in values.items():
        r = g.np.where(sel == k, v, r)
    return r


def behind(g, sel, region):
    """temperature-difference coefficient of the space behind"""
    same = 0.05 if region <= 3 else 0.15
    return pick(g, sel, {'outdoor': 1.0, 'open_space': 1.0, 'closed_space': 0.7, 'open_underfloor': 0.7,
                         'air_conditioned': same, 'closed_underfloor': same})


def facing(g, sel, region, season):
    return pick(g, sel, {d: NU[season][d][region - 1] for d in SIDE})


def opening(g, v, region, season):
    """share of the solar gain a window keeps behind its shading"""
    np = g.np
    hot = region == 8
    ratio = lambda e: (e * v['d_e'] + v['d_h']) / v['depth']
    d = v['direction']
    if season == 'heating':
        south = np.minimum(0.01 * (5 + 20 * ratio(3)), 0.72)
        other = np.minimum(0.01 * (10 + 15 * ratio(2)), 0.72)
    elif hot:
        south = np.minimum(0.01 * (16 + 19 * ratio(2)), 0.93)
        other = np.minimum(0.01 * (16 + 24 * ratio(2)), 0.93)
    else:
        south = np.minimum(0.01 * (24 + 9 * ratio(3)), 0.93)
        other = np.minimum(0.01 * (16 + 24 * ratio(2)), 0.93)
    facing_south = d == 's' if season == 'cooling' and not hot else (d == 's') | (d == 'se') | (d == 'sw')
    simple = np.where(d == 'top', 1.0, np.where(d == 'bottom', 0.0, np.where(facing_south, south, other)))
    return np.where(v['shade'] == 'simple', simple, {'heating': 0.51, 'cooling': 0.93}[season])


REGIONS = [1, 2, 3, 4, 5, 6, 7, 8]


@contract('C26', [EES + '.GeneralPartSpecDetail.make_initializer_dict', EES + '.GeneralPartSpecDetailWood.make_initializer_dict',
                  EES + '.GeneralPartSpecDetailRC.make_initializer_dict', EES + '.GeneralPartSpecDetailSteel.make_initializer_dict',
                  EES + '.GeneralPartPart.make_initializer_dict', EES + '.Layer.make_initializer_dict'], trials=60)
def layers_given_to_the_preparation_lose_the_heat_of_the_part(g, W):
    """a part handed on in portions of layers keeps its area, and area times U value of the portions is area times the U value of
    the part (with what is added for bridges); the layers keep their heat capacity"""
    np = g.np
    E = W[EES]
    structure = g.choice('structure', ['wood', 'rc', 'steel'])
    P, L = g.dim('portions', 1, 3), g.dim('layers', 1, 3)
    rec, r = layers(g, 's', P, L, thinnest=0.001)
    share = g.shares('share', P)
    names = g.enum('portion', NAMES, P)
    ri, ro = g.real('r_in', lo=0.04, hi=0.2), g.real('r_out', lo=0.04, hi=0.2)
    area, add, name = g.real('area', lo=1.0, hi=100.0), g.real('u_add', lo=0.0, hi=0.3), g.enum('name', NAMES)
    d = {'structure': structure, 'r_srf_in': ri, 'r_srf_ex': ro,
         'parts': g.records(P, lambda at, k: {'name': at(names), 'part_area_ratio': at(share),
                                              'layers': g.records(L, lambda at2, j: rec(lambda a: at2(at(a))))})}
    frame = 0.0
    if structure == 'steel':
        frame = g.real('u_r', lo=0.0, hi=0.5)
        d['u_r_value_steel'] = frame
    s = E.GeneralPartSpec.make_general_part_spec(d=d, general_part_type=E.GeneralPartType(g.enum('type', TYPES)))
    out = s.make_initializer_dict(name=name, area=area, u_add=add)
    g.eq('one entry for each portion', g.len(out), P)
    a = g.arr(g.each(out, lambda e: e['area']))
    g.eq('areas', a, area * share)
    inside, outside = (g.arr(g.each(out, lambda e: e[k + '_heat_transfer_resistance'])) for k in ('inside', 'outside'))
    g.eq('inside surface', inside, ri)
    g.eq('outside surface', outside, ro)
    res = g.arr(g.each(out, lambda e: np.sum(g.arr(g.each(e['layers'], lambda l: l['thermal_resistance'])))))
    own = 1 / (ri + np.sum(r, axis=1) + ro)
    g.eq('resistance of the layers', res, 1 / (own + frame + add) - ri - ro)
    g.eq('resistances keep their proportions', g.arr(g.each(out, lambda e: g.arr(g.each(e['layers'], lambda l: l['thermal_resistance'])))) * np.sum(r, axis=1)[:, np.newaxis],
         r * res[:, np.newaxis])
    g.eq('heat capacities', g.arr(g.each(out, lambda e: g.arr(g.each(e['layers'], lambda l: l['thermal_capacity'])))),
         g.arr(g.each(d['parts'], lambda e: g.arr(g.each(e['layers'], lambda l: l['thickness'] * l['volumetric_specific_heat'])))))


@contract('C26', [EES + '.GeneralPartSpecUValue.make_initializer_dict', EES + '.GeneralPartSpecUValue._convert_to_general_part_spec_detail',
                  EES + '.GeneralPartSpecUValue._make_layers_from_default_layers', EES + '.GeneralPartSpecUValue.r_srf_in',
                  EES + '.GeneralPartSpecUValue.r_srf_ex'], trials=60)
def layers_made_from_a_u_value_have_that_u_value(g, W):
    """insulation is chosen so that the default construction of each kind and weight has the U value given, or none where it loses less without"""
    np = g.np
    E = W[EES]
    kind, weight = g.choice('type', TYPES), g.choice('weight', ['light', 'heavy'])
    u, add, area = g.real('u', lo=0.05, hi=5.0), g.real('u_add', lo=0.0, hi=0.3), g.real('area', lo=1.0, hi=100.0)
    s = E.GeneralPartSpec.make_general_part_spec(d={'structure': 'other', 'u_value_other': u, 'weight': weight}, general_part_type=E.GeneralPartType(kind))
    out = s.make_initializer_dict(name=g.enum('name', NAMES), area=area, u_add=add)
    g.eq('entries', g.len(out), 1)
    e = out[0]
    g.eq('area', e['area'], area)
    upward, downward = kind in ('roof', 'ceiling', 'upward_boundary_floor'), kind in ('floor', 'downward_boundary_floor')
    near = 0.09 if upward else 0.15 if downward else 0.11
    g.eq('inside surface', e['inside_heat_transfer_resistance'], near)
    g.eq('outside surface', e['outside_heat_transfer_resistance'], 0.04 if kind in ('roof', 'wall') else near)
    res = 0.0
    for l in e['layers']:
        res = res + l['thermal_resistance']
        g.le('no negative resistance', -1e-9, l['thermal_resistance'])
        g.le('some heat capacity', 0.0, l['thermal_capacity'])
    # board, plywood and concrete around the insulation: heat capacities, resistances without insulation
    board, ply, thick, slab = (7.885, 0.0095 / 0.221), (8.64, 0.075), (17.28, 0.15), (240.0, 0.075)
    around = {'light': {'roof': [board], 'ceiling': [board], 'wall': [board, ply], 'floor': [thick], 'boundary_wall': [board, board],
                        'upward_boundary_floor': [board, thick], 'downward_boundary_floor': [thick, board]},
              'heavy': {'roof': [board, slab], 'ceiling': [board, slab], 'wall': [board, slab], 'floor': [thick, slab], 'boundary_wall': [board, board],
                        'upward_boundary_floor': [board, slab, thick], 'downward_boundary_floor': [thick, slab, board]}}[weight][kind]
    bare = near + (0.04 if kind in ('roof', 'wall') else near) + sum(x[1] for x in around)                      # m2K/W
    ins = np.maximum(1 / u - bare, 0.0)
    g.eq('U value', 1 / (e['inside_heat_transfer_resistance'] + res + e['outside_heat_transfer_resistance']), 1 / (bare + ins) + add)
    g.eq('the U value given', 1 / (e['inside_heat_transfer_resistance'] + res + e['outside_heat_transfer_resistance']), u + add, when=1 / u > bare)
    heat = 0.0
    for l in e['layers']:
        heat = heat + l['thermal_capacity']
    g.eq('heat capacity', heat, sum(x[0] for x in around) + 13.0 * 0.045 * ins)


@contract('C26', [EES + '.GeneralPart.make_initializer_dict', EES + '.Window.make_initializer_dict', EES + '.Door.make_initializer_dict',
                  EES + '.SpaceType.get_connected_id', 'external.factor_h.NextSpace.get_is_sun_striked_outside'], trials=120)
def parts_given_to_the_preparation_lose_the_same_heat(g, W):
    """entries made for the preparation belong to the room of the part and have its direction, and area times U value times the
    temperature-difference coefficient is the heat loss of the part"""
    np = g.np
    E = W[EES]
    region = g.choice('region', REGIONS)
    N = g.dim('parts', 1, 3)
    rooms = ROOMS[:4]
    kind = g.choice('kind', ['general', 'window', 'door'])
    if kind == 'general':
        cols, com = common(g, 'p', N, rooms=rooms, directions=SKY)
        P = g.dim('portions', 1, 3)
        share = g.shares('share', P)
        ty = g.enum('type', TYPES, N)
        add = g.real('u_add', lo=0.0, hi=0.3)
        # the specification by its contract (layers_given_to_the_preparation_lose_the_heat_of_the_part): portions which share the area
        portion = g.real('portion', P, lo=0.0, hi=1.0)
        own = g.real('own_u', N, lo=0.1, hi=3.0)
        ds = g.records(N, lambda at, k: dict(com(at), general_part_type=at(ty), sunshade={'is_defined': True, 'input': 'not_input'},
                                             spec={'structure': 'other', 'u_value_other': at(own), 'weight': 'light'}))
        g.replace(EES, 'GeneralPartSpecUValue.make_initializer_dict', lambda self, name, area, u_add: g.records(P, lambda at, k: {
            'name': name, 'area': area * at(portion), 'layers': [self.get_u() + u_add], 'inside_heat_transfer_resistance': 0.11,
            'outside_heat_transfer_resistance': at(share)}))
        parts = E.GeneralPart.make_general_parts(ds)
        out = g.each(parts, lambda p: p.make_initializer_dict(u_add=add, region=region))
        col = lambda f: g.arr(g.each(out, lambda e: g.arr(g.each(e, f))))
        wide = lambda x: x[:, np.newaxis] + 0 * portion
        g.eq('areas', col(lambda e: e['area']), cols['area'][:, np.newaxis] * portion)
        g.eq('layers of the portion', col(lambda e: e['layers'][0]), wide(own) + add)
        g.eq('surface of the portion', col(lambda e: e['outside_heat_transfer_resistance']), share + wide(0 * own))
        floor = (ty == 'floor') | (ty == 'downward_boundary_floor')
        g.eq('sunshine falls on floors', col(lambda e: np.where(e['is_solar_absorbed_inside'], 1.0, 0.0)), wide(np.where(floor, 1.0, 0.0)))
    elif kind == 'window':
        ds, cols = windows(g, 'w', N, shades=('not_input', 'simple'), rooms=rooms, directions=SKY)
        parts = E.Window.make_windows(ds)
        out = g.each(parts, lambda p: p.make_initializer_dict(region=region))
    else:
        ds, cols = doors(g, 'd', N, shades=('not_input',), rooms=rooms, directions=SKY)
        parts = E.Door.make_doors(ds)
        out = g.each(parts, lambda p: p.make_initializer_dict(region=region))
    if kind != 'general':
        wide = lambda x: x
        col = lambda f: g.arr(g.each(out, f))
        g.eq('heat loss', col(lambda e: e['area'] * e['u_value'] * e['temp_dif_coef']), g.arr(g.each(parts, lambda p: p.get_q(region=region))))
        g.eq('area', col(lambda e: e['area']), cols['area'])
    if kind == 'window':
        g.eq('transmittance', col(lambda e: e['eta_d_h_value']), cols['eta_h'])
        g.eq('transmittance in summer', col(lambda e: e['eta_d_c_value']), cols['eta_c'])
    g.eq('temperature difference', col(lambda e: e['temp_dif_coef']), wide(behind(g, cols['next_space'], region)))
    g.eq('emissivity outside', col(lambda e: e['outside_emissivity']), wide(0.9 + 0 * cols['area']))
    if kind != 'window':
        g.eq('absorption outside', col(lambda e: e['outside_solar_absorption']), wide(0.8 + 0 * cols['area']))
    if kind != 'general':
        g.eq('surface inside', col(lambda e: e['inside_heat_transfer_resistance']), 0.13 + 0 * cols['area'])
        g.eq('surface outside', col(lambda e: e['outside_heat_transfer_resistance']), 0.04 + 0 * cols['area'])
    room = pick(g, cols['space_type'], dict(zip(rooms, (0, 1, 2, 3))))
    g.eq('room', col(lambda e: e['connected_room_id'] if 'connected_room_id' in e else e['connected_id']), wide(room))
    sunny = (cols['next_space'] == 'outdoor')
    to = {d: float(i) for i, d in enumerate(SKY)}
    g.eq('direction', col(lambda e: pick(g, e['direction'], to) if 'direction' in e else -1.0 + 0 * e['area']),
         wide(np.where(sunny | (kind == 'door'), pick(g, cols['direction'], to), -1.0)))
    g.eq('sunshine outside', col(lambda e: np.where(e['is_sun_striked_outside'], 1.0, 0.0)), wide(np.where(sunny, 1.0, 0.0)))


@contract('C26', [EES + '.GeneralPart.get_q', EES + '.GeneralPart.get_m', EES + '.GeneralPartSpec.get_eta', 'external.factor_h.NextSpace.get_h',
                  'external.factor_nu.Direction.get_nu'], trials=120)
def loss_and_gain_of_general_parts(g, W):
    E = W[EES]
    region = g.choice('region', REGIONS)
    N = g.dim('parts', 1, 3)
    ds, v = general_parts(g, 'p', N, shades=('not_input',), directions=SKY)
    parts = E.GeneralPart.make_general_parts(ds)
    g.eq('heat loss', g.arr(g.each(parts, lambda p: p.get_q(region=region))), v['area'] * v['u'] * behind(g, v['next_space'], region))
    for season in ['heating', 'cooling']:
        if season == 'cooling' or region != 8:
            g.eq(season + ' gain', g.arr(g.each(parts, lambda p: p.get_m(region=region, season=season))), g.np.where(
                v['next_space'] == 'outdoor', v['area'] * 0.034 * v['u'] * facing(g, v['direction'], region, season), 0.0))


@contract('C26', [EES + '.Window.get_q', EES + '.Window.get_m', 'convert.factor_f.SunshadeTransientNotInput.get_f',
                  'convert.factor_f.SunshadeTransientExistSimple.get_f', 'external.factor_h.NextSpace.get_h',
                  'external.factor_nu.Direction.get_nu'], trials=120)
def loss_and_gain_of_windows(g, W):
    E = W[EES]
    region = g.choice('region', REGIONS)
    N = g.dim('windows', 1, 4)
    ds, v = windows(g, 'w', N, shades=('not_input', 'simple'), directions=SKY)
    parts = E.Window.make_windows(ds)
    g.eq('heat loss', g.arr(g.each(parts, lambda p: p.get_q(region=region))), v['area'] * v['u'] * behind(g, v['next_space'], region))
    for season in ['heating', 'cooling']:
        if season == 'cooling' or region != 8:
            eta = v['eta_h'] if season == 'heating' else v['eta_c']
            g.eq(season + ' gain', g.arr(g.each(parts, lambda p: p.get_m(region=region, season=season))), g.np.where(
                v['next_space'] == 'outdoor', eta * v['area'] * opening(g, v, region, season) * facing(g, v['direction'], region, season), 0.0))


@contract('C26', [EES + '.Door.get_q', EES + '.Door.get_m', EES + '.DoorSpec.eta'], trials=120)
def loss_and_gain_of_doors(g, W):
    E = W[EES]
    region = g.choice('region', REGIONS)
    N = g.dim('doors', 1, 4)
    ds, v = doors(g, 'd', N, shades=('not_input',), directions=SKY)
    parts = E.Door.make_doors(ds)
    g.eq('heat loss', g.arr(g.each(parts, lambda p: p.get_q(region=region))), v['area'] * v['u'] * behind(g, v['next_space'], region))
    for season in ['heating', 'cooling']:
        if season == 'cooling' or region != 8:
            g.eq(season + ' gain', g.arr(g.each(parts, lambda p: p.get_m(region=region, season=season))), g.np.where(
                v['next_space'] == 'outdoor', v['area'] * 0.034 * v['u'] * facing(g, v['direction'], region, season), 0.0))


@contract('C26', [EES + '.GeneralPart.get_m', EES + '.Window.get_m', EES + '.Door.get_m', EES + '.GeneralPart.get_q', EES + '.Window.get_q', EES + '.Door.get_q'],
          trials=60)
def parts_that_are_not_outdoors(g, W):
    """parts towards other spaces take in no sun, whatever is said about their direction and shading, and lose heat to the space behind them"""
    E = W[EES]
    region = g.choice('region', REGIONS)
    what = g.choice('what', ['general', 'window', 'door'])
    N = g.dim('parts', 1, 3)
    inside = SPACES[1:]
    if what == 'general':
        ds, v = general_parts(g, 'p', N, next_spaces=inside)
        parts = E.GeneralPart.make_general_parts(ds)
    elif what == 'window':
        ds, v = windows(g, 'w', N, next_spaces=inside)
        parts = E.Window.make_windows(ds)
    else:
        ds, v = doors(g, 'd', N, next_spaces=inside)
        parts = E.Door.make_doors(ds)
    g.eq('heat loss', g.arr(g.each(parts, lambda p: p.get_q(region=region))), v['area'] * v['u'] * behind(g, v['next_space'], region))
    for season in ['heating', 'cooling']:
        g.eq('no ' + season + ' gain', g.arr(g.each(parts, lambda p: p.get_m(region=region, season=season))), 0.0 * v['area'])


@contract('C26', [EES + '.EarthfloorPerimeter.get_q', EES + '.EarthfloorPerimeterNoSpec.get_h'], trials=120)
def loss_of_earth_floor_perimeters(g, W):
    E = W[EES]
    region = g.choice('region', REGIONS)
    N = g.dim('perimeters', 1, 4)
    ds, v = perimeters(g, 'e', N)
    parts = E.EarthfloorPerimeter.make_earthfloor_perimeters(ds)
    g.eq('heat loss', g.arr(g.each(parts, lambda p: p.get_q(region=region))), v['length'] * v['psi'] * behind(g, v['next_space'], region))


@contract('C26', [EES + '.Heatbridge.get_q', EES + '.Heatbridge.get_m', EES + '.HeatbridgeNoSpec.get_nus', EES + '.HeatbridgeNoSpec.get_hs',
                  EES + '.HeatbridgeSpec.get_eta'], trials=120)
def loss_and_gain_of_heat_bridges(g, W):
    """a bridge between several sides counts the mean of them"""
    E, np = W[EES], g.np
    region = g.choice('region', REGIONS)
    N = g.dim('bridges', 1, 4)
    ds, v = bridges(g, 'b', N, directions=SKY)
    parts = E.Heatbridge.make_heatbridges(ds)
    g.eq('heat loss', g.arr(g.each(parts, lambda p: p.get_q(region=region))),
         v['length'] * v['psi'] * np.mean(behind(g, v['next_spaces'], region), axis=1))
    for season in ['heating', 'cooling']:
        if season == 'cooling' or region != 8:
            nu = np.where(v['next_spaces'] == 'outdoor', facing(g, v['directions'], region, season), 0.0)
            g.eq(season + ' gain', g.arr(g.each(parts, lambda p: p.get_m(region=region, season=season))),
                 v['length'] * 0.034 * v['psi'] * np.mean(nu, axis=1))


@contract('C26', [CHECK + '.check_u_a_and_eta_a', CHECK + '.get_envelope_total_area', CHECK + '.get_q', CHECK + '.get_m'], trials=120)
def average_coefficients_of_an_envelope(g, W):
    np = g.np
    region = g.choice('region', REGIONS)
    gd, gv = general_parts(g, 'p', g.dim('parts', 1, 3), shades=('not_input',), directions=SKY)
    wd, wv = windows(g, 'w', g.dim('windows', 0, 3), shades=('not_input', 'simple'), directions=SKY)
    dd, dv = doors(g, 'd', g.dim('doors', 0, 3), shades=('not_input',), directions=SKY)
    pd, pv = perimeters(g, 'e', g.dim('perimeters', 0, 3))
    cd, cv = centres(g, 'c', g.dim('centres', 0, 3))
    area = np.sum(gv['area']) + np.sum(wv['area']) + np.sum(dv['area']) + np.sum(cv['area'])
    g.assume(area > 0.0)
    ua, h, c = W[CHECK].check_u_a_and_eta_a(region=region, model_house_envelope={
        'general_parts': gd, 'windows': wd, 'doors': dd, 'earthfloor_perimeters': pd, 'earthfloor_centers': cd})
    flat = lambda v: v['area'] * v['u'] * behind(g, v['next_space'], region)
    q = np.sum(flat(gv)) + np.sum(flat(wv)) + np.sum(flat(dv)) + np.sum(pv['length'] * pv['psi'] * behind(g, pv['next_space'], region))
    g.eq('average U value', ua, q / area)

    def gain(season):
        out = lambda v, x: np.sum(np.where(v['next_space'] == 'outdoor', x * v['area'] * facing(g, v['direction'], region, season), 0.0))
        return out(gv, 0.034 * gv['u']) + out(dv, 0.034 * dv['u']) + \
            out(wv, (wv['eta_h'] if season == 'heating' else wv['eta_c']) * opening(g, wv, region, season))
    if region == 8:
        g.eq('no heating season', h is None, True)
    else:
        g.eq('average heating gain', h, gain('heating') / area * 100.0)
    g.eq('average cooling gain', c, gain('cooling') / area * 100.0)


# ------------------------------------------------------------------ derived values
KINDS = ['roof', 'ceiling', 'wall', 'floor', 'upward_boundary_floor', 'boundary_wall', 'downward_boundary_floor', 'window', 'door',
         'earthfloor_perimeter']
BOARD = 0.0095 / 0.22
LIMIT = {'roof': 1 / (0.09 + BOARD + 0.04), 'ceiling': 1 / (0.09 + BOARD + 0.09), 'wall': 1 / (0.11 + BOARD + 0.04),
         'floor': 1 / (0.15 + 0.012 / 0.16 + 0.04), 'upward_boundary_floor': 1 / (0.09 + BOARD + 0.09),
         'boundary_wall': 1 / (0.11 + BOARD + 0.11), 'downward_boundary_floor': 1 / (0.15 + 0.012 / 0.16 + 0.15),
         'window': 6.51, 'door': 6.51, 'earthfloor_perimeter': 100.0}
_up = [0.17, 0.17, 0.24, 0.24, 0.24, 0.24, 0.24, 0.24]
_side = [0.35, 0.35, 0.53, 0.53, 0.53, 0.53, 0.53, 4.10]
_down = [0.34, 0.34, 0.34, 0.48, 0.48, 0.48, 0.48, 3.52]
_open = [2.33, 2.33, 3.49, 4.65, 4.65, 4.65, 4.65, 6.51]
STANDARD = {'roof': _up, 'ceiling': _up, 'wall': _side, 'floor': _down, 'upward_boundary_floor': _up, 'boundary_wall': _side,
            'downward_boundary_floor': _down, 'window': _open, 'door': _open,
            'earthfloor_perimeter': [0.53, 0.53, 0.53, 0.76, 0.76, 0.76, 0.76, 1.80]}


@contract('C26', [UPSI + '.get_f_u_psi', UPSI + '.get_u_psi_value', UPSI + '.get_f_u_psi_max_each_part', UPSI + '.get_u_psi_max',
                  UPSI + '.get_u_psi_std'], trials=200, timeout=300)
def values_raised_together_up_to_their_limits(g, W):
    """one factor on all standard values, except for kinds that are at their limit; the heat loss asked for is met"""
    U = W[UPSI]
    region = g.choice('region', REGIONS)
    std = {k: STANDARD[k][region - 1] for k in KINDS}
    order = sorted(KINDS, key=lambda k: (LIMIT[k] / std[k], k))           # first to reach its limit first
    # heat loss at standard values of a kind and all that come after
    rest = g.descending('rest', len(order), 3000.0, least=0.1) + [0.0]
    q_std = {k: rest[i] - rest[i + 1] for i, k in enumerate(order)}
    size = {k: q_std[k] / std[k] for k in KINDS}                          # area times temperature-difference coefficient
    q = g.real('q', lo=0.0, hi=3000.0, hard=True)
    full = sum(size[k] * LIMIT[k] for k in KINDS)
    f = U.get_f_u_psi(q_std=dict(q_std), f_u_psi_max_each_part=U.get_f_u_psi_max_each_part(region), q=q)
    u = U.get_u_psi_value(region, f)
    g.eq('every kind has a value', sorted(u), sorted(KINDS))
    total = sum(size[k] * u[k] for k in KINDS)
    g.eq('the heat loss asked for', total, q, when=q <= full, abs_tol=1e-7)
    g.eq('the largest heat loss otherwise', total, full, when=q >= full, abs_tol=1e-7)
    t, e = u["earthfloor_perimeter"] / std["earthfloor_perimeter"], 1e-8
    for k in KINDS:
        g.le('limit of ' + k, u[k], LIMIT[k] * (1 + e))
        g.le('never negative: ' + k, 0.0, u[k])
        g.le('one factor at most: ' + k, u[k], t * std[k] * (1 + e))
        g.holds('one factor or the limit: ' + k, (u[k] >= t * std[k] * (1 - e)) | (u[k] >= LIMIT[k] * (1 - e)))


def same(g, v, kind):
    """one where the part is of this kind"""
    return g.np.where(v['type'] == kind, 1.0, 0.0)


def standard_losses(g, region, gv, wv, dv, pv):
    np = g.np
    q = {k: np.sum(same(g, gv, k) * gv['area'] * behind(g, gv['next_space'], region)) * STANDARD[k][region - 1] for k in KINDS[:7]}
    q['window'] = np.sum(wv['area'] * behind(g, wv['next_space'], region)) * STANDARD['window'][region - 1]
    q['door'] = np.sum(dv['area'] * behind(g, dv['next_space'], region)) * STANDARD['door'][region - 1]
    q['earthfloor_perimeter'] = np.sum(pv['length'] * behind(g, pv['next_space'], region)) * STANDARD['earthfloor_perimeter'][region - 1]
    return q


def opaque_gain(g, region, season, u, gv, dv):
    np = g.np
    sun = lambda v: np.where(v['next_space'] == 'outdoor', v['area'] * facing(g, v['direction'], region, season), 0.0)
    return 0.034 * (np.sum(sun(gv) * pick(g, gv['type'], {k: u[k] for k in KINDS[:7]})) + np.sum(sun(dv)) * u['door'])


def window_share(g, region, season, wv):
    """gain of all outdoor windows for a transmittance of one"""
    np = g.np
    return np.sum(np.where(wv['next_space'] == 'outdoor', wv['area'] * opening(g, wv, region, season) * facing(g, wv['direction'], region, season), 0.0))


def whole_house(g, W, lo=0):
    """parts of a house as objects, and what their data say"""
    E = W[EES]
    gd, gv = general_parts(g, 'p', g.dim('parts', 1, 3), shades=('not_input',), directions=SKY, structures=('other',))
    wd, wv = windows(g, 'w', g.dim('windows', lo, 3), shades=('not_input', 'simple'), directions=SKY, rooms=['undefined'])
    dd, dv = doors(g, 'd', g.dim('doors', lo, 3), shades=('not_input',), directions=SKY)
    pd, pv = perimeters(g, 'e', g.dim('perimeters', lo, 3))
    cd, cv = centres(g, 'c', g.dim('centres', lo, 3))
    return (E.GeneralPart.make_general_parts(gd), E.Window.make_windows(wd), E.Door.make_doors(dd),
            E.EarthfloorPerimeter.make_earthfloor_perimeters(pd), E.EarthfloorCenter.make_earthfloor_centers(cd)), (gv, wv, dv, pv, cv)


@contract('C26', [UPSI + '._get_q_std', UPSI + '.get_u_psi_std'], trials=120)
def standard_heat_loss_of_each_kind(g, W):
    region = g.choice('region', REGIONS)
    (gps, ws, ds, eps, ecs), (gv, wv, dv, pv, cv) = whole_house(g, W)
    g.eq('heat loss at standard values', W[UPSI]._get_q_std(region=region, gps=gps, ws=ws, ds=ds, eps=eps),
         standard_losses(g, region, gv, wv, dv, pv))


@contract('C26', [UPSI + '.get_m_opq'], trials=120)
def gain_of_opaque_parts(g, W):
    region = g.choice('region', REGIONS)
    (gps, ws, ds, eps, ecs), (gv, wv, dv, pv, cv) = whole_house(g, W)
    u = g.data({k: g.real('u_' + k, lo=0.0, hi=7.0) for k in KINDS})
    h, c = W[UPSI].get_m_opq(region, u, gps=gps, ds=ds)
    g.eq('cooling', c, opaque_gain(g, region, 'cooling', u, gv, dv))
    if region == 8:
        g.eq('no heating season', h is None, True)
    else:
        g.eq('heating', h, opaque_gain(g, region, 'heating', u, gv, dv))


@contract('C26', [UPSI + '.get_eta_d_each', UPSI + '.get_eta_d'], trials=120)
def transmittance_of_windows(g, W):
    """what is left for the windows, shared out among them, between nothing and what a bare pane lets through"""
    np = g.np
    region = g.choice('region', REGIONS)
    (gps, ws, ds, eps, ecs), (gv, wv, dv, pv, cv) = whole_house(g, W, 1)
    m = {s: g.real('m_' + s, lo=-50.0, hi=50.0) for s in ('heating', 'cooling')}
    o = {s: g.real('m_opaque_' + s, lo=0.0, hi=50.0) for s in ('heating', 'cooling')}
    sun = {s: window_share(g, region, s, wv) for s in (('heating', 'cooling') if region != 8 else ('cooling',))}
    for s in sun:
        g.assume(sun[s] > 0.01)
    h, c = W[UPSI].get_eta_d_each(region, m['heating'], m['cooling'], o['heating'], o['cooling'], ws=ws)
    share = lambda s: np.clip((m[s] - o[s]) / sun[s], 0.0, 0.88)
    g.eq('cooling', c, share('cooling'))
    if region == 8:
        g.eq('no heating season', h is None, True)
        g.eq('over the year', W[UPSI].get_eta_d(region, h, c), share('cooling'))
    else:
        g.eq('heating', h, share('heating'))
        g.eq('over the year', W[UPSI].get_eta_d(region, h, c), (share('heating') + share('cooling')) / 2)


@contract('C26', [UPSI + '.calc_parts_spec', UPSI + '._get_a_evp_total', UPSI + '._get_q', UPSI + '._get_m_h', UPSI + '._get_m_c',
                  LV2 + '.add_spec_gps', LV2 + '.add_spec_ws', LV2 + '.add_spec_ds', LV2 + '.add_spec_eps', LV2 + '.add_spec_ecs',
                  UPSI + '.get_u_psi', CHECK + '.check_u_a_and_eta_a'], trials=120, timeout=300)
def target_averages_met(g, W):
    """the parts with their derived values have the average U value asked for, and the gains asked for where windows can give them"""
    np, U, L = g.np, W[UPSI], W[LV2]
    region = g.choice('region', REGIONS)
    (gps, ws, ds, eps, ecs), (gv, wv, dv, pv, cv) = whole_house(g, W, 1)
    area = np.sum(gv['area']) + np.sum(wv['area']) + np.sum(dv['area']) + np.sum(cv['area'])
    sun = {s: window_share(g, region, s, wv) for s in (('heating', 'cooling') if region != 8 else ('cooling',))}
    g.assume(area > 0.0)
    if not g.symbolic:
        for s in sun:
            g.assume(sun[s] > 0.01)      # precondition of the callee get_eta_d_each, see above
    ua = g.real('u_a', lo=0.1, hi=4.0)
    eta = {'heating': g.real('eta_a_h', lo=0.1, hi=6.0), 'cooling': g.real('eta_a_c', lo=0.1, hi=6.0)}
    std = standard_losses(g, region, gv, wv, dv, pv)
    hyps = ()
    if g.symbolic:
        f = {k: g.real('f_' + k, lo=0.0, hi=200.0) for k in KINDS}

        def factors(q_std, f_u_psi_max_each_part, q):
            g.eq('losses at standard values', q_std, std)
            g.eq('loss asked for', q, ua * area)
            return dict(f)
        g.replace(UPSI, 'get_f_u_psi', factors)
        given = {s: g.real('transmittance_' + s, lo=0.0, hi=0.88) for s in sun}

        def transmittance(region, m_h, m_c, m_h_opq, m_c_opq, ws):
            us = {k: f[k] * STANDARD[k][region - 1] for k in KINDS}
            for s, m, o in [('heating', m_h, m_h_opq), ('cooling', m_c, m_c_opq)]:
                if s in sun:
                    g.eq(s + ' gain asked for', m, eta[s] / 100 * area)
                    g.eq(s + ' gain of opaque parts', o, opaque_gain(g, region, s, us, gv, dv))
                else:
                    g.eq('no heating season', m is None and o is None, True)
            return given.get('heating'), given['cooling']
        g.replace(UPSI, 'get_eta_d_each', transmittance)
        hyps = ((sum(std[k] * f[k] for k in KINDS), ua * area),)
    u, d, h, c = U.calc_parts_spec(region=region, u_a_target=ua, eta_a_h_target=eta['heating'], eta_a_c_target=eta['cooling'],
                                   gps=gps, ds=ds, ws=ws, eps=eps, ecs=ecs)
    us = {k: U.get_u_psi(u, k) for k in KINDS}
    g.eq('transmittance over the year', d, c if region == 8 else (h + c) / 2)
    g2, w2, d2, e2, c2 = L.add_spec_gps(gps, u), L.add_spec_ws(ws, u, d, c, h), L.add_spec_ds(ds, u), L.add_spec_eps(eps, u), L.add_spec_ecs(ecs)
    g.eq('values of general parts', g.arr(g.each(g2, lambda p: p.get_u())), pick(g, gv['type'], {k: us[k] for k in KINDS[:7]}))
    g.eq('values of windows', g.arr(g.each(w2, lambda p: p.get_u())), us['window'] + 0.0 * wv['area'])
    g.eq('values of doors', g.arr(g.each(d2, lambda p: p.get_u())), us['door'] + 0.0 * dv['area'])
    g.eq('values of perimeters', g.arr(g.each(e2, lambda p: p.get_psi())), us['earthfloor_perimeter'] + 0.0 * pv['length'])
    for what, old, new in [('general parts', gps, g2), ('windows', ws, w2), ('doors', ds, d2)]:
        for a in ('name', 'next_space', 'direction', 'area', 'space_type', 'sunshade'):
            g.eq('%s keep their %s' % (what, a), g.each(new, lambda p: getattr(p, a)), g.each(old, lambda p: getattr(p, a)))
    for a in ('name', 'next_space', 'length', 'space_type'):
        g.eq('perimeters keep their ' + a, g.each(e2, lambda p: getattr(p, a)), g.each(eps, lambda p: getattr(p, a)))
    for a in ('name', 'area', 'space_type'):
        g.eq('centres keep their ' + a, g.each(c2, lambda p: getattr(p, a)), g.each(ecs, lambda p: getattr(p, a)))
    env = {'general_parts': g2, 'windows': w2, 'doors': d2, 'earthfloor_perimeters': e2, 'earthfloor_centers': c2}
    env = {k: g.each(v, lambda p: p.get_as_dict()) for k, v in env.items()}
    ua2, h2, c2 = W[CHECK].check_u_a_and_eta_a(region=region, model_house_envelope=env)
    reach = ua * area <= sum(std[k] / STANDARD[k][region - 1] * LIMIT[k] for k in KINDS)
    g.eq('average U value asked for', ua2, ua, when=reach, hyps=hyps)
    for s, got, x in [('heating', h2, h), ('cooling', c2, c)]:
        if s in sun:
            left = eta[s] / 100 * area - opaque_gain(g, region, s, us, gv, dv)
            ok = (left >= 0.0) & (left <= 0.88 * sun[s])
            hyps = ((np.where(ok, x * sun[s], left), left),) if g.symbolic else ()
            g.eq('average %s gain asked for' % s, got, eta[s], when=ok, hyps=hyps)


@contract('C26', [LV2 + '.convert_spec', LV2 + '.add_spec_gps', LV2 + '.add_spec_ws', LV2 + '.add_spec_ds', LV2 + '.add_spec_eps',
                  LV2 + '.add_spec_ecs'], trials=120)
def house_described_by_averages(g, W):
    """the model house asked for has the stated size, its values are derived from the stated averages, and every part of it is written out"""
    U, L = W[UPSI], W[LV2]
    region = g.choice('region', REGIONS)
    kind = g.choice('house_type', ['detached', 'attached'])
    fl, env = g.real('total_floor_area', lo=30.0, hi=300.0), g.real('total_area', lo=60.0, hi=900.0)
    ua, eh, ec = g.real('u_a', lo=0.1, hi=4.0), g.real('eta_a_h', lo=0.1, hi=6.0), g.real('eta_a_c', lo=0.1, hi=6.0)
    (gps, ws, ds, eps, ecs), (gv, wv, dv, pv, cv) = whole_house(g, W)
    u = {k: g.real('u_' + k, lo=0.0, hi=7.0) for k in KINDS}
    h, c = g.real('eta_d_h', lo=0.0, hi=0.88), g.real('eta_d_c', lo=0.0, hi=0.88)

    def area(house_type, a_f_total, r_open, floor_ins_type, bath_ins_type, a_env_input=None):
        g.eq('house type', house_type, kind)
        g.eq('floor area', a_f_total, fl)
        g.eq('envelope area', a_env_input, env)
        g.eq('openings', r_open, 0.1)
        g.eq('insulation of floor', floor_ins_type, 'floor' if kind == 'detached' else None)
        g.eq('insulation below the bathroom', bath_ins_type, 'base' if kind == 'detached' else None)
        return {'shape': 1.0}

    def parts(shape):
        return gps, ws, ds, eps, ecs

    def values(region, u_a_target, eta_a_h_target, eta_a_c_target, gps, ds, ws, eps, ecs):
        g.eq('region', region, reg)
        g.eq('average U value', u_a_target, ua)
        g.eq('average heating gain', eta_a_h_target, eh)
        g.eq('average cooling gain', eta_a_c_target, ec)
        for what, x, y in zip(('parts', 'windows', 'doors', 'perimeters', 'centres'), (gps, ws, ds, eps, ecs), house):
            g.eq('all ' + what, g.each(x, lambda p: p.name), g.each(y, lambda p: p.name))
        return U.PartType(**u), (h + c) / 2, (None if reg == 8 else h), c
    reg, house = region, (gps, ws, ds, eps, ecs)
    g.replace('convert.model_house', 'calc_area', area)
    g.replace('convert.model_house', 'get_model_house_no_spec', parts)
    g.replace(UPSI, 'calc_parts_spec', values)
    out = L.convert_spec(g.data({
        'common': {'region': region, 'house_type': kind, 'total_floor_area': fl, 'main_occupant_room_floor_area': 30.0,
                   'other_occupant_room_floor_area': 30.0},
        'envelope': {'input_method': 'index', 'total_area': env, 'indices': {'u_a': ua, 'eta_a_h': eh, 'eta_a_c': ec}}}))
    g.eq('entries', sorted(out), ['doors', 'earthfloor_centers', 'earthfloor_perimeters', 'general_parts', 'heat_bridges', 'input_method', 'windows'])
    g.eq('kind of data', out['input_method'], 'detail_without_room_usage')
    g.eq('no heat bridges', g.len(out['heat_bridges']), 0)
    d = lambda k, f: g.each(out[k], f)
    for what, n in [('general_parts', gps), ('windows', ws), ('doors', ds), ('earthfloor_perimeters', eps), ('earthfloor_centers', ecs)]:
        g.eq('as many ' + what, g.len(out[what]), g.len(n))
        g.eq('names of ' + what, d(what, lambda p: p['name']), g.each(n, lambda p: p.name))
    g.eq('areas of general parts', g.arr(d('general_parts', lambda p: p['area'])), gv['area'])
    g.eq('areas of windows', g.arr(d('windows', lambda p: p['area'])), wv['area'])
    g.eq('areas of doors', g.arr(d('doors', lambda p: p['area'])), dv['area'])
    g.eq('areas of centres', g.arr(d('earthfloor_centers', lambda p: p['area'])), cv['area'])
    g.eq('lengths of perimeters', g.arr(d('earthfloor_perimeters', lambda p: p['length'])), pv['length'])
    g.eq('U values of general parts', g.arr(d('general_parts', lambda p: p['spec']['u_value_other'])), pick(g, gv['type'], {k: u[k] for k in KINDS[:7]}))
    g.eq('U values of windows', g.arr(d('windows', lambda p: p['spec']['u_value'])), u['window'] + 0.0 * wv['area'])
    g.eq('U values of doors', g.arr(d('doors', lambda p: p['spec']['u_value'])), u['door'] + 0.0 * dv['area'])
    g.eq('psi values', g.arr(d('earthfloor_perimeters', lambda p: p['spec']['psi_value'])), u['earthfloor_perimeter'] + 0.0 * pv['length'])
    g.eq('cooling transmittance', g.arr(d('windows', lambda p: p['spec']['eta_d_c_value'])), c + 0.0 * wv['area'])
    if region != 8:
        g.eq('heating transmittance', g.arr(d('windows', lambda p: p['spec']['eta_d_h_value'])), h + 0.0 * wv['area'])
