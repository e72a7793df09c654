"""C25 parts of an envelope divided over the spaces of a house; floors and walls generated between the spaces"""
from ..contract import contract
from .c27_data import (EES, SKY, SPACES, DIRECTIONS, ROOMS, general_parts, windows, doors, perimeters, centres, bridges)

LV3 = 'convert.convert_lv2_to_lv3'
LV4 = 'convert.convert_lv3_to_lv4'
OCCUPIED = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room']


def floors(g):
    """(main, other, total) floor areas"""
    m, o, n = g.real('main', lo=0.0, hi=200.0), g.real('other', lo=0.0, hi=200.0), g.real('unoccupied', lo=0.0, hi=200.0)
    g.assume(m + o + n > 0.1)
    return m, o, m + o + n


def pieces(g, W, parts, N, out, size, whole, keep, floor):
    """three pieces of every part, in the ratio of the floor areas, otherwise like the part"""
    m, o, t = floor
    share = dict(zip(OCCUPIED, (m / t, o / t, (t - m - o) / t)))
    g.eq('three pieces of each', g.len(out), 3 * N)
    total = 0.0
    for room in OCCUPIED:
        ps = g.those(out, lambda p: p.space_type.value == room)
        g.eq('one piece in the ' + room, g.len(ps), N)
        got = g.arr(g.each(ps, lambda p: getattr(p, size)))
        g.eq('%s in the %s' % (size, room), got, share[room] * whole)
        total = total + got
        g.eq('name in the ' + room, g.each(ps, lambda p: p.name), g.each(parts, lambda p: p.name + '_' + room))
        for a in keep:
            g.eq('%s in the %s' % (a, room), g.each(ps, lambda p: getattr(p, a)), g.each(parts, lambda p: getattr(p, a)))
    g.eq('pieces add up', total, whole)


@contract('C25', [LV3 + '.get_general_parts_lv3', LV3 + '.get_general_part_lv3', LV3 + '.get_separated_areas'], trials=80)
def general_parts_divided(g, W):
    N = g.dim('parts', 0, 3)
    ds, v = general_parts(g, 'p', N)
    parts = W[EES].GeneralPart.make_general_parts(ds)
    m, o, t = f = floors(g)
    pieces(g, W, parts, N, W[LV3].get_general_parts_lv3(a_f_mr=m, a_f_or=o, a_f_total=t, gps=parts), 'area', v['area'],
           ['general_part_type', 'next_space', 'direction', 'general_part_spec', 'sunshade'], f)


@contract('C25', [LV3 + '.get_windows_lv3', LV3 + '.get_window_lv3', LV3 + '.get_separated_areas'], trials=80)
def windows_divided(g, W):
    N = g.dim('windows', 0, 4)
    ds, v = windows(g, 'w', N)
    parts = W[EES].Window.make_windows(ds)
    m, o, t = f = floors(g)
    pieces(g, W, parts, N, W[LV3].get_windows_lv3(a_f_mr=m, a_f_or=o, a_f_total=t, ws=parts), 'area', v['area'],
           ['next_space', 'direction', 'window_spec', 'sunshade'], f)


@contract('C25', [LV3 + '.get_doors_lv3', LV3 + '.get_door_lv3', LV3 + '.get_separated_areas'], trials=80)
def doors_divided(g, W):
    N = g.dim('doors', 0, 4)
    ds, v = doors(g, 'd', N)
    parts = W[EES].Door.make_doors(ds)
    m, o, t = f = floors(g)
    pieces(g, W, parts, N, W[LV3].get_doors_lv3(a_f_mr=m, a_f_or=o, a_f_total=t, ds=parts), 'area', v['area'],
           ['next_space', 'direction', 'door_spec', 'sunshade'], f)


@contract('C25', [LV3 + '.get_heatbridges_lv3', LV3 + '.get_heatbridge_lv3', LV3 + '.get_separated_lengths'], trials=80)
def heat_bridges_divided(g, W):
    N = g.dim('bridges', 0, 4)
    ds, v = bridges(g, 'b', N)
    parts = W[EES].Heatbridge.make_heatbridges(ds)
    m, o, t = f = floors(g)
    pieces(g, W, parts, N, W[LV3].get_heatbridges_lv3(a_f_mr=m, a_f_or=o, a_f_total=t, hbs=parts), 'length', v['length'],
           ['next_spaces', 'directions', 'heatbridge_spec'], f)


@contract('C25', [LV3 + '.get_earthfloor_perimeters_lv3', LV3 + '.get_earthfloor_centers_lv3'], trials=80)
def underfloor_parts_stay_whole(g, W):
    E, L = W[EES], W[LV3]
    P, C = g.dim('perimeters', 0, 4), g.dim('centres', 0, 4)
    pd, pv = perimeters(g, 'e', P)
    cd, cv = centres(g, 'c', C)
    eps, ecs = E.EarthfloorPerimeter.make_earthfloor_perimeters(pd), E.EarthfloorCenter.make_earthfloor_centers(cd)
    for what, old, new, keep, n in [
            ('edge', eps, L.get_earthfloor_perimeters_lv3(eps=eps), ['name', 'next_space', 'length', 'earthfloor_perimeter_spec'], P),
            ('centre', ecs, L.get_earthfloor_centers_lv3(ecs=ecs), ['name', 'area', 'earthfloor_center_spec'], C)]:
        g.eq('as many %ss' % what, g.len(new), n)
        for a in keep:
            g.eq('%s of %s' % (a, what), g.each(new, lambda p: getattr(p, a)), g.each(old, lambda p: getattr(p, a)))
        g.eq('space of ' + what, g.each(new, lambda p: p.get_as_dict()['space_type']), g.each(old, lambda p: 'underfloor'))


@contract('C25', [LV3 + '.convert_spec'], trials=80)
def envelope_divided(g, W):
    """every list of the envelope is divided and written out, none is left behind"""
    E, L = W[EES], W[LV3]
    m, o, t = floors(g)
    env = {'input_method': 'detail_without_room_usage'}
    env['general_parts'], _ = general_parts(g, 'p', g.dim('parts', 0, 3))
    env['windows'], _ = windows(g, 'w', g.dim('windows', 0, 3))
    env['doors'], _ = doors(g, 'd', g.dim('doors', 0, 3))
    env['heat_bridges'], _ = bridges(g, 'b', g.dim('bridges', 0, 3))
    env['earthfloor_perimeters'], _ = perimeters(g, 'e', g.dim('perimeters', 0, 3))
    env['earthfloor_centers'], _ = centres(g, 'c', g.dim('centres', 0, 3))
    out = L.convert_spec(g.data({'main_occupant_room_floor_area': m, 'other_occupant_room_floor_area': o, 'total_floor_area': t}), g.data(env))
    f = dict(a_f_mr=m, a_f_or=o, a_f_total=t)
    want = {'general_parts': L.get_general_parts_lv3(gps=E.GeneralPart.make_general_parts(env['general_parts']), **f),
            'windows': L.get_windows_lv3(ws=E.Window.make_windows(env['windows']), **f),
            'doors': L.get_doors_lv3(ds=E.Door.make_doors(env['doors']), **f),
            'heat_bridges': L.get_heatbridges_lv3(hbs=E.Heatbridge.make_heatbridges(env['heat_bridges']), **f),
            'earthfloor_perimeters': L.get_earthfloor_perimeters_lv3(eps=E.EarthfloorPerimeter.make_earthfloor_perimeters(env['earthfloor_perimeters'])),
            'earthfloor_centers': L.get_earthfloor_centers_lv3(ecs=E.EarthfloorCenter.make_earthfloor_centers(env['earthfloor_centers']))}
    g.eq('entries', sorted(out), sorted(env))
    g.eq('kind of data', out['input_method'], 'detail_with_room_usage')
    for k in want:
        g.eq(k, out[k], g.each(want[k], lambda p: p.get_as_dict()))


# ------------------------------------------------------------------ floors and walls between spaces
def spaces(g):
    """floor areas of the main, other and unoccupied spaces; the last two may not exist"""
    m, o, n = g.real('main', lo=0.1, hi=200.0), g.real('other', lo=0.0, hi=200.0), g.real('unoccupied', lo=0.0, hi=200.0)
    g.assume((n == 0.0) | (n > 1e-5 * (m + o)))
    return m, o, n


def three(g, name, lo=0.0, hi=200.0):
    return [g.real(name + '_' + k, lo=lo, hi=hi) for k in ('main', 'other', 'non')]


def areal(g, W):
    gd, gv = general_parts(g, 'p', g.dim('parts', 0, 3), shades=('not_input',), structures=('other',))
    wd, wv = windows(g, 'w', g.dim('windows', 0, 3), shades=('not_input',))
    dd, dv = doors(g, 'd', g.dim('doors', 0, 3), shades=('not_input',))
    E = W[EES]
    return (E.GeneralPart.make_general_parts(gd), E.Window.make_windows(wd), E.Door.make_doors(dd)), (gv, wv, dv)


def facing_area(g, vs, room, directions):
    np = g.np
    total = 0.0
    for v in vs:
        that = np.where(v['space_type'] == room, 1.0, 0.0)
        total = total + sum(np.sum(that * np.where(v['direction'] == d, v['area'], 0.0)) for d in directions)
    return total


@contract('C25', [LV4 + '.get_downward_envelope_total_area', LV4 + '.get_horizontal_envelope_total_area', LV4 + '.get_earthfloor_total_area',
                  'external.factor_nu.Direction.is_horizontal'], trials=100)
def envelope_of_each_space(g, W):
    L = W[LV4]
    (gps, ws, ds), vs = areal(g, W)
    cd, cv = centres(g, 'c', g.dim('centres', 0, 3))
    ecs = W[EES].EarthfloorCenter.make_earthfloor_centers(cd)
    down = L.get_downward_envelope_total_area(gps=gps, ws=ws, ds=ds)
    side = L.get_horizontal_envelope_total_area(gps=gps, ws=ws, ds=ds)
    ground = L.get_earthfloor_total_area(ecs=ecs)
    for i, room in enumerate(OCCUPIED):
        g.eq('floors of the ' + room, down[i], facing_area(g, vs, room, ['bottom', 'downward']))
        g.eq('walls of the ' + room, side[i], facing_area(g, vs, room, ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw', 'horizontal']))
    for i, room in enumerate(OCCUPIED + ['underfloor']):
        g.eq('ground floors of the ' + room, ground[i], g.np.sum(g.np.where(cv['space_type'] == room, cv['area'], 0.0)))


@contract('C25', [LV4 + '.get_inner_floor_total_area', LV4 + '.get_inner_floor_over_underfloor_total_area', LV4 + '.get_inner_floor_between_rooms'],
          trials=400)
def floors_between_spaces(g, W):
    """what is neither on the ground nor above outdoors lies above the underfloor space, as far as that reaches, or above the other rooms"""
    L, np = W[LV4], g.np
    m, o, n = spaces(g)
    down, ground, uf = three(g, 'down'), three(g, 'ground'), g.real('underfloor', lo=0.0, hi=300.0)
    inner = L.get_inner_floor_total_area(m + o + n, m, o, *down, *ground)
    for i, a in enumerate((m, o, n)):
        g.eq('inner floor of ' + OCCUPIED[i], inner[i], np.maximum(0.0, a - down[i] - ground[i]))
    there = g.bool('inner floor')
    a = [np.where(there, x, 0.0) for x in three(g, 'inner')]
    over = L.get_inner_floor_over_underfloor_total_area(a[0], a[1], a[2], uf)
    total = a[0] + a[1] + a[2]
    for i in range(3):
        g.eq('above the underfloor space: ' + OCCUPIED[i], over[i] * total, uf * a[i])
        g.le('not negative: ' + OCCUPIED[i], 0.0, over[i])
        g.eq('no floor without floor: ' + OCCUPIED[i], over[i], 0.0, when=a[i] <= 0.0)
    g.eq('the whole underfloor space is covered', over[0] + over[1] + over[2], uf, when=total > 0.0)
    b = three(g, 'over')
    r = L.get_inner_floor_between_rooms(m, o, m + o + n, a[0], a[1], a[2], b[0], b[1], b[2])
    rest = [np.maximum(0.0, x - y) for x, y in zip(a, b)]
    size = (m, o, n)
    k = 0
    for i in range(3):
        for j in range(3):
            if i != j:
                other = size[3 - i - j]
                there = (size[i] > 0.0) & (size[j] > 0.0)
                g.eq('%s above %s' % (OCCUPIED[i], OCCUPIED[j]), r[k], np.where(there, np.where(other > 0.0, rest[i] / 2, rest[i]), 0.0))
                g.le('not negative: %s above %s' % (OCCUPIED[i], OCCUPIED[j]), 0.0, r[k])
                k += 1


@contract('C25', [LV4 + '.get_inner_wall_total_area', LV4 + '.get_inner_wall_total_area_between_rooms'], trials=400)
def walls_between_spaces(g, W):
    """four sides of a square of the floor area, 2.8 m high, by a ratio, less the outer walls; shared so that each pair of spaces sees one wall"""
    L, np = W[LV4], g.np
    m, o, n = spaces(g)
    side = three(g, 'side')
    w = L.get_inner_wall_total_area(m, o, m + o + n, *side)
    for i, (a, ratio) in enumerate(zip((m, o, n), (1.2, 1.4, 1.4))):
        g.eq('walls of the ' + OCCUPIED[i], w[i], np.maximum(0.0, 4 * ratio * 2.8 * np.sqrt(a) - side[i]))
    a = three(g, 'inner')
    r = L.get_inner_wall_total_area_between_rooms(m, o, m + o + n, *a)
    half = lambda x: np.maximum(0.0, x / 2)
    mo, mn, on = (o > 0.0), (n > 0.0), (o > 0.0) & (n > 0.0)
    g.eq('main to other', r[0], np.where(mo, half(a[0] + a[1] - np.where(on, a[2], 0.0)), 0.0))
    g.eq('main to unoccupied', r[1], np.where(mn, half(a[0] + a[2] - np.where(on, a[1], 0.0)), 0.0))
    g.eq('other to unoccupied', r[2], np.where(on, half(a[1] + a[2] - a[0]), 0.0))
    for x in r:
        g.le('not negative', 0.0, x)
    # every space has just the walls it should, where that is possible with three
    fit = on & (a[0] <= a[1] + a[2]) & (a[1] <= a[0] + a[2]) & (a[2] <= a[0] + a[1])
    g.eq('walls of the main space', r[0] + r[1], a[0], when=fit)
    g.eq('walls of the other space', r[0] + r[2], a[1], when=fit)
    g.eq('walls of the unoccupied space', r[1] + r[2], a[2], when=fit)


@contract('C25', [LV4 + '.get_inner_floor_between_rooms', LV4 + '.get_inner_wall_total_area_between_rooms'], trials=100)
def house_without_main_space_rejected(g, W):
    L = W[LV4]
    m, o, n = g.real('main', lo=-200.0, hi=0.0), g.real('other', lo=0.0, hi=200.0), g.real('unoccupied', lo=0.0, hi=200.0)
    a, b = three(g, 'inner'), three(g, 'over')
    g.raises('floors', lambda: L.get_inner_floor_between_rooms(m, o, m + o + n, *a, *b), ValueError)
    g.raises('walls', lambda: L.get_inner_wall_total_area_between_rooms(m, o, m + o + n, *a), ValueError)


@contract('C25', [LV4 + '.make_inner_floors', LV4 + '.get_inner_floor_layers'], trials=200)
def inner_floors_made(g, W):
    """one floor for every pair of spaces with floor between them, of that area and of plywood"""
    L = W[LV4]
    gps, ws, ds, ecs = [g.data([k]) for k in ('general parts', 'windows', 'doors', 'centres')]      # only handed on
    m, o, n = spaces(g)
    down, ground, inner, over = three(g, 'down'), three(g, 'ground'), three(g, 'inner'), three(g, 'over')
    uf = g.real('underfloor', lo=0.0, hi=300.0)
    on = {(i, j): g.real('%s_above_%s' % (i, j), lo=0.0, hi=50.0) for i in OCCUPIED for j in OCCUPIED if i != j}
    t = m + o + n

    def down_area(gps, ws, ds):
        g.eq('all parts', sorted(gps + ws + ds), sorted(house[0] + house[1] + house[2]))
        return tuple(down)

    def ground_area(ecs):
        g.eq('all centres', ecs, house[3])
        return tuple(ground) + (uf,)

    def total(a_a, a_mr, a_or, a_evlp_down_mr, a_evlp_down_or, a_evlp_down_nr, a_ef_mr, a_ef_or, a_ef_nr):
        g.eq('floor areas', [a_a, a_mr, a_or], [t, m, o])
        g.eq('floors of the envelope', [a_evlp_down_mr, a_evlp_down_or, a_evlp_down_nr], down)
        g.eq('floors on the ground', [a_ef_mr, a_ef_or, a_ef_nr], ground)
        return tuple(inner)

    def above(a_if_mr, a_if_or, a_if_nr, a_ef_uf):
        g.eq('inner floors', [a_if_mr, a_if_or, a_if_nr], inner)
        g.eq('underfloor space', a_ef_uf, uf)
        return tuple(over)

    def between(a_mr, a_or, a_a, a_if_mr, a_if_or, a_if_nr, a_if_mr_uf, a_if_or_uf, a_if_nr_uf):
        g.eq('floor areas', [a_a, a_mr, a_or], [t, m, o])
        g.eq('inner floors', [a_if_mr, a_if_or, a_if_nr], inner)
        g.eq('above the underfloor space', [a_if_mr_uf, a_if_or_uf, a_if_nr_uf], over)
        return tuple(on.values())
    house = (gps, ws, ds, ecs)
    g.replace(LV4, 'get_downward_envelope_total_area', down_area)
    g.replace(LV4, 'get_earthfloor_total_area', ground_area)
    g.replace(LV4, 'get_inner_floor_total_area', total)
    g.replace(LV4, 'get_inner_floor_over_underfloor_total_area', above)
    g.replace(LV4, 'get_inner_floor_between_rooms', between)
    fs = L.make_inner_floors(common=g.data({'main_occupant_room_floor_area': m, 'other_occupant_room_floor_area': o, 'total_floor_area': t}),
                             gps=gps, ws=ws, ds=ds, ecs=ecs)
    pairs = {(i, 'underfloor'): a for i, a in zip(OCCUPIED, over)}
    pairs.update(on)
    known = 0
    for (i, j), a in pairs.items():
        here = [f for f in fs if f.upper_space_type == i and f.lower_space_type == j]
        g.eq('%s above %s' % (i, j), sum(f.area for f in here), a)
        g.eq('one floor: %s above %s' % (i, j), len(here), 1 if a > 0.0 else 0)
        known += len(here)
        for f in here:
            x = f.get_as_dict()['spec']['layers']
            g.eq('layers', len(x), 1)
            g.eq('thickness', x[0]['thickness'], 0.024)
            g.eq('heat capacity', x[0]['volumetric_specific_heat'], 720.0)
            g.eq('conductivity', x[0]['thermal_conductivity'], 0.16)
    g.eq('no other floor', len(fs), known)


@contract('C25', [LV4 + '.make_inner_walls', LV4 + '.get_inner_wall_layers'], trials=200)
def inner_walls_made(g, W):
    """one wall for every pair of spaces with wall between them: two boards and the air between"""
    L = W[LV4]
    gps, ws, ds = [g.data([k]) for k in ('general parts', 'windows', 'doors')]      # only handed on
    m, o, n = spaces(g)
    side, inner = three(g, 'side'), three(g, 'inner')
    a = three(g, 'wall')
    t = m + o + n

    def side_area(gps, ws, ds):
        g.eq('all parts', sorted(gps + ws + ds), sorted(house[0] + house[1] + house[2]))
        return tuple(side)

    def total(a_mr, a_or, a_a, a_evlp_hzt_mr, a_evlp_hzt_or, a_evlp_hzt_nr):
        g.eq('floor areas', [a_a, a_mr, a_or], [t, m, o])
        g.eq('walls of the envelope', [a_evlp_hzt_mr, a_evlp_hzt_or, a_evlp_hzt_nr], side)
        return tuple(inner)

    def between(a_mr, a_or, a_a, a_iw_mr, a_iw_or, a_iw_nr):
        g.eq('floor areas', [a_a, a_mr, a_or], [t, m, o])
        g.eq('inner walls', [a_iw_mr, a_iw_or, a_iw_nr], inner)
        return tuple(a)
    house = (gps, ws, ds)
    g.replace(LV4, 'get_horizontal_envelope_total_area', side_area)
    g.replace(LV4, 'get_inner_wall_total_area', total)
    g.replace(LV4, 'get_inner_wall_total_area_between_rooms', between)
    ws2 = L.make_inner_walls(common=g.data({'main_occupant_room_floor_area': m, 'other_occupant_room_floor_area': o, 'total_floor_area': t}),
                             gps=gps, ws=ws, ds=ds)
    known = 0
    for (i, j), x in zip([(0, 1), (0, 2), (1, 2)], a):
        here = [f for f in ws2 if {f.space_type_1, f.space_type_2} == {OCCUPIED[i], OCCUPIED[j]}]
        g.eq('wall between %s and %s' % (OCCUPIED[i], OCCUPIED[j]), sum(f.area for f in here), x)
        g.eq('one wall between %s and %s' % (OCCUPIED[i], OCCUPIED[j]), len(here), 1 if x > 0.0 else 0)
        known += len(here)
        for f in here:
            x = f.get_as_dict()['spec']['layers']
            g.eq('resistance', sum(l['thermal_resistance'] if 'thermal_resistance' in l else l['thickness'] / l['thermal_conductivity']
                                   for l in x), 2 * 0.0125 / 0.22 + 0.09)
            g.eq('heat capacity', sum(l['volumetric_specific_heat'] * l['thickness'] for l in x), 2 * 0.0125 * 830.0)
            g.eq('the same from both sides', [l['name'] for l in x], [l['name'] for l in x][::-1])
    g.eq('no other wall', len(ws2), known)


@contract('C25', [LV4 + '.convert_spec'], trials=80)
def spaces_joined(g, W):
    """the parts are written out as they were read, together with the floors and walls between the spaces"""
    E, L = W[EES], W[LV4]
    common = g.data({'main_occupant_room_floor_area': 30.0, 'other_occupant_room_floor_area': 60.0, 'total_floor_area': 120.0})   # only handed on
    env = {'input_method': 'detail_with_room_usage'}
    env['general_parts'], _ = general_parts(g, 'p', g.dim('parts', 0, 3))
    env['windows'], _ = windows(g, 'w', g.dim('windows', 0, 3))
    env['doors'], _ = doors(g, 'd', g.dim('doors', 0, 3))
    env['heat_bridges'], _ = bridges(g, 'b', g.dim('bridges', 0, 3))
    env['earthfloor_perimeters'], _ = perimeters(g, 'e', g.dim('perimeters', 0, 3))
    env['earthfloor_centers'], _ = centres(g, 'c', g.dim('centres', 0, 3))
    read = {'general_parts': E.GeneralPart.make_general_parts(env['general_parts']),
            'windows': E.Window.make_windows(env['windows']),
            'doors': E.Door.make_doors(env['doors']),
            'heat_bridges': E.Heatbridge.make_heatbridges(env['heat_bridges']),
            'earthfloor_perimeters': E.EarthfloorPerimeter.make_earthfloor_perimeters(env['earthfloor_perimeters']),
            'earthfloor_centers': E.EarthfloorCenter.make_earthfloor_centers(env['earthfloor_centers'])}
    fa, wa = g.real('floor', lo=0.01, hi=50.0), g.real('wall', lo=0.01, hi=50.0)
    layers = lambda: E.Layer.make_layers(ds=[{'name': 'l', 'heat_resistance_input_method': 'conductivity', 'thickness': 0.01,
                                              'volumetric_specific_heat': 700.0, 'thermal_conductivity': 0.2}])
    fs = [E.InnerFloor('f', fa, 'main_occupant_room', 'underfloor', layers())]
    iw = [E.InnerWall('w', wa, 'main_occupant_room', 'non_occupant_room', layers())]

    def handed(common_, **given):
        g.eq('floor areas handed on', common_, common)
        for short, k in (('gps', 'general_parts'), ('ws', 'windows'), ('ds', 'doors'), ('ecs', 'earthfloor_centers')):
            if short in given:
                g.eq(k + ' handed on', g.each(given[short], lambda p: p.get_as_dict()), g.each(read[k], lambda p: p.get_as_dict()))

    def inner_floors(common, gps, ws, ds, ecs):
        handed(common, gps=gps, ws=ws, ds=ds, ecs=ecs)
        return fs

    def inner_walls(common, gps, ws, ds):
        handed(common, gps=gps, ws=ws, ds=ds)
        return iw
    g.replace(LV4, 'make_inner_floors', inner_floors)
    g.replace(LV4, 'make_inner_walls', inner_walls)
    out = L.convert_spec(common, g.data(env))
    g.eq('entries', sorted(out), sorted(list(read) + ['inner_floors', 'inner_walls']))
    for k in read:
        g.eq(k, out[k], g.each(read[k], lambda p: p.get_as_dict()))
    g.eq('inner floors', out['inner_floors'], [p.get_as_dict() for p in fs])
    g.eq('inner walls', out['inner_walls'], [p.get_as_dict() for p in iw])


@contract('C25', [LV4 + '.get_inner_wall_total_area', LV4 + '.get_inner_floor_total_area', LV4 + '.get_inner_wall_total_area_between_rooms',
                  LV4 + '.get_inner_floor_between_rooms'], mode='T', trials=300)
def areas_that_add_up_after_rounding(g, W):
    """areas with one decimal that fill the house, or leave one decimal over, only after rounding in floating point"""
    L = W[LV4]
    m, o, n = [round(float(g.real(k, lo=l, hi=99.0, hard=True)), 1) for k, l in (('main', 1.0), ('other', 0.0), ('unoccupied', 1.0))]
    full = g.choice('full', [True, False])
    t = round(m + o + (0.0 if full else n), 1)
    a = three(g, 'inner')
    w = L.get_inner_wall_total_area(m, o, t, 0.0, 0.0, 0.0)
    f = L.get_inner_floor_total_area(t, m, o, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0)
    g.eq('walls of the unoccupied space', w[2], 0.0 if full else 4 * 1.4 * 2.8 * n ** 0.5)
    g.eq('floor of the unoccupied space', f[2], 0.0 if full else n)
    bw = L.get_inner_wall_total_area_between_rooms(m, o, t, *a)
    bf = L.get_inner_floor_between_rooms(m, o, t, *a, 0.0, 0.0, 0.0)
    if full:
        g.eq('no wall to a space that is not there', [bw[1], bw[2]], [0.0, 0.0])
        g.eq('no floor to a space that is not there', [bf[1], bf[3], bf[4], bf[5]], [0.0] * 4)
        g.eq('main above other', bf[0], a[0] if o > 0.0 else 0.0)


LV4H = 'convert.convert_lv4_to_h_hlc'


@contract('C25', [LV4H + '.make_initial_rooms', LV4H + '.get_room_volume', LV4H + '.get_v_vent_ex', LV4H + '.get_v_vent'], trials=200)
def spaces_of_the_floor_areas(g, W):
    """a space for every floor area; heights of 2.4 m and 0.4 m; the outdoor air of the house is shared by the occupied rooms in the ratio of
    their floors and goes on, all of it, to the unoccupied space"""
    has_o, has_n, has_u = g.choice('other', [True, False]), g.choice('unoccupied', [True, False]), g.choice('underfloor', [True, False])
    m = g.real('a_mr', lo=0.5, hi=200.0)
    o = g.real('a_or', lo=0.1, hi=200.0) if has_o else 0.0
    n = g.real('a_nr', lo=0.1, hi=200.0) if has_n else 0.0
    u = g.real('a_uf', lo=0.1, hi=200.0) if has_u else 0.0
    ach = g.real('ach', lo=0.0, hi=2.0)
    nv_m, nv_o = g.real('nv_mr', lo=0.0, hi=30.0), g.real('nv_or', lo=0.0, hi=30.0)
    a = m + o + n
    rooms = W[LV4H].make_initial_rooms(a_a=a, a_mr=m, a_or=o, a_nr=n, a_uf=u, n=ach, v_nv_mr=nv_m, v_nv_or=nv_o)
    g.holds('four spaces', len(rooms) == 4)
    air = a * 2.4 * ach * 1.1
    taken = 0.0
    for room, (name, there, area, height, inflow, natural) in zip(rooms, (
            ('main_occupant_room', True, m, 2.4, air * m / (m + o), nv_m), ('other_occupant_room', has_o, o, 2.4, air * o / (m + o), nv_o),
            ('non_occupant_room', has_n, n, 2.4, 0.0, 0.0), ('underfloor', has_u, u, 0.4, 0.0, 0.0))):
        g.holds('a space where there is a floor: ' + name, (room is not None) == there)
        if not there:
            continue
        g.holds('kind of ' + name, room['room_type'] == name)
        g.eq('volume of ' + name, room['volume'], area * height)
        g.eq('outdoor air of ' + name, room['vent'], inflow)
        g.eq('natural ventilation of ' + name, room['natural_vent_time'], natural)
        g.holds('no boundaries yet: ' + name, len(room['boundaries']) == 0)
        taken = taken + room['vent']
        if name != 'non_occupant_room':
            g.holds('nothing from other spaces: ' + name, len(room['next_vent']) == 0)
    g.eq('outdoor air of all spaces', taken, air)
    if has_n:
        flows = rooms[2]['next_vent']
        g.holds('from the occupied rooms', [f['upstream_room_name'] for f in flows] == ['main', 'other'][:1 + has_o])
        g.eq('all of it goes on', sum(f['volume'] for f in flows), air)
        g.eq('from the main room', flows[0]['volume'], rooms[0]['vent'])


@contract('C25', [LV4H + '.make_initial_rooms'], trials=60)
def a_house_has_a_main_room(g, W):
    """no main room, no house"""
    m, o = g.real('a_mr', lo=-5.0, hi=0.0, hard=True), g.real('a_or', lo=10.0, hi=200.0)
    n, u = g.real('a_nr', lo=0.0, hi=100.0), g.real('a_uf', lo=0.0, hi=100.0)
    g.assume(m + o > 0.1)
    g.raises('no main room', lambda: W[LV4H].make_initial_rooms(a_a=m + o + n, a_mr=m, a_or=o, a_nr=n, a_uf=u, n=0.5, v_nv_mr=5.0, v_nv_or=5.0),
             ValueError)


@contract('C25', [LV4H + '.get_a_uf'], trials=100)
def floor_of_the_underfloor_space(g, W):
    """the centres that lie in the underfloor space, and no others"""
    N = g.dim('centres', 0, 5)
    area = g.real('area', N, lo=0.0, hi=100.0)
    where = g.enum('where', ['underfloor', 'main_occupant_room', 'non_occupant_room'], N)
    ecs = g.records(N, lambda at, k: {'area': at(area), 'space_type': at(where)})
    g.eq('floor', W[LV4H].get_a_uf(ecs), g.np.sum(g.np.where(where == 'underfloor', area, 0.0)))
