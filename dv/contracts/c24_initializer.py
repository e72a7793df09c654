"""C24 C06 C16 C17: preparation of the calculation data from the description of a house"""
from ..contract import contract
from .c16_pre_calc import yes

INI = 'initializer.initializer'
FORM = 'initializer.occupants_form_factor'
FLOOR = 'initializer.a12_indoor_radiative_heat_transfer'
TYPES = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor']
EQUIPMENT = ['not_installed', 'convective', 'radiative']


def seen(g, area, floor, total=None):
    """weights of the surfaces of a room as its occupant sees them: floors 0.45, others 0.55, all of it where there is only one of the two"""
    np = g.np
    total = total or np.sum
    on = np.where(floor, 1.0, 0.0)
    floors, others, nf, no = total(area * on), total(area * (1.0 - on)), total(on), total(1.0 - on)
    part = np.where(nf == 0.0, 0.0, np.where(no == 0.0, 1.0, 0.45))
    return np.where(floor, part * area / np.where(nf == 0.0, 1.0, floors), (1.0 - part) * area / np.where(no == 0.0, 1.0, others))


@contract('C17', [FORM + '.get_f_mrt_hum_is'], trials=100)
def surfaces_seen_by_the_occupant(g, W):
    """floors together 0.45, the others together 0.55 (all of it where there is only one of the two), each kind by area"""
    np = g.np
    J = g.dim('J', 1, 5)
    a = g.real('area', J, lo=0.5, hi=60.0)
    fl = g.bool('floor', J)
    f = W[FORM].get_f_mrt_hum_is(a_bdry_i_js=a, is_floor_bdry_i_js=fl)
    on = np.where(fl, 1.0, 0.0)
    g.eq('by area and kind', f, seen(g, a, fl))
    both = np.logical_and(np.sum(on) != 0.0, np.sum(1.0 - on) != 0.0)
    g.eq('floors together', np.sum(f * on), 0.45, when=both)
    g.eq('all together', np.sum(f), 1.0)


@contract('C17', [FLOOR + '.get_flr_i_js'], trials=100)
def shares_of_floor_heating(g, W):
    """radiant floor heating goes to the floors of the room by area; nothing where there is none"""
    np = g.np
    J = g.dim('J', 1, 5)
    a = g.real('area', J, lo=0.5, hi=60.0)
    fl = g.bool('floor', J)
    on = np.where(fl, 1.0, 0.0)
    floors = np.sum(a * on)
    heated = g.choice('radiative', [True, False])
    r = W[FLOOR].get_flr_i_js(area_i_js=a, is_radiative_heating=heated, is_floor_i_js=fl)
    if heated:
        g.eq('by area', r * floors, a * on, when=floors > 0.0)
        g.eq('together', np.sum(r), 1.0, when=floors > 0.0)
    else:
        g.eq('none', r, 0.0)


@contract('C06', [INI + '._get_v_int_vent_is'], trials=100)
def declared_air_paths_add_up(g, W):
    """flow from room k to room i: all paths between the two added up, in m3/s"""
    np = g.np
    I, P = g.dim('I', 1, 4), g.dim('P', 0, 4)
    up = g.index('upstream', I, P, below=I)
    vol = g.real('volume', I, P, lo=0.0, hi=300.0)
    vents = g.records(I, lambda at, i: g.records(P, lambda bt, p: ([bt(at(up))], bt(at(vol)))))
    v = W[INI]._get_v_int_vent_is(vents, I)
    want = np.sum(np.where(up[:, :, np.newaxis] == np.arange(I), vol[:, :, np.newaxis], 0.0), axis=1) / 3600.0
    g.eq('flow', v, want)


def air_conditioner(g, tag, I):
    """(record, kind, figures) of the heating or cooling equipment of every room"""
    kind = g.enum(tag, EQUIPMENT, I)
    v = {k: g.real(tag + '_' + k, I, lo=lo, hi=hi) for k, lo, hi in [
        ('q_min', 100.0, 600.0), ('q_max', 900.0, 9000.0), ('v_min', 5.0, 10.0), ('v_max', 11.0, 20.0), ('max_capacity', 20.0, 200.0), ('area', 1.0, 60.0)]}

    def rec(at):
        return g.oneof(at(kind), {
            'not_installed': {'equipment_type': 'not_installed'},
            'convective': {'equipment_type': 'convective', 'convective': {k: at(v[k]) for k in ('q_min', 'q_max', 'v_min', 'v_max')}},
            'radiative': {'equipment_type': 'radiative', 'radiative': {k: at(v[k]) for k in ('max_capacity', 'area')}}})
    return rec, kind, v


def _some_types(g, drawn, valid):
    """for executions: distinct kinds with a main room, in an order given by the drawn ones; or (not valid) anything but that"""
    ks = [str(t) for t in drawn]
    if valid or g.rng.random() < 0.3:
        rest = [t for t in TYPES if t not in ks]
        ks = [t if t not in ks[:i] else rest.pop() for i, t in enumerate(ks)]
        if valid and TYPES[0] not in ks:
            ks[g.rng.randrange(len(ks))] = TYPES[0]
    return ks


def rooms(g, n=None, valid=True):
    """description of the rooms: (records, figures)"""
    I = g.dim('I', 1, 4, hard=True) if n is None else n
    P = g.dim('P', 0, 3)
    heat, hk, hv = air_conditioner(g, 'heating', I)
    cool, ck, cv = air_conditioner(g, 'cooling', I)
    v = dict(I=I, P=P, hk=hk, hv=hv, ck=ck, cv=cv, name=g.enum('room_name', ['living', 'bed', 'bath'], I), volume=g.real('volume', I, lo=5.0, hi=200.0),
             vent=g.real('vent', I, lo=0.0, hi=300.0), natural=g.real('natural_vent_time', I, lo=0.0, hi=30.0), floor=g.real('floor_area', I, lo=1.0, hi=90.0),
             up=g.index('upstream', I, P, below=I), flow=g.real('flow', I, P, lo=0.0, hi=300.0))
    v['type'] = g.enum('room_type', TYPES, I)
    if not g.symbolic:
        v['type'][:] = _some_types(g, v['type'], valid)
        g.inputs['room_type'] = v['type']

    def rec(at, k):
        return {'id': k, 'name': at(v['name']), 'room_type': at(v['type']), 'volume': at(v['volume']), 'vent': at(v['vent']),
                'natural_vent_time': at(v['natural']), 'floor_area': at(v['floor']),
                'next_vent': g.records(P, lambda bt, p: {'upstream_room_id': bt(at(v['up'])), 'volume': bt(at(v['flow']))}),
                'heating_equipment': heat(at), 'cooling_equipment': cool(at)}
    return g.records(I, rec), v


@contract(['C24', 'C06'], [INI + '._make_spaces_dict', INI + '._get_v_int_vent_is', 'initializer.furniture.get_c_cap_frt_is', 'initializer.furniture.get_g_sh_frt_is',
                           'initializer.furniture.get_c_lh_frt_is', 'initializer.furniture.get_g_lh_frt_is'], trials=100, also={
    'C01': ('ventilation, volume and furniture of the heat balance are those of the entry of the room', [
        'volume', 'outdoor air', 'natural', 'heat of the', 'conductance of the']),
    'C03': ('radiant systems and their capacities are those of the entry of the room', ['radiative', 'convective']),
    'C07': ('volume and furniture of the moisture balance are those of the entry of the room', ['volume', 'moisture']),
    'C08': ('the limits of the air conditioner are those of the cooling equipment of the room', ['cooling q', 'cooling v', 'convective cooling'])})
def rooms_of_the_description(g, W):
    """every room carries the figures of its own entry, in the unit of the calculation, in the order of the description"""
    np = g.np
    rs, v = rooms(g)
    I = v['I']
    g.assume(_proper(g, v))
    out = W[INI]._make_spaces_dict(rooms=g.data(rs))
    g.eq('number', g.len(out), I)
    get = lambda f: g.arr(g.each(out, f))
    vol = v['volume']
    for what, got, want in [
            ('number of the room', get(lambda r: r['id']), np.arange(I)), ('volume', get(lambda r: r['volume']), vol),
            ('outdoor air', get(lambda r: r['ventilation']['mechanical']), v['vent'] / 3600.0),
            ('natural ventilation', get(lambda r: r['ventilation']['natural']), vol * v['natural'] / 3600.0),
            ('air between rooms', get(lambda r: r['ventilation']['next_spaces']),
             np.sum(np.where(v['up'][:, :, np.newaxis] == np.arange(I), v['flow'][:, :, np.newaxis], 0.0), axis=1) / 3600.0),
            ('heat of the furniture', get(lambda r: r['furniture']['heat_capacity']), 12600.0 * vol),
            ('conductance of the furniture', get(lambda r: r['furniture']['heat_cond']), 0.00022 * 12600.0 * vol),
            ('moisture of the furniture', get(lambda r: r['furniture']['moisture_capacity']), 16.8 * vol),
            ('moisture conductance of the furniture', get(lambda r: r['furniture']['moisture_cond']), 0.0018 * 16.8 * vol)]:
        g.eq(what, got, want)
    g.eq('name', g.each(out, lambda r: r['name']), g.records(I, lambda at, k: at(v['name'])))
    for season, kind, w in [('heating', v['hk'], v['hv']), ('cooling', v['ck'], v['cv'])]:
        for how in ('convective', 'radiative'):
            g.eq('%s %s' % (how, season), get(lambda r: r['equipment'][season][how]['installed']), kind == how)
        g.eq('radiative %s capacity' % season, get(lambda r: r['equipment'][season]['radiative'].get('max_capacity', 0.0)),
             np.where(kind == 'radiative', w['max_capacity'] * w['area'], 0.0))
    for k in ('q_min', 'q_max', 'v_min', 'v_max'):
        g.eq('cooling ' + k, get(lambda r: r['equipment']['cooling']['convective'].get(k, 0.0)), np.where(v['ck'] == 'convective', v['cv'][k], 0.0))


def _proper(g, v):
    """one main room, no other kind of room twice"""
    np = g.np
    n = [np.sum(np.where(v['type'] == t, 1.0, 0.0)) for t in TYPES]
    return np.logical_and(np.logical_and(n[0] == 1.0, n[1] <= 1.0), np.logical_and(n[2] <= 1.0, n[3] <= 1.0))


@contract('C24', [INI + '._make_spaces_dict', INI + '.check_specifying_room_type', INI + '.check_not_specifying_multi_room_type'], trials=60)
def rooms_of_improper_kinds_are_rejected(g, W):
    """a house without main room, with two, or with two rooms of another kind is rejected"""
    rs, v = rooms(g, valid=False)
    g.assume(g.np.logical_not(_proper(g, v)))
    g.raises('rejected', lambda: W[INI]._make_spaces_dict(rooms=g.data(rs)), ValueError)


KINDS = ['internal', 'external_general_part', 'external_transparent_part', 'external_opaque_part', 'ground']
OUTSIDE = KINDS[1:4]
BS = 'initializer.boundary_simple'


def among(kind, kinds, np):
    r = kind == kinds[0]
    for k in kinds[1:]:
        r = np.logical_or(r, kind == k)
    return r


def boundaries(g, W, I):
    """prepared boundaries and their description: (objects, records, figures)"""
    np = g.np
    J, L = g.dim('J', 4, 8), g.dim('L', 1, 3)
    r = lambda name, lo, hi: g.real(name, J, lo=lo, hi=hi)
    v = dict(J=J, L=L, kind=g.enum('kind', KINDS, J), name=g.enum('boundary_name', ['wall', 'window', 'door'], J), room=g.index('room', J, below=I, num=lambda x: _every(x, I)),
             area=r('area', 0.5, 60.0), h_td=r('temp_dif_coef', 0.0, 1.0), h_i=r('h_i', 5.0, 9.0), h_c=r('h_c', 0.5, 5.0), floor=g.bool('floor', J), absorbs=g.bool('absorbs', J),
             rear=g.index('rear', J, below=J), u=r('u_value', 0.3, 6.0), r_i=r('r_i', 0.05, 0.2), r_o=r('r_o', 0.02, 0.2),
             lr=g.real('layer_resistance', J, L, lo=0.01, hi=3.0), lc=g.real('layer_capacity', J, L, lo=1.0, hi=300.0))
    if not g.symbolic:
        v['floor'][:2 * I] = [k >= I for k in range(2 * I)][:J]
        g.inputs['floor'] = v['floor']

    def obj(at, k):
        out = at(among(v['kind'], OUTSIDE, np))
        return W[BS].BoundarySimple(
            id=k, name=at(v['name']), sub_name='', connected_room_id=at(v['room']), boundary_type=W['initializer.boundary_type'].BoundaryType(at(v['kind'])),
            area=at(v['area']), h_td=yes(g, out, at(v['h_td']), 0.0), next_room_type=-1, rear_surface_boundary_id=g.optional(at(v['kind'] == 'internal'), at(v['rear'])),
            is_floor=at(v['floor']), is_solar_absorbed_inside=at(v['absorbs']), is_sun_striked_outside=None, direction=None, h_i=at(v['h_i']), h_c=at(v['h_c']),
            theta_o_sol=None, q_trs_sol=None)

    def rec(at, k):
        lay = {'id': k, 'layers': g.records(L, lambda bt, l: {'thermal_resistance': bt(at(v['lr'])), 'thermal_capacity': bt(at(v['lc']))})}
        both = dict(lay, outside_heat_transfer_resistance=at(v['r_o']))
        u = {'id': k, 'u_value': at(v['u']), 'inside_heat_transfer_resistance': at(v['r_i'])}
        return g.oneof(at(v['kind']), {'internal': both, 'external_general_part': both, 'ground': lay, 'external_transparent_part': u, 'external_opaque_part': u})
    return g.records(J, obj), g.records(J, rec), v


def _every(x, n):
    for k in range(min(2 * n, len(x))):
        x[k] = k % n
    return x


@contract(['C24', 'C17'], [INI + '._make_boundaries', INI + '._get_boundary_spec', FLOOR + '.get_flr_i_js', FORM + '.get_f_mrt_hum_is',
                           'initializer.a22_radiative_heating_spec.read_is_radiative_heating'], trials=100, also={
    'C02': ('what is behind a surface is outdoors and itself, the surface on the other side of the partition, or nothing', ['outdoor share', 'something behind', 'what is', 'share of what']),
    'C09': ('the construction handed to the response factors is that of the entry of the boundary', ['response']),
    'C10': ('the ground boundaries are those in contact with the ground', ['ground']),
    'C13': ('boundaries with a temperature difference coefficient have their share of the outdoor equivalent temperature, partitions and ground none', [
        'outdoor share', 'something behind', 'share of what']),
    'C16': ('the surfaces that absorb sunshine are the declared ones, in their rooms', ['absorbs', 'room', 'area'])})
def boundaries_of_the_description(g, W):
    """every boundary carries the figures of its own entry; what is behind it is outdoors and itself, the boundary behind it, or nothing; the weights
    and the radiant heating are those of its room"""
    np = g.np
    rs, rv = rooms(g)
    I = rv['I']
    bss, ds, v = boundaries(g, W, I)
    J, kind = v['J'], v['kind']
    if g.symbolic:
        g.stub(FORM, 'get_f_mrt_hum_is', lambda a_bdry_i_js, is_floor_bdry_i_js: seen(g, a_bdry_i_js, is_floor_bdry_i_js),
               'get_f_mrt_hum_is by its own contract (surfaces_seen_by_the_occupant)')
    out = W[INI]._make_boundaries(bss2=bss, rooms=g.data(rs), boundaries=g.data(ds))
    g.eq('number', g.len(out), J)
    get = lambda f: g.arr(g.each(out, f))
    behind = lambda f, d: get(lambda b: g.some(b['k_inside'], f, d))
    outside, inner = among(kind, OUTSIDE, np), kind == 'internal'
    part = np.logical_and(outside, v['h_td'] < 1.0)
    has = np.logical_or(inner, part)
    p = np.where(v['room'][np.newaxis, :] == np.arange(I).reshape(-1, 1), 1.0, 0.0)        # [i, j]
    of_room = lambda x: np.dot(p.T, np.dot(p, x))
    on = np.where(v['floor'], 1.0, 0.0)
    heated = np.dot(p.T, np.where(rv['hk'] == 'radiative', 1.0, 0.0)) > 0.5
    for what, got, want in [
            ('number of the boundary', get(lambda b: b['id']), np.arange(J)), ('room', get(lambda b: b['connected_space_id']), v['room']),
            ('area', get(lambda b: b['area']), v['area']), ('h_i', get(lambda b: b['h_i']), v['h_i']), ('h_c', get(lambda b: b['h_c']), v['h_c']),
            ('outdoor share', get(lambda b: b['k_outside']), np.where(outside, v['h_td'], 0.0)),
            ('something behind', behind(lambda k: 1.0, 0.0), np.where(has, 1.0, 0.0)),
            ('what is behind', behind(lambda k: k['id'], -1), np.where(inner, v['rear'], np.where(part, np.arange(J), -1))),
            ('share of what is behind', behind(lambda k: k['coef'], 0.0), np.where(inner, 1.0, np.where(part, 1.0 - v['h_td'], 0.0))),
            ('weight for the occupant', get(lambda b: b['f_mrt_hum']), seen(g, v['area'], v['floor'], of_room))]:
        g.eq(what, got, want)
    flr, floors = get(lambda b: b['flr']), of_room(v['area'] * on)
    g.eq('share of radiant heating', flr * floors, v['area'] * on, when=np.logical_and(heated, floors > 0.0))
    g.eq('no radiant heating', flr, 0.0, when=np.logical_not(heated))
    for what, got, want in [
            ('name', lambda b: b['name'], lambda at, k: at(v['name'])), ('ground', lambda b: b['is_ground'], lambda at, k: yes(g, at(kind == 'ground'), 'true', 'false')),
            ('absorbs sunshine', lambda b: b['is_solar_absorbed'], lambda at, k: yes(g, at(v['absorbs']), 'True', 'False')),
            ('response', lambda b: b['spec'], lambda at, k: spec(g, v, at))]:
        g.eq(what, g.each(out, got), g.records(J, want))


def spec(g, v, at):
    lay = g.records(v['L'], lambda bt, l: {'thermal_resistance': bt(at(v['lr'])), 'thermal_capacity': bt(at(v['lc']))})
    u = {'method': 'u_value', 'u_value': at(v['u']), 'inside_heat_transfer_resistance': at(v['r_i'])}
    both = {'method': 'layers', 'layers': lay, 'outside_heat_transfer_resistance': at(v['r_o'])}
    return g.oneof(at(v['kind']), dict({k: dict(both, boundary_type=k) for k in KINDS[:2]}, ground={'method': 'layers_ground', 'layers': lay, 'boundary_type': 'ground'},
                                       **{k: dict(u, boundary_type=k) for k in KINDS[2:4]}))


HOUSE = 'mid_data_house.json'
SERIES = ['temperature', 'normal direct solar radiation', 'horizontal sky solar radiation', 'outward radiation', 'sun azimuth', 'sun altitude']


@contract(['C16', 'C24'], [INI + '.make_house', INI + '._read_weather_data'], trials=30, also={
    'C13': ('the equivalent temperatures of all boundaries are written, each in its own column, for the weather of the file', ['equivalent']),
    'C15': ('the heat through the glazing reaches the room', ['sunshine of a room']),
    'C18': ('the weather columns are read as what they are named', ['equivalent', 'sunshine of a room']),
    'C20': ('rooms ask for their own schedules; every series is written with one row per instant and one column per room', [
        'rooms asked', 'floor area', 'residents', 'heat_generation', 'moisture_generation', 'local_vent', 'occupants', 'ac_demand']),
    'C22': ('storeys, leakage and pressure of the building are handed on', ['building'])})
def files_of_the_prepared_house(g, W):
    """the weather reaches every boundary, the rooms ask for their own schedules; one row per instant and one column per room or boundary in every file;
    the sunshine transmitted into a room is that of all its boundaries"""
    np = g.np
    N = g.dim('N', 2, 4)
    rs, rv = rooms(g)
    I = rv['I']
    g.assume(_proper(g, rv))
    J = g.dim('J', 4, 7)
    room = g.index('room', J, below=I, num=lambda x: _every(x, I))
    w = {k: g.real(k, N, lo=1.0, hi=40.0) for k in SERIES + ['absolute humidity']}
    c = {k: g.real('share of ' + k, J, lo=0.1, hi=0.9) for k in SERIES}
    d = {k: g.real('sun by ' + k, J, lo=0.0, hi=0.9) for k in SERIES}
    sched = {k: g.real(k, I, N, lo=0.0, hi=9.0) for k in ('heat_generation', 'moisture_generation', 'local_vent', 'occupants', 'ac_demand')}
    people = g.real('people', lo=1.0, hi=4.0)
    T = W['initializer.boundary_type'].BoundaryType
    kind = g.enum('boundary_kind', list(T), J)
    behind = g.real('share of the outdoor temperature', J, lo=0.0, hi=1.0, num=lambda x: np.where(x > 0.7, 1.0, np.where(x < 0.2, 0.0, x)))
    f = {k: g.bool(k, J) for k in ('floor', 'absorbs', 'struck')}
    asked = {}

    def one(theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_ns, b):
        x = dict(zip(SERIES, [theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_ns]))
        mix = lambda s: sum(x[k] * s[k][b['id']] for k in SERIES)
        k = b['id']
        return W[BS].BoundarySimple(
            id=k, name=b['name'], sub_name='', connected_room_id=b['connected_room_id'], boundary_type=kind[k], area=1.0, h_td=behind[k],
            next_room_type=-1, rear_surface_boundary_id=None, is_floor=f['floor'][k], is_solar_absorbed_inside=f['absorbs'][k],
            is_sun_striked_outside=f['struck'][k], direction=None, h_i=9.0, h_c=3.0, theta_o_sol=mix(c), q_trs_sol=mix(d))

    def residents(a_floor_total):
        asked['floor'] = a_floor_total
        return people

    def schedules(n_p, room_name_is, a_floor_is):
        asked.update(n_p=n_p, name=room_name_is, a=a_floor_is)
        return [sched[k] for k in ('heat_generation', 'moisture_generation', 'local_vent', 'occupants', 'ac_demand')]
    g.replace(BS, 'get_boundary_simple', one, 'get_boundary_simple by its own contract (boundary_of_an_entry)')
    g.replace('initializer.residents_number', 'get_total_number_of_residents', residents, 'number of residents by its own contract (C20)')
    g.replace('initializer.schedule_loader', 'get_compiled_schedules', schedules, 'compiled schedules by their own contracts (C20)')
    if g.symbolic:
        g.stub(INI, '_make_spaces_dict', lambda rooms: ('rooms', rooms), 'rooms by their own contract (rooms_of_the_description)')

    def entries(bss2, rooms, boundaries):
        asked.update(bss=bss2, rooms=rooms, entries=boundaries)
        return ['boundaries']
    g.replace(INI, '_make_boundaries', entries, 'boundaries by their own contract (boundaries_of_the_description)')
    bs = g.records(J, lambda at, k: {'id': k, 'name': 'wall', 'connected_room_id': at(room), 'layers': []})
    house = {'story': 2, 'c_value': g.real('c_value', lo=0.1, hi=5.0), 'inside_pressure': 'negative'}
    out = g.dir({'weather.csv': {'cols': w}})
    W[INI].make_house({'rooms': g.data(rs), 'boundaries': g.data(bs), 'building': house}, out, out)
    g.eq('rooms asked for schedules', asked['name'], g.each(rs, lambda r: r['name']))
    g.eq('floor areas', g.arr(asked['a']), rv['floor'])
    g.eq('floor area for the residents', asked['floor'], np.sum(rv['floor']))
    g.eq('residents', asked['n_p'], people)
    for k in sched:
        g.eq(k, g.arr(g.read(out, 'mid_data_%s.csv' % k)), sched[k].T)
    mix = lambda s: np.dot(np.array([w[k] for k in SERIES]).T, np.array([s[k] for k in SERIES]))
    g.eq('equivalent temperatures', g.arr(g.read(out, 'mid_data_theta_o_sol.csv')), mix(c))
    p = np.where(room[np.newaxis, :] == np.arange(I).reshape(-1, 1), 1.0, 0.0)        # [i, j]
    g.eq('sunshine of a room', g.arr(g.read(out, 'mid_data_q_trs_sol.csv')), np.dot(mix(d), p.T))
    h = g.read(out, HOUSE)
    g.eq('building', h['building'], dict(house, infiltration_method='balance_residential'))
    g.holds('boundaries as made', h['boundaries'][0] == 'boundaries')
    g.eq('boundaries that were made', g.arr(g.each(asked['bss'], lambda b: b.id)), np.arange(J))
    g.eq('entries of the boundaries', g.arr(g.each(asked['entries'], lambda b: b['id'])), np.arange(J))
    g.eq('rooms of the boundaries', g.each(asked['rooms'], lambda r: r['name']), g.each(rs, lambda r: r['name']))
    if not g.symbolic:
        g.eq('rooms as described', h['spaces'], W[INI]._make_spaces_dict(rooms=rs))


WEATHER = ['theta_o_ns', 'i_dn_ns', 'i_sky_ns', 'r_n_ns', 'a_sun_ns', 'h_sun_ns']


@contract(['C24', 'C13', 'C15'], [BS + '.get_boundary_simple'], trials=60, also={
    'C12': ('sunshine falls on a boundary for the direction of its own entry', ['direction', 'struck', 'entry of the boundary, exposed', 'transmitted']),
    'C14': ('a boundary is shaded by the device of its own entry', ['own device', 'entry of the boundary, device', 'transmitted'])})
def boundary_of_an_entry(g, W):
    """every figure of a boundary is the one of its entry; it is exposed to the weather handed over, shaded by its own device"""
    np = g.np
    kind = g.choice('kind', KINDS)
    struck = g.choice('struck', [True, False])
    k = g.dim('boundaries', 2, 6)
    number, room, rear = g.index('id', below=k), g.index('connected_room_id', below=k), g.index('rear', below=k)
    fl, absorbs = g.bool('floor'), g.bool('absorbs')
    v = {x: g.real(x, lo=lo, hi=hi) for x, lo, hi in [('area', 0.5, 60.0), ('h_c', 0.5, 5.0), ('inside_heat_transfer_resistance', 0.05, 0.2)]}
    b = dict(v, id=number, name='east', connected_room_id=room, boundary_type=kind, is_floor=fl, is_solar_absorbed_inside=absorbs, solar_shading_part={'existence': False})
    outside = kind in OUTSIDE
    h_td = g.real('temp_dif_coef', lo=0.0, hi=1.0)
    if outside:
        b.update(is_sun_striked_outside=struck, temp_dif_coef=h_td)
        if struck:
            b['direction'] = facing = g.choice('direction', ['s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se', 'top', 'bottom'])
    others = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room', 'underfloor']
    if kind == 'internal':
        behind = g.choice('next_room_type', others)
        b.update(rear_surface_boundary_id=rear, next_room_type=behind)
    N = g.dim('N', 2, 4)
    w = {x: g.real(x, N, lo=1.0, hi=40.0) for x in WEATHER}
    c = {x: g.real('share of ' + x, lo=0.1, hi=0.9) for x in WEATHER}
    e = {x: g.real('sun by ' + x, lo=0.1, hi=0.9) for x in WEATHER}
    asked = {}

    def hot(*x):
        return 0.0 * x[0] if kind == 'internal' else x[0] if outside and not struck else sum(c[k] * y for k, y in zip(WEATHER, x))

    def bright(*x):
        return sum(e[k] * y for k, y in zip(['i_dn_ns', 'i_sky_ns', 'a_sun_ns', 'h_sun_ns'], x)) if kind == 'external_transparent_part' and struck else 0.0 * x[0]

    class Exposed:
        def get_theta_o_sol_i_j_ns(self, theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_ns):
            return hot(theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_ns)

    class Glazed:
        def get_qgt(self, a_sun_ns, h_sun_ns, i_dn_ns, i_sky_ns):
            return bright(i_dn_ns, i_sky_ns, a_sun_ns, h_sun_ns)

    def exposed(b):
        asked['exposed'] = b
        return Exposed()

    def glazed(d, solar_shading_part):
        asked.update(glazed=d, by=solar_shading_part)
        return Glazed()

    def device(b):
        asked['device'] = b
        return 'device'
    g.replace('initializer.outside_eqv_temp', 'OutsideEqvTemp.create', exposed, 'equivalent temperature by its own contracts (C13)')
    g.replace('initializer.transmission_solar_radiation', 'TransmissionSolarRadiation.create', glazed, 'transmitted sunshine by its own contracts (C15)')
    g.replace('initializer.solar_shading', 'SolarShading.create', device, 'shading device by its own contracts (C14)')
    s = W[BS].get_boundary_simple(b=b, **w)
    for x in ('exposed', 'glazed', 'device'):
        if x in asked:
            g.eq('entry of the boundary, ' + x, asked[x], b)
    if kind == 'external_transparent_part' and struck:
        g.eq('own device', asked['by'], 'device')
    g.eq('equivalent temperature', s.theta_o_sol, hot(*[w[x] for x in WEATHER]))
    g.eq('transmitted sunshine', s.q_trs_sol, bright(w['i_dn_ns'], w['i_sky_ns'], w['a_sun_ns'], w['h_sun_ns']))
    for what, got, want in [
            ('number', s.id, number), ('name', s.name, 'east'), ('room', s.connected_room_id, room), ('kind', s.boundary_type.value, kind), ('area', s.area, v['area']),
            ('outdoor share', s.h_td, h_td if outside else 0.0), ('floor', s.is_floor, fl), ('absorbs', s.is_solar_absorbed_inside, absorbs),
            ('h_c', s.h_c, v['h_c']), ('struck', s.is_sun_striked_outside, struck if outside else None), ('direction', s.direction, facing if outside and struck else None),
            ('next room', s.next_room_type, others.index(b['next_room_type']) if kind == 'internal' else -1)]:
        g.eq(what, got, want)
    g.eq('h_i', s.h_i * v['inside_heat_transfer_resistance'], 1.0)
    if kind == 'internal':
        g.eq('rear', s.rear_surface_boundary_id, rear)
    else:
        g.eq('rear', s.rear_surface_boundary_id, None)


@contract('C24', [INI + '._make_spaces_dict'], mode='B', trials=60)
def misnumbered_rooms_are_rejected(g, W):
    """rooms must be numbered from zero in the order of the description (three rooms)"""
    ids = g.choice('ids', [[0, 2, 1], [1, 2, 3], [0, 0, 1], [0, 1, 3], [2, 1, 0]])
    rs, v = rooms(g, 3)
    g.assume(_proper(g, v))
    rs = g.data(rs)
    for k in range(3):
        rs[k]['id'] = ids[k]
    g.raises('rejected', lambda: W[INI]._make_spaces_dict(rooms=rs), ValueError)


@contract('C24', [INI + '.make_house_for_test'], trials=30)
def description_without_series(g, W):
    """the short preparation writes the same description of rooms and boundaries as the full one"""
    np = g.np
    N = g.dim('N', 2, 4)
    rs, rv = rooms(g)
    g.assume(_proper(g, rv))
    bss, ds, v = boundaries(g, W, rv['I'])
    w = {k: g.real(k, N, lo=1.0, hi=40.0) for k in SERIES + ['absolute humidity']}
    house = {'story': 1, 'c_value': g.real('c_value', lo=0.1, hi=5.0), 'inside_pressure': g.choice('pressure', ['positive', 'negative', 'balanced'])}
    g.replace(BS, 'get_boundary_simple', lambda theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_ns, b: bss[b['id']],
              'get_boundary_simple by its own contract (boundary_of_an_entry)')
    if g.symbolic:
        g.stub(INI, '_make_spaces_dict', lambda rooms: g.each(rooms, lambda r: r['volume']), 'rooms by their own contract (rooms_of_the_description)')
        g.stub(INI, '_make_boundaries', lambda bss2, rooms, boundaries: g.each(bss2, lambda b: b.area), 'boundaries by their own contract (boundaries_of_the_description)')
    out = g.dir({'weather.csv': {'cols': w}})
    W[INI].make_house_for_test({'rooms': g.data(rs), 'boundaries': g.data(ds), 'building': house}, out, out)
    h = g.read(out, HOUSE)
    g.eq('building', h['building'], dict(house, infiltration_method='balance_residential'))
    if g.symbolic:
        g.eq('rooms', g.arr(h['spaces']), rv['volume'])
        g.eq('boundaries', g.arr(h['boundaries']), v['area'])
    else:
        g.eq('rooms as described', h['spaces'], W[INI]._make_spaces_dict(rooms=rs))
        g.eq('boundaries as described', h['boundaries'], W[INI]._make_boundaries(bss2=bss, rooms=rs, boundaries=ds))
