"""C20 schedules of the household"""
from ..contract import contract

SWAP = 'F-C20-cooking-heat-and-moisture-swapped'
ROOMS = ['main_occupant_room', 'other_occupant_room', 'non_occupant_room']
DAYS = ['平日', '休日外', '休日在']
QUARTERS = 96


def near_an_edge(n, band):
    """every other executed trial a little inside an edge of the band"""
    near = round(n * 1000) % 4
    return band + 0.004 if near == 0 else band + 0.996 if near == 1 else n


def residents(g):
    """any household size between one and four, by its place between tabulated sizes; (size, smaller table, larger table)"""
    band = g.choice('band', [1, 2, 3])
    n = g.real('n_p%d' % band, lo=float(band), hi=float(band + 1), hard=True, hi_open=band < 3,
               num=lambda drawn: near_an_edge(drawn, band))
    return n, str(band), str(band + 1)


def prescribed(g, data, kind, n, lower, upper):
    """f(room, day type): quarter hours of the day for one quantity, between the tabulated household sizes"""
    d = data['daily_schedule']
    w = n - float(lower)

    def f(room, day):
        a, b = g.arr(d[lower][room][day][kind]), g.arr(d[upper][room][day][kind])
        return a + (b - a) * w
    return f


def year(g, data, f, room):
    """[365, 96]"""
    np = g.np
    cal = g.arr(data['calendar'])
    r = 0.0
    for day in DAYS:
        r = r + np.where(cal == day, 1.0, 0.0).reshape(-1, 1) * f(room, day).reshape(1, -1)
    return r


@contract('C20', ['initializer.schedule_loader._get_schedule', 'initializer.schedule_loader._get_interpolated_schedule',
                  'initializer.schedule_loader._get_ceil_floor_np', 'initializer.schedule_loader._load_schedule',
                  'initializer.schedule_loader._get_each_schedules', 'initializer.schedule_loader.get_compiled_schedules'], trials=30)
def series_of_the_rooms(g, W):
    """every room has the quantities of its own use, for the kind of each day, between the tabulated household sizes"""
    np = g.np
    data = g.json('initializer/schedules.json')
    n, lower, upper = residents(g)
    R = g.dim('rooms', 1, 4)
    use = g.enum('use', ROOMS, R)
    area = g.real('area', R, lo=1.0, hi=100.0)
    names = g.records(R, lambda at, k: at(use))
    got = W['initializer.schedule_loader'].get_compiled_schedules(n_p=n, room_name_is=names, a_floor_is=area)
    g.eq('five series', len(got), 5)
    q, x, v, hum, ac = got

    def want(kind):
        f = prescribed(g, data, kind, n, lower, upper)
        r = 0.0
        for room in ROOMS:
            y = year(g, data, f, room)
            r = r + np.where(use == room, 1.0, 0.0).reshape(-1, 1, 1) * y[np.newaxis, :, :]
        return r
    heat, vapour = want('heat_generation_cooking'), want('vapor_generation_cooking')
    rest = want('heat_generation_appliances') + want('heat_generation_lighting') * area.reshape(-1, 1, 1)
    for name, s, w, finding in [
            ('heat of appliances, lighting and cooking, W', q, rest + heat, (SWAP, lambda: rest + vapour)),
            ('moisture of cooking, kg/s', x, vapour / 1000.0 / 3600.0, (SWAP, lambda: heat / 1000.0 / 3600.0)),
            ('local ventilation, m3/s', v, want('local_vent_amount') / 3600.0, None),
            ('people', hum, want('number_of_people'), None),
            ('air-conditioning demand', ac, want('is_temp_limit_set'), None)]:
        g.eq(name + ': rooms', s.shape[0], R)
        g.eq(name + ': quarter hours of the year', s.shape[1], 365 * QUARTERS)
        g.eq(name, s.reshape((R, 365, QUARTERS)), w, finding=finding)


@contract('C20', ['initializer.schedule_loader._get_ceil_floor_np'], trials=60)
def household_out_of_range(g, W):
    """no schedule for a household the tables do not cover"""
    n = g.real('n_p', lo=-2.0, hi=9.0)
    g.assume(g.np.logical_or(n < 1.0, n > 4.0))
    g.raises('refused', lambda: W['initializer.schedule_loader'].get_compiled_schedules(n_p=n, room_name_is=['main_occupant_room'], a_floor_is=g.arr([10.0])), ValueError)


@contract('C20', ['initializer.residents_number.get_total_number_of_residents'], trials=100)
def household_size(g, W):
    """one person for every 30 m2, at least one and at most four"""
    np = g.np
    a = g.real('a_floor', lo=0.0, hi=300.0)
    n = W['initializer.residents_number'].get_total_number_of_residents(a_floor_total=a)
    g.eq('size', n, np.minimum(np.maximum(a / 30.0, 1.0), 4.0))


@contract('C20', ['initializer.schedule_loader._load_schedule'], mode='T', trials=4)
def tables(g, W):
    """the tables: every household size, room use and kind of day has its quantities, none negative, demand between 0 and 1, and no more
    people than live there"""
    d = g.json('initializer/schedules.json')
    g.eq('days', len(d['calendar']), 365)
    g.holds('kinds of days', all(x in DAYS for x in d['calendar']))
    for size in ('1', '2', '3', '4'):
        for room in ROOMS:
            for day in DAYS:
                t = d['daily_schedule'][size][room][day]
                for kind in ('heat_generation_appliances', 'heat_generation_lighting', 'heat_generation_cooking', 'vapor_generation_cooking',
                             'local_vent_amount', 'number_of_people', 'is_temp_limit_set'):
                    g.eq('quarter hours', len(t[kind]), QUARTERS)
                    g.holds('not negative', min(t[kind]) >= 0)
                g.holds('demand', max(t['is_temp_limit_set']) <= 1)
                g.holds('people', max(t['number_of_people']) <= float(size))
