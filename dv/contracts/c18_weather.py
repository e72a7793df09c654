"""C18 weather series, C19 position of the sun"""
import math
from ..contract import contract

STEPS = {'1h': 1, '30m': 2, '15m': 4}
FILES = {1: '01_kitami', 2: '02_iwamizawa', 3: '03_morioka', 4: '04_nagano', 5: '05_utsunomiya', 6: '06_okayama', 7: '07_miyazaki', 8: '08_naha'}
PLACES = {1: (43.82, 143.91), 2: (43.21, 141.79), 3: (39.70, 141.17), 4: (36.66, 138.20), 5: (36.55, 139.87), 6: (34.66, 133.92),
          7: (31.94, 131.42), 8: (26.21, 127.685)}


def series(g, x, k):
    """the series by hour and part of the hour: record of the full hour, then the straight line to the next record, round the year"""
    prev = g.np.roll(x, 1)
    return [prev + (x - prev) * (q / k) for q in range(k)]


@contract('C18', ['weather.weather_data._interpolate', 'weather.calc_interval.get_n_hour'], trials=60)
def interpolation(g, W):
    """one value per interval; records at full hours (the first one at midnight is the last of the year); linear between hours"""
    iv = g.choice('interval', list(STEPS))
    k = STEPS[iv]
    g.eq('steps per hour', W['weather.calc_interval'].get_n_hour(iv), k)
    N = g.dim('N', 2, 8)
    x = g.real('x', N, lo=-50.0, hi=1000.0)
    y = W['weather.weather_data']._interpolate(weather_data=x, interval=iv)
    g.eq('one value per interval', y.shape[0], N * k)
    part = y.reshape((N, k)) if k > 1 else y.reshape((N, 1))
    for q, want in enumerate(series(g, x, k)):
        g.eq('part %d of the hour' % q, part[:, q], want)
    g.raises('unknown interval', lambda: W['weather.weather_data']._interpolate(weather_data=x, interval='10m'))


@contract('C18', ['weather.weather_data.load', 'weather.weather_data._interpolate', 'weather.weather_data._get_filename'], trials=8)
def records_of_the_region(g, W):
    """the columns of the file of the region: temperature, direct, sky, outward radiation, and humidity in kg/kg"""
    iv = g.choice('interval', list(STEPS))
    region = g.choice('region', list(FILES))
    k = STEPS[iv]
    got = W['weather.weather_data'].load(region=region, interval=iv)
    names = ['outdoor temperature', 'direct normal radiation', 'sky radiation', 'outward radiation', 'humidity']
    g.eq('five series', len(got), 5)
    for c, (name, y) in enumerate(zip(names, got)):
        x = g.table('weather/expanded_amedas/%s.csv' % FILES[region], c + 2, skip=2)
        g.eq(name + ': one value per interval of the year', y.shape[0], 8760 * k)
        part = y.reshape((8760, k)) if k > 1 else y.reshape((8760, 1))
        for q, want in enumerate(series(g, x, k)):
            g.eq('%s, part %d of the hour' % (name, q), part[:, q], want / 1000.0 if c == 4 else want)


@contract('C18', ['weather.region_location.get_phi_loc_and_lambda_loc'], trials=20)
def location(g, W):
    """latitude and longitude of the place of each region, in rad"""
    region = g.choice('region', list(PLACES))
    phi, lam = W['weather.region_location'].get_phi_loc_and_lambda_loc(region=region)
    g.eq('latitude', phi, math.radians(PLACES[region][0]))
    g.eq('longitude', lam, math.radians(PLACES[region][1]))
    g.raises('unknown region', lambda: W['weather.region_location'].get_phi_loc_and_lambda_loc(region=9))


@contract('C18', ['weather.weather.make_weather', 'weather.region_location.get_phi_loc_and_lambda_loc', 'weather.calc_interval.get_n_hour'], trials=12, also={
    'C19': ('the exported position of the sun is the one computed for the place of the region', ['interval of the sun', 'latitude', 'longitude', 'sun '])})
def exported_columns(g, W):
    """every column holds the series it is named after, for the region and interval asked for, over the year 1989"""
    iv = g.choice('interval', list(STEPS))
    region = g.choice('region', list(FILES))
    n = 8760 * STEPS[iv]
    asked = []
    s = {}
    for name, lo, hi in [('theta', -30.0, 40.0), ('dn', 0.0, 1000.0), ('sky', 0.0, 500.0), ('rn', -50.0, 200.0), ('x', 0.0, 0.03),
                         ('h', -1.57, 1.57), ('a', -3.14, 3.14)]:
        v = g.real(name, n, lo=lo, hi=hi)
        s[name] = v

    def load(region, interval):
        asked.append(('records', region, interval))
        return s['theta'], s['dn'], s['sky'], s['rn'], s['x']

    def position(phi_loc, lambda_loc, interval):
        asked.append(('sun', phi_loc, lambda_loc, interval))
        return s['h'], s['a']
    g.replace('weather.weather_data', 'load', load, 'weather_data.load by its contract records_of_the_region')
    g.replace('weather.solar_position', 'calc_solar_position', position, 'solar_position.calc_solar_position by its contract')
    out = g.dir({})
    dd = W['weather.weather'].make_weather(region=region, output_data_dir=out, csv_output=True, interval=iv)
    written = g.frame(out, 'weather.csv')
    g.eq('records of this region and interval', [q for q in asked if q[0] == 'records'], [('records', region, iv)])
    where = [q for q in asked if q[0] == 'sun']
    g.eq('sun asked once', len(where), 1)
    g.eq('interval of the sun', where[0][3], iv)
    g.eq('latitude of the region', where[0][1], math.radians(PLACES[region][0]))
    g.eq('longitude of the region', where[0][2], math.radians(PLACES[region][1]))
    np = g.np
    for col, want in [('temperature', np.round(s['theta'], 3)), ('absolute humidity', np.round(s['x'], 6)),
                      ('normal direct solar radiation', s['dn']), ('horizontal sky solar radiation', s['sky']),
                      ('outward radiation', s['rn']), ('sun altitude', s['h']), ('sun azimuth', s['a'])]:
        g.eq(col, dd[col].to_numpy(), want)
        g.eq(col + ' in the file', written[col].to_numpy(), want)
    g.eq('first instant', str(dd.index[0]), '1989-01-01 00:00:00')
    g.eq('instants', len(dd.index), n)
    g.eq('length of an interval, s', (dd.index[1] - dd.index[0]).total_seconds(), 3600 // STEPS[iv])


# ---------------------------------------------------------------------------------------------- C19
N_YEAR = 1989 - 1968
PERIHELION = 3.71 + 0.2596 * N_YEAR - int((N_YEAR + 3.0) / 4.0)


def orbit(g, d):
    """mean anomaly, angle from perihelion to solstice, true anomaly, equation of time, declination for day number d"""
    np = g.np
    m = 2 * math.pi * (d - PERIHELION) / 365.2596
    eps = np.radians(12.3901 + 0.0172 * (N_YEAR + m / (2 * math.pi)))
    v = m + np.radians(1.914 * np.sin(m) + 0.02 * np.sin(2 * m))
    et = (m - v) - np.arctan(0.043 * np.sin(2.0 * (v + eps)) / (1.0 - 0.043 * np.cos(2.0 * (v + eps))))
    sd = np.cos(v + eps) * math.sin(math.radians(-23.4393))
    return m, eps, v, et, sd


@contract('C19', ['weather.solar_position.get_d_ns', 'weather.solar_position.get_t_m_ns', 'weather.calc_interval.get_n_hour'], trials=6)
def calendar(g, W):
    """day number from 1 to 365 and standard time from midnight, for each interval of the year"""
    iv = g.choice('interval', list(STEPS))
    k = STEPS[iv]
    m = W['weather.solar_position']
    d, t = m.get_d_ns(interval=iv), m.get_t_m_ns(interval=iv)
    g.eq('one day number per interval', d.shape[0], 8760 * k)
    g.eq('one time per interval', t.shape[0], 8760 * k)
    g.holds('day number', g.np.all(d == g.arr([q // (24 * k) + 1 for q in range(8760 * k)])))
    g.holds('standard time', g.np.all(t == g.arr([(q % (24 * k)) / k for q in range(8760 * k)])))


@contract('C19', ['weather.solar_position.get_m_ns', 'weather.solar_position.get_epsilon_ns', 'weather.solar_position.get_v_ns',
                  'weather.solar_position.get_e_t_ns', 'weather.solar_position.get_delta_ns', 'weather.solar_position.get_n',
                  'weather.solar_position.get_d_0', 'weather.solar_position.get_lambda_loc_mer', 'weather.solar_position.get_omega_ns'], trials=60)
def orbit_and_hour_angle(g, W):
    """position on the orbit, equation of time, declination; 15 degrees per hour from noon at the meridian of the standard time"""
    np = g.np
    p = W['weather.solar_position']
    N = g.dim('N', 1, 6)
    d = g.real('d', N, lo=1, hi=366)
    t = g.real('t', N, lo=0.0, hi=24.0)
    lam = g.real('lambda', lo=-math.pi, hi=math.pi)
    m, eps, v, et, sd = orbit(g, d)
    n = p.get_n()
    g.eq('years from 1968', n, N_YEAR)
    d0 = p.get_d_0(n=n)
    g.eq('perihelion', d0, PERIHELION)
    mm = p.get_m_ns(d_ns=d, d_0=d0)
    g.eq('mean anomaly', mm, m)
    ee = p.get_epsilon_ns(m_ns=mm, n=n)
    g.eq('perihelion to solstice', ee, eps)
    vv = p.get_v_ns(m_ns=mm)
    g.eq('true anomaly', vv, v)
    e_t = p.get_e_t_ns(m_ns=mm, epsilon_ns=ee, v_ns=vv)
    g.eq('equation of time', e_t, et)
    dd = p.get_delta_ns(epsilon_ns=ee, v_ns=vv)
    g.eq('declination', np.sin(dd), sd)
    g.holds('declination within the tropics', np.logical_and(dd >= -math.radians(23.4394), dd <= math.radians(23.4394)))
    mer = p.get_lambda_loc_mer()
    g.eq('meridian of the standard time', mer, math.radians(135.0))
    w = p.get_omega_ns(t_m_ns=t, lambda_loc=lam, lambda_loc_mer=mer, e_t_ns=e_t)
    g.eq('hour angle', w, np.radians(15.0 * (t - 12.0)) + lam - math.radians(135.0) + et)


def direction(g, phi, w, sd, cd):
    """unit vector to the sun: up, west, south; and the scalar product with the zenith"""
    np = g.np
    up = np.sin(phi) * sd + np.cos(phi) * cd * np.cos(w)
    return up, cd * np.sin(w), np.sin(phi) * cd * np.cos(w) - np.cos(phi) * sd


def judge(g, phi, w, sd, cd, h, a):
    np = g.np
    up, west, south = direction(g, phi, w, sd, cd)
    g.unit('pole and sun', up, (np.sin(phi), np.cos(phi), 0.0), (sd, cd * np.cos(w), cd * np.sin(w)))
    clear = np.logical_and(up < 1.0, up > -1.0) if g.symbolic else np.abs(up) < 1.0 - 1e-9
    g.eq('altitude', np.sin(h), up, abs_tol=1e-9)
    g.holds('altitude up to a right angle', np.logical_and(h <= math.pi / 2 + 1e-12, h >= -math.pi / 2 - 1e-12))
    g.holds('negative exactly below the horizon', (h < 0.0) == (up < 0.0), when=True if g.symbolic else np.abs(up) > 1e-12)
    g.eq('towards the west', np.cos(h) * np.sin(a), west, when=clear, abs_tol=1e-6)
    g.eq('towards the south', np.cos(h) * np.cos(a), south, when=clear, abs_tol=1e-6)


@contract('C19', ['weather.solar_position.get_h_sun_ns', 'weather.solar_position.get_a_sun_ns'], trials=200)
def altitude_and_azimuth(g, W):
    """altitude and azimuth are the direction to the sun for latitude, declination and hour angle"""
    np = g.np
    p = W['weather.solar_position']
    N = g.dim('N', 1, 6)
    phi = g.real('phi', lo=-1.57, hi=1.57)
    w = g.real('omega', N, lo=-7.0, hi=7.0)
    dl = g.real('delta', N, lo=-0.41, hi=0.41)
    h = p.get_h_sun_ns(phi_loc=phi, omega_ns=w, delta_ns=dl)
    a = p.get_a_sun_ns(omega_ns=w, phi_loc=phi, delta_ns=dl, h_sun_ns=h)
    judge(g, phi, w, np.sin(dl), np.cos(dl), h, a)


@contract('C19', ['weather.solar_position.calc_solar_position'], trials=6)
def position_of_the_sun(g, W):
    """the series for a location: orbit, hour angle and direction put together, for every instant of the calendar"""
    np = g.np
    p = W['weather.solar_position']
    iv = g.choice('interval', list(STEPS))
    k = STEPS[iv]
    phi = g.real('phi', lo=-1.57, hi=1.57)
    lam = g.real('lambda', lo=-math.pi, hi=math.pi)
    if g.symbolic:
        # calendar by its contract
        d = g.real('d', 8760 * k, lo=1, hi=366)
        t = g.real('t', 8760 * k, lo=0.0, hi=24.0)

        def days(interval):
            g.eq('interval of the days', interval, iv)
            return d

        def times(interval):
            g.eq('interval of the times', interval, iv)
            return t
        if not g.stub('weather.solar_position', 'get_d_ns', days, 'get_d_ns by its contract calendar') or \
                not g.stub('weather.solar_position', 'get_t_m_ns', times, 'get_t_m_ns by its contract calendar'):
            g.unsupported('calendar')
    else:
        q = np.arange(8760 * k)
        d, t = q // (24 * k) + 1, (q % (24 * k)) / k
    h, a = p.calc_solar_position(phi_loc=phi, lambda_loc=lam, interval=iv)
    m, eps, v, et, sd = orbit(g, d)
    w = np.radians(15.0 * (t - 12.0)) + lam - math.radians(135.0) + et
    judge(g, phi, w, sd, np.sqrt(1.0 - sd * sd), h, a)
