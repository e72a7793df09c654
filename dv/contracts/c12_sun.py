"""C12 radiation on inclined surfaces, C13 equivalent outdoor temperature, C14 shading, C15 glazing"""
import math
from ..contract import contract

BELOW = 'F-C12-below-horizon'
NODEV = 'F-C14-no-device-fully-shaded'
COMPASS = {'s': (0.0, 90.0), 'sw': (45.0, 90.0), 'w': (90.0, 90.0), 'nw': (135.0, 90.0), 'n': (180.0, 90.0), 'ne': (-135.0, 90.0),
           'e': (-90.0, 90.0), 'se': (-45.0, 90.0), 'top': (0.0, 0.0), 'bottom': (0.0, 180.0)}


def sun(g, N=None):
    N = g.dim('N', 1, 6) if N is None else N
    h = g.real('h_sun', N, lo=-math.pi / 2, hi=math.pi / 2)
    a = g.real('a_sun', N, lo=-math.pi, hi=math.pi)
    return N, h, a


def radiation(g, N):
    return g.real('i_dn', N, lo=0.0, hi=1000.0), g.real('i_sky', N, lo=0.0, hi=500.0)


def surface(g):
    return g.real('w_alpha', lo=-math.pi, hi=math.pi), g.real('w_beta', lo=0.0, hi=math.pi)


def facing(g, h, a, al, be):
    """cosine of the angle between the direction of the sun and the normal of the surface; never above one (Cauchy-Schwarz)"""
    np = g.np
    s = (np.cos(h) * np.sin(a), np.cos(h) * np.cos(a), np.sin(h))
    n = (np.sin(be) * np.sin(al), np.sin(be) * np.cos(al), np.cos(be))
    dot = s[0] * n[0] + s[1] * n[1] + s[2] * n[2]
    g.unit('sun and normal', dot, s, n)
    return dot


def incidence(g, h, a, al, be):
    """cosine of incidence as it should be, and as it is while the sun is below the horizon"""
    np = g.np
    c = np.maximum(facing(g, h, a, al, be), 0.0)
    return np.where(h > 0.0, c, 0.0), c


def sky_view(g, be):
    return (1.0 + g.np.cos(be)) / 2.0


@contract('C12', ['initializer.inclined_surface_solar_radiation.get_theta_aoi_j_n'], trials=200)
def angle_of_incidence(g, W):
    """the angle between sun and normal, a right angle while the sun does not reach the surface; a number for every position of the sun"""
    np = g.np
    N, h, a = sun(g)
    al, be = surface(g)
    th = W['initializer.inclined_surface_solar_radiation'].get_theta_aoi_j_n(h_sun_ns=h, a_sun_ns=a, w_alpha_j=al, w_beta_j=be)
    want, now = incidence(g, h, a, al, be)
    g.eq('cosine of incidence', np.cos(th), want, abs_tol=1e-9, finding=(BELOW, now))
    g.holds('between zero and a right angle', np.logical_and(th >= 0.0, th <= 1.5707963267949))


@contract('C12', ['initializer.inclined_surface_solar_radiation.get_i_is_j_ns'], trials=200)
def radiation_on_an_inclined_surface(g, W):
    """direct normal radiation times cosine, sky radiation times sky view, a tenth of the horizontal global radiation times ground view"""
    np = g.np
    N, h, a = sun(g)
    al, be = surface(g)
    dn, sky = radiation(g, N)
    d, s, r = W['initializer.inclined_surface_solar_radiation'].get_i_is_j_ns(i_dn_ns=dn, i_sky_ns=sky, h_sun_ns=h, a_sun_ns=a, w_alpha_j=al, w_beta_j=be)
    want, now = incidence(g, h, a, al, be)
    f = sky_view(g, be)
    g.eq('direct', d, dn * want, abs_tol=1e-8, finding=(BELOW, dn * now))
    g.eq('sky', s, f * sky)
    g.eq('reflected', r, 0.1 * (1.0 - f) * (np.where(h > 0.0, np.sin(h), 0.0) * dn + sky), abs_tol=1e-9)
    g.holds('direct not negative', d >= 0.0)
    g.holds('sky not negative', s >= 0.0)
    g.holds('reflected not negative', r >= -1e-12)


@contract('C12', ['initializer.inclined_surface_solar_radiation.get_r_n_is_j_ns', 'initializer.inclined_surface_solar_radiation._get_f_sky_j',
                  'initializer.inclined_surface_solar_radiation._get_f_gnd_j'], trials=60)
def views_and_night_sky(g, W):
    """sky view (1 + cos tilt)/2, ground view its complement, night-sky loss in proportion to the sky view"""
    np = g.np
    N = g.dim('N', 1, 6)
    be = g.real('w_beta', lo=0.0, hi=math.pi)
    rn = g.real('r_n', N, lo=-50.0, hi=200.0)
    m = W['initializer.inclined_surface_solar_radiation']
    g.eq('night-sky loss', m.get_r_n_is_j_ns(r_n_ns=rn, w_beta_j=be), sky_view(g, be) * rn)
    f = m._get_f_sky_j(w_beta_j=be)
    g.eq('sky view', f, (1.0 + np.cos(be)) / 2.0)
    g.eq('sky and ground make one', f + m._get_f_gnd_j(f_sky_j=f), 1.0)
    g.holds('sky view between zero and one', (f >= 0.0) & (f <= 1.0))


@contract('C12', ['initializer.external_boundaries_direction.get_w_alpha_j_w_beta_j'], trials=40)
def compass(g, W):
    """azimuth from south over west, tilt from horizontal"""
    d = g.choice('direction', list(COMPASS))
    al, be = W['initializer.external_boundaries_direction'].get_w_alpha_j_w_beta_j(direction_j=d)
    g.eq('azimuth', al, math.radians(COMPASS[d][0]))
    g.eq('tilt', be, math.radians(COMPASS[d][1]))
    g.raises('unknown direction', lambda: W['initializer.external_boundaries_direction'].get_w_alpha_j_w_beta_j(direction_j='south'))


# ---------------------------------------------------------------------------------------------- C13
def boundary_entry(g, kind, struck):
    s = dict(a_s=g.real('a_s', lo=0.0, hi=1.0), eps=g.real('eps', lo=0.0, hi=1.0), r=g.real('r_o', lo=0.0, hi=0.2))
    b = {'boundary_type': kind, 'is_sun_striked_outside': struck, 'outside_solar_absorption': s['a_s'], 'outside_emissivity': s['eps'],
         'outside_heat_transfer_resistance': s['r']}
    return s, b


@contract('C13', ['initializer.outside_eqv_temp.OutsideEqvTemp'], trials=120)
def equivalent_temperature_of_outside_boundaries(g, W):
    """sunshine times absorptance minus night-sky loss times emissivity, times the outside film resistance, over the outdoor temperature"""
    np = g.np
    kind = g.choice('kind', ['external_general_part', 'external_opaque_part', 'external_transparent_part'])
    struck = g.choice('struck', [True, False])
    N, h, a = sun(g)
    to, rn = g.real('theta_o', N, lo=-20.0, hi=40.0), g.real('r_n', N, lo=-50.0, hi=200.0)
    dn, sky = radiation(g, N)
    s, b = boundary_entry(g, kind, struck)
    al = be = 0.0
    if struck:
        d = g.choice('direction', list(COMPASS))
        b['direction'] = d
        al, be = math.radians(COMPASS[d][0]), math.radians(COMPASS[d][1])
    x = W['initializer.outside_eqv_temp'].OutsideEqvTemp.create(b)
    got = x.get_theta_o_sol_i_j_ns(theta_o_ns=to, i_dn_ns=dn, i_sky_ns=sky, r_n_ns=rn, a_sun_ns=a, h_sun_ns=h)
    if not struck:
        g.eq('not struck by the sun', got, to)
        return
    f = sky_view(g, be)
    night = s['eps'] * rn * f * s['r']
    if kind == 'external_transparent_part':
        g.eq('glazed', got, to - night)
        return
    want, now = incidence(g, h, a, al, be)
    other = sky * f + 0.1 * (1.0 - f) * (np.where(h > 0.0, np.sin(h), 0.0) * dn + sky)
    g.eq('opaque', got, to + s['a_s'] * (dn * want + other) * s['r'] - night, finding=(BELOW, to + s['a_s'] * (dn * now + other) * s['r'] - night), abs_tol=1e-8)


@contract('C13', ['initializer.outside_eqv_temp.OutsideEqvTemp'], trials=12)
def equivalent_temperature_inside_and_in_the_ground(g, W):
    """zero inside the building, the annual mean outdoor temperature in the ground; unknown kinds are rejected"""
    np = g.np
    N = 8760 * 4
    to = g.real('theta_o', N, lo=-20.0, hi=40.0)
    z = g.real('other', N, lo=0.0, hi=100.0)
    kind = g.choice('kind', ['internal', 'ground', 'elsewhere'])
    s, b = boundary_entry(g, kind, g.choice('struck', [True, False]))
    m = W['initializer.outside_eqv_temp'].OutsideEqvTemp
    if kind == 'elsewhere':
        g.raises('unknown kind', lambda: m.create(b), KeyError)
        return
    got = m.create(b).get_theta_o_sol_i_j_ns(theta_o_ns=to, i_dn_ns=z, i_sky_ns=z, r_n_ns=z, a_sun_ns=z, h_sun_ns=z)
    g.eq(kind, got, np.zeros(N) if kind == 'internal' else np.full(N, np.sum(to) / N))


# ---------------------------------------------------------------------------------------------- C14
def eave(g):
    return g.real('depth', lo=0.0, hi=3.0), g.real('d_h', lo=0.1, hi=3.0), g.real('d_e', lo=0.0, hi=2.0)


def simple(depth, d_h, d_e, d='s', kind='external_transparent_part'):
    return {'boundary_type': kind, 'is_sun_striked_outside': True, 'direction': d,
            'solar_shading_part': {'existence': True, 'input_method': 'simple', 'depth': depth, 'd_h': d_h, 'd_e': d_e}}


def shadow(g, h, a, w, depth, d_h, d_e):
    """length of the shadow of an endless eave below the head of the window, as a fraction of its height"""
    np = g.np
    up = np.logical_and(h > 0.0, np.cos(a - w) > 0.0)
    return np.where(up, np.clip((depth * np.tan(h) / np.cos(a - w) - d_e) / d_h, 0.0, 1.0), 0.0)


@contract('C14', ['initializer.solar_shading.SolarShading', 'initializer.solar_shading.SolarShadingSimple'], trials=200)
def shadow_of_an_eave(g, W):
    """the geometric shadow of the eave at the profile angle of the sun; none while the sun is behind the wall or below the horizon"""
    np = g.np
    N, h, a = sun(g)
    d = g.choice('direction', ['s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se'])
    kind = g.choice('kind', ['external_general_part', 'external_transparent_part', 'external_opaque_part'])
    z, d_h, d_e = eave(g)
    f = W['initializer.solar_shading'].SolarShading.create(simple(z, d_h, d_e, d, kind)).get_f_ss_d_j_ns(h_sun_n=h, a_sun_n=a)
    w = math.radians(COMPASS[d][0])
    g.eq('shaded fraction', f, shadow(g, h, a, w, z, d_h, d_e), when=np.abs(np.cos(a - w)) > 1e-9, abs_tol=1e-7)
    g.holds('between zero and one', np.logical_and(f >= 0.0, f <= 1.0))


@contract('C14', ['initializer.solar_shading.SolarShadingSimple'], trials=200)
def shade_grows_with_the_eave(g, W):
    """deeper eaves shade at least as much, eaves further above the window at most as much"""
    np = g.np
    N, h, a = sun(g)
    z, d_h, d_e = eave(g)
    dz, dd = g.real('deeper', lo=0.0, hi=2.0), g.real('closer', lo=0.0, hi=2.0)
    w = g.real('w_alpha', lo=-math.pi, hi=math.pi)
    m = W['initializer.solar_shading'].SolarShadingSimple
    f = lambda z, e: m(w_alpha=w, depth=z, d_h=d_h, d_e=e).get_f_ss_d_j_ns(h_sun_n=h, a_sun_n=a)
    base = f(z, d_e + dd)
    g.le('deeper', base, f(z + dz, d_e + dd), tol=1e-9)
    g.le('closer', base, f(z, d_e), tol=1e-9)


@contract('C14', ['initializer.solar_shading.SolarShadingSimple'], trials=200)
def sky_shaded_by_an_eave(g, W):
    """crossed-strings view factor between window and eave: none for zero depth, at most one half, more for deeper eaves"""
    z, d_h, d_e = eave(g)
    dz = g.real('deeper', lo=0.0, hi=2.0)
    m = W['initializer.solar_shading'].SolarShading
    d = g.choice('direction', ['s', 'sw', 'w', 'nw', 'n', 'ne', 'e', 'se'])
    kind = g.choice('kind', ['external_general_part', 'external_transparent_part', 'external_opaque_part'])
    of = lambda z: m.create(simple(z, d_h, d_e, d, kind)).get_f_ss_s_j()
    f = of(z)
    r = lambda x, y: g.math.sqrt(x * x + y * y)
    g.eq('fraction', f, (d_h + r(d_e, z) - r(d_e + d_h, z)) / (2.0 * d_h), abs_tol=1e-9)
    g.holds('at least zero', f >= -1e-9)
    g.holds('at most one half', f <= 0.5)
    g.eq('nothing for zero depth', of(0.0), 0.0, abs_tol=1e-9)


@contract('C14', ['initializer.solar_shading.SolarShading'], trials=60)
def which_shading(g, W):
    """no device, or not struck by the sun: no shade; unknown kinds are rejected, unsupported devices are not guessed"""
    np = g.np
    N, h, a = sun(g)
    kind = g.choice('kind', ['external_general_part', 'external_transparent_part', 'external_opaque_part', 'internal', 'ground', 'elsewhere'])
    exists, struck = g.choice('exists', [True, False]), g.choice('struck', [True, False])
    method = g.choice('method', ['simple', 'detail', 'guess']) if exists else 'simple'
    d = g.choice('direction', [x for x in COMPASS if x not in ('top', 'bottom')] if exists and kind.startswith('external') else list(COMPASS))
    m = W['initializer.solar_shading'].SolarShading
    b = simple(1.0, 1.0, 0.5, d, kind)
    b['is_sun_striked_outside'] = struck
    ssp = b['solar_shading_part']
    ssp['existence'], ssp['input_method'] = exists, method
    for k in ('x1', 'x2', 'x3', 'y1', 'y2', 'y3', 'z_x_pls', 'z_x_mns', 'z_y_pls', 'z_y_mns'):
        ssp[k] = 0.3
    if kind == 'elsewhere':
        g.raises('unknown kind', lambda: m.create(b), KeyError)
        return
    has = exists and struck and kind.startswith('external')
    if has and method == 'guess':
        g.raises('unknown method', lambda: m.create(b), ValueError)
        return
    x = m.create(b)
    if has and method == 'detail':
        g.raises('not supported', lambda: x.get_f_ss_d_j_ns(h, a), NotImplementedError)
        g.raises('not supported for the sky', x.get_f_ss_s_j, NotImplementedError)
    elif has:
        g.eq('device', x.get_f_ss_d_j_ns(h, a), m.create(simple(1.0, 1.0, 0.5, d, kind)).get_f_ss_d_j_ns(h, a))
    else:
        g.eq('no device, sun', x.get_f_ss_d_j_ns(h, a), np.zeros(N), finding=(NODEV, np.ones(N)))
        g.eq('no device, sky', x.get_f_ss_s_j(), 0.0)


# ---------------------------------------------------------------------------------------------- C15
def tau_single(c):
    return 2.552 * c + 1.364 * c ** 2 - 11.388 * c ** 3 + 13.617 * c ** 4 - 5.146 * c ** 5


def rho_single(c):
    return 1.0 - 5.189 * c + 12.392 * c ** 2 - 16.593 * c ** 3 + 11.851 * c ** 4 - 3.461 * c ** 5


def tau(g, c, glazing):
    t = tau_single(c)
    if glazing == 'single':
        return t
    # t^2 / (1 - r^2) with the common factor c taken out
    t1 = 2.552 + 1.364 * c - 11.388 * c ** 2 + 13.617 * c ** 3 - 5.146 * c ** 4
    s1 = 5.189 - 12.392 * c + 16.593 * c ** 2 - 11.851 * c ** 3 + 3.461 * c ** 4
    return c * t1 * t1 / (s1 * (1.0 + rho_single(c)))


@contract('C15', ['initializer.oblique_incidence_charac.get_tau_d_j_ns', 'initializer.oblique_incidence_charac.get_c_d_j'], trials=200)
def glazing_characteristics(g, W):
    """polynomial in the cosine of incidence, zero at grazing incidence, one at normal incidence, never negative; fixed for diffuse radiation"""
    np = g.np
    N = g.dim('N', 1, 6)
    th = g.real('theta', N, lo=0.0, hi=math.pi / 2)
    glazing = g.choice('glazing', ['single', 'multiple'])
    m = W['initializer.oblique_incidence_charac']
    t = m.get_tau_d_j_ns(theta_aoi_j_ns=th, glazing_type_j=glazing)
    c = np.cos(th)
    g.eq('characteristic', t, tau(g, c, glazing), when=c > 1e-6)
    g.holds('not negative', t >= 0.0)
    one = m.get_tau_d_j_ns(theta_aoi_j_ns=np.zeros(1), glazing_type_j=glazing)
    g.holds('one at normal incidence', np.abs(one - 1.0) <= 0.0021)
    g.eq('diffuse', m.get_c_d_j(glazing_type_j=glazing), {'single': 0.900, 'multiple': 0.832}[glazing])
    g.raises('unknown glazing', lambda: m.get_tau_d_j_ns(theta_aoi_j_ns=th, glazing_type_j='triple'), ValueError)
    g.raises('unknown glazing, diffuse', lambda: m.get_c_d_j(glazing_type_j='triple'), ValueError)


def glazed(g, W, b, glazing):
    b.update(area=g.real('area', lo=0.1, hi=20.0), incident_angle_characteristics=glazing, eta_value=g.real('eta', lo=0.0, hi=1.0))
    return b


def shaded_glazing(g, W, glazing, directions):
    """area times gain coefficient times the unshaded radiation with the angular characteristic for the direct and the fixed one for the diffuse part"""
    np = g.np
    N, h, a = sun(g)
    dn, sky = radiation(g, N)
    d = g.choice('direction', directions)
    z, d_h, d_e = eave(g)
    b = glazed(g, W, simple(z, d_h, d_e, d), glazing)
    sh = W['initializer.solar_shading'].SolarShading.create(b)
    q = W['initializer.transmission_solar_radiation'].TransmissionSolarRadiation.create(b, sh).get_qgt(a_sun_ns=a, h_sun_ns=h, i_dn_ns=dn, i_sky_ns=sky)
    al, be = math.radians(COMPASS[d][0]), math.radians(COMPASS[d][1])
    want, now = incidence(g, h, a, al, be)
    f = sky_view(g, be)
    c_d = {'single': 0.900, 'multiple': 0.832}[glazing]
    fd = shadow(g, h, a, al, z, d_h, d_e)
    r = lambda x, y: g.math.sqrt(x * x + y * y)
    fs = (d_h + r(d_e, z) - r(d_e + d_h, z)) / (2.0 * d_h)
    diffuse = (1.0 - fs) * c_d * f * sky + c_d * 0.1 * (1.0 - f) * (np.where(h > 0.0, np.sin(h), 0.0) * dn + sky)
    of = lambda c: b['area'] * b['eta_value'] * ((1.0 - fd) * tau(g, c, glazing) * dn * c + diffuse)
    ok = np.abs(np.cos(a - al)) > 1e-6
    g.eq('transmitted heat', q, of(want), when=ok, abs_tol=1e-6, finding=(BELOW, of(now)))


@contract('C15', ['initializer.transmission_solar_radiation.TransmissionSolarRadiation'], trials=80)
def heat_through_shaded_single_glazing_southern(g, W):
    """area times gain coefficient times the unshaded radiation with the angular characteristic for the direct and the fixed one for the diffuse part"""
    shaded_glazing(g, W, 'single', ['s', 'sw', 'se', 'w'])


@contract('C15', ['initializer.transmission_solar_radiation.TransmissionSolarRadiation'], trials=80)
def heat_through_shaded_single_glazing_northern(g, W):
    """area times gain coefficient times the unshaded radiation with the angular characteristic for the direct and the fixed one for the diffuse part"""
    shaded_glazing(g, W, 'single', ['n', 'ne', 'nw', 'e'])


@contract('C15', ['initializer.transmission_solar_radiation.TransmissionSolarRadiation'], trials=80)
def heat_through_shaded_multiple_glazing_southern(g, W):
    """area times gain coefficient times the unshaded radiation with the angular characteristic for the direct and the fixed one for the diffuse part"""
    shaded_glazing(g, W, 'multiple', ['s', 'sw', 'se', 'w'])


@contract('C15', ['initializer.transmission_solar_radiation.TransmissionSolarRadiation'], trials=80)
def heat_through_shaded_multiple_glazing_northern(g, W):
    """area times gain coefficient times the unshaded radiation with the angular characteristic for the direct and the fixed one for the diffuse part"""
    shaded_glazing(g, W, 'multiple', ['n', 'ne', 'nw', 'e'])


@contract('C15', ['initializer.transmission_solar_radiation.TransmissionSolarRadiation'], trials=120)
def heat_through_unshaded_glazing(g, W):
    """without a shading device all direct and diffuse radiation counts"""
    np = g.np
    N, h, a = sun(g)
    dn, sky = radiation(g, N)
    d = g.choice('direction', list(COMPASS))
    glazing = g.choice('glazing', ['single', 'multiple'])
    b = glazed(g, W, simple(0.0, 1.0, 0.0, d), glazing)
    b['solar_shading_part'] = {'existence': False}
    sh = W['initializer.solar_shading'].SolarShading.create(b)
    q = W['initializer.transmission_solar_radiation'].TransmissionSolarRadiation.create(b, sh).get_qgt(a_sun_ns=a, h_sun_ns=h, i_dn_ns=dn, i_sky_ns=sky)
    al, be = math.radians(COMPASS[d][0]), math.radians(COMPASS[d][1])
    want, now = incidence(g, h, a, al, be)
    f = sky_view(g, be)
    c_d = {'single': 0.900, 'multiple': 0.832}[glazing]
    diffuse = c_d * f * sky + c_d * 0.1 * (1.0 - f) * (np.where(h > 0.0, np.sin(h), 0.0) * dn + sky)
    ae = b['area'] * b['eta_value']
    g.eq('transmitted heat', q, ae * (tau(g, want, glazing) * dn * want + diffuse), abs_tol=1e-6, finding=(NODEV, ae * diffuse))


@contract('C15', ['initializer.transmission_solar_radiation.TransmissionSolarRadiation'], trials=12)
def no_transmission_elsewhere(g, W):
    """nothing is transmitted by opaque, inside and ground boundaries, and by glazing not struck by the sun"""
    np = g.np
    N = 8760 * 4
    x = g.real('x', N, lo=0.0, hi=1.5)
    kind = g.choice('kind', ['external_general_part', 'external_opaque_part', 'internal', 'ground', 'external_transparent_part'])
    b = glazed(g, W, simple(0.5, 1.0, 0.1, g.choice('direction', list(COMPASS)), kind), g.choice('glazing', ['single', 'multiple']))
    b['is_sun_striked_outside'] = False if kind == 'external_transparent_part' else g.choice('struck', [True, False])
    sh = W['initializer.solar_shading'].SolarShading.create(b)
    q = W['initializer.transmission_solar_radiation'].TransmissionSolarRadiation.create(b, sh).get_qgt(a_sun_ns=x, h_sun_ns=x, i_dn_ns=x, i_sky_ns=x)
    g.eq('transmitted heat', q, np.zeros(N))


class Shade:
    def __init__(self, sun, sky):
        self.sun, self.sky = sun, sky

    def get_f_ss_d_j_ns(self, h_sun_n, a_sun_n):
        return self.sun

    def get_f_ss_s_j(self):
        return self.sky


@contract('C15', ['initializer.transmission_solar_radiation.TransmissionSolarRadiation'], trials=60)
def transmitted_heat_is_never_negative(g, W):
    """with radiation, shading and characteristics as their own contracts guarantee them"""
    np = g.np
    N, h, a = sun(g)
    dn, sky = radiation(g, N)
    glazing = g.choice('glazing', ['single', 'multiple'])
    b = glazed(g, W, simple(0.0, 1.0, 0.0, 'se'), glazing)
    if g.symbolic:
        i = [g.real(k, N, lo=0.0) for k in ('i_d', 'i_s', 'i_r')]
        t = g.real('tau', N, lo=0.0)
        g.stub('initializer.inclined_surface_solar_radiation', 'get_i_is_j_ns', lambda i_dn_ns, i_sky_ns, h_sun_ns, a_sun_ns, w_alpha_j, w_beta_j: tuple(i),
               'radiation on the surface is not negative (C12)')
        g.stub('initializer.oblique_incidence_charac', 'get_tau_d_j_ns', lambda theta_aoi_j_ns, glazing_type_j: t, 'characteristic is not negative (glazing_characteristics)')
    sh = Shade(g.real('f_d', N, lo=0.0, hi=1.0), g.real('f_s', lo=0.0, hi=0.5))
    q = W['initializer.transmission_solar_radiation'].TransmissionSolarRadiation.create(b, sh).get_qgt(a_sun_ns=a, h_sun_ns=h, i_dn_ns=dn, i_sky_ns=sky)
    g.holds('not negative', q >= 0.0)


@contract('C12', ['initializer.inclined_surface_solar_radiation.get_theta_aoi_j_n'], trials=60)
def sun_exactly_facing_the_surface(g, W):
    """the cosine of incidence is one, a number in spite of rounding"""
    np = g.np
    N = g.dim('N', 20, 40)
    a = g.real('a_sun', N, lo=-math.pi, hi=math.pi)
    al, be = surface(g)
    be = be / 2.0
    h = 0.0 * a + (math.pi / 2 - be)
    th = W['initializer.inclined_surface_solar_radiation'].get_theta_aoi_j_n(h_sun_ns=h, a_sun_ns=0.0 * a + al, w_alpha_j=al, w_beta_j=be)
    g.eq('cosine of incidence', np.cos(th), 0.0 * a + 1.0, abs_tol=1e-9)
