import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
CORE='heat_load_calc/core/'; INI='heat_load_calc/initializer/'; WEA='heat_load_calc/weather/'; EXT='heat_load_calc/external/'; CON='heat_load_calc/convert/'

p('C01','Sensible heat balance of every room closes in every time step',
 'In every time step and for every room, the heat stored in the room air between the old and the new room temperature equals the convective exchange with all its surfaces at their new temperatures, plus the exchange with outdoor air brought in by mechanical ventilation, infiltration and open windows, plus appliance and occupant heat, plus the exchange with the furniture at its new temperature, plus the convective conditioning load and the convective share of the radiant conditioning load (air exchanged with other rooms is stated separately). The furniture temperature itself satisfies its own balance of room exchange, absorbed sunshine and stored heat, and the reported operative temperature is the convective/radiative weighting of the new room temperature and the new mean radiant temperature seen by the occupant.',
 ['inputs','configurations','histories'],'every number of rooms and boundaries, every pre-computed coefficient set, every previous state and weather step',
 'The year-long tests compare single numbers of one building; a wrong term that is small there, or absent there (radiant heating, open windows, furniture sunshine), passes.',
 [CORE+'sequence.py',CORE+'pre_calc_parameters.py',CORE+'conditions.py',CORE+'matrix_method.py'],
 [('one-step update of temperatures',CORE+'sequence.py run_tick'),('time-independent coefficients',CORE+'pre_calc_parameters.py make_pre_calc_parameters')],
 [('room state','air, furniture, surface temperatures carried between steps',CORE+'conditions.py Conditions')],['values returned and logged by one step'])
p('C02','Surface temperatures satisfy the wall response and surface exchange',
 'In every time step the new temperature of every boundary surface equals its absorbed-heat response to the new surface heat flow plus its through-response to the new temperature behind it plus the carried-over response components, where the heat flow is convection with the adjacent room air plus long-wave exchange with the other surfaces of the same room plus absorbed sunshine plus absorbed radiant heating. The carried-over components advance by their decay ratio with the old heat flow and old rear temperature as excitation, and the temperature behind a boundary is the weighted outdoor equivalent temperature plus the weighted equivalent temperature of the boundary behind it.',
 ['inputs','configurations','histories'],'every boundary set (external, internal, ground, temperature-difference coefficient below one), every response factor set and every previous state',
 'Tests use a handful of walls, almost all with equal coefficients on both sides, and look at room temperature only.',
 [CORE+'sequence.py',CORE+'pre_calc_parameters.py',CORE+'shape_factor.py'],
 [('surface solution matrices',CORE+'pre_calc_parameters.py'),('wall response recursion',CORE+'sequence.py run_tick')],
 [('response components','per-term absorbed and transmitted response',CORE+'conditions.py')],['surface temperature, heat flow, rear temperature of a step'])
p('C03','Heating and cooling loads hit the target or the capacity limit, never more',
 'The operative temperatures and loads found for a step always satisfy the linear building equation; a room that is not called to heat (operating in heating mode with its free-floating temperature below the lower target) or cool (cooling mode, free-floating above the upper target) gets no convective and no radiant load; a called room reaches the target weighted with the free-floating temperature by its demand. A radiant system supplies the load alone up to its capacity, is clamped to exactly its capacity where it would have to exceed it, with the convective system supplying the remainder, and rooms without a radiant system are conditioned by convection only.',
 ['inputs','configurations'],'every number of rooms, every regular coefficient matrix, every combination of modes, demands, targets, radiant installations and capacities',
 'Tests never reach radiant saturation, partial demand, or several rooms in different modes at once.',
 [CORE+'next_condition.py'],[('two-pass load solution',CORE+'next_condition.py')],(),['temperatures and loads returned for a step'])
p('C04','Operation mode changes only as the comfort thresholds allow',
 'Without air-conditioning demand a room is always stopped with windows closed; with demand, a heating room keeps heating while the heavily dressed comfort index is at most +0.7, a cooling room keeps cooling while the lightly dressed index is at least -0.7, and otherwise changes directly to the opposite conditioning only when the index of the opposite dress passes its 0.7 threshold, else stops with windows closed. A stopped room starts cooling when the light index is at least +0.7 (checked first), else heating when the heavy index is at most -0.7, else opens or keeps open the windows according to the sign of the medium index (at exactly zero an open window closes and a closed one opens); every room always gets exactly one of the four modes, decided from its own values only.',
 ['inputs','histories'],'every demand value, every previous mode, every real value of the three comfort indices, any number of rooms',
 'Year-long tests visit few transitions and no boundary values; there is no test of the mode decision itself.',
 [CORE+'ot_target_pmv.py',CORE+'operation_mode.py'],[('mode decision',CORE+'ot_target_pmv.py get_operation_mode_is_n')],[('previous mode','mode of the previous step',CORE+'conditions.py')],['mode returned for a step'])
p('C05','The target operative temperature realises the target comfort index',
 'For a heating or cooling room the target operative temperature is exactly the one at which a room with air at that temperature has the target comfort index (-0.5 heating, +0.5 cooling) with the clothing (1.1 heating, 0.3 cooling, 0.7 stopped), humidity and surface coefficients of the step; stopped rooms get no target, heating rooms only a lower and cooling rooms only an upper one. The comfort index used for the decision follows the standard heat balance of the human body with seated metabolism, air speed 0.2 m/s under convective conditioning, 0.1 m/s with open windows and 0 otherwise, and rises strictly with the operative temperature.',
 ['inputs','configurations'],'every humidity, temperature, mean radiant temperature, mode, clothing and coefficient',
 'No test covers the comfort module.',
 [CORE+'ot_target_pmv.py',CORE+'ot_target.py',EXT+'psychrometrics.py'],[('index and inverse',CORE+'ot_target_pmv.py'),('lower/upper split',CORE+'ot_target.py')],(),['targets, coefficients, clothing and air speed of a step'])
p('C06','Air moved between rooms carries heat and moisture consistently',
 'Air supplied to a room from another room brings in heat and moisture at the state of the room it comes from and displaces the same amount of air at the state of the receiving room, so rooms in a uniform state exchange nothing. Declared flows reach the balance as given, converted from m3/h to m3/s, with several paths from the same room added up.',
 ['inputs','configurations'],'every list of inter-room air paths between any number of rooms',
 'The only tests with inter-room air compare numbers produced by the program itself.',
 [CORE+'sequence.py',INI+'initializer.py'],[('inter-room terms of the balances',CORE+'sequence.py run_tick'),('flow matrix',INI+'initializer.py')],(),['new room temperature and humidity'])
p('C07','Moisture balance of every room and its furniture closes in every step',
 'In every time step and for every room, the water stored in the room air between old and new humidity equals the exchange with outdoor air, plus generated and occupant moisture, plus the exchange with the furniture at its new humidity, minus the water removed by the air conditioner; the furniture humidity satisfies its own exchange balance, and the reported latent load is the removed water times the heat of evaporation (negative when dehumidifying).',
 ['inputs','configurations','histories'],'every number of rooms, every capacity, conductance, flow and previous state',
 'One humidity number of one building is compared.',
 [CORE+'sequence.py',CORE+'heat_exchanger.py',EXT+'global_number.py'],[('humidity solution',CORE+'sequence.py run_tick')],[('humidity state','room and furniture humidity',CORE+'conditions.py')],['humidity and latent load of a step'])
p('C08','The air conditioner dehumidifies only when cooling and only moist air',
 'Water is removed only from rooms with a convective cooling load whose undehumidified humidity exceeds the saturation humidity at the coil, and then at the rate of the air flow not bypassing the coil (bypass factor 0.2) times the excess over that saturation humidity; the coil temperature is the room temperature minus the load per heat capacity of that air flow. The air flow interpolates linearly between minimum and maximum with the load between minimum and maximum capacity and never leaves that interval.',
 ['inputs','configurations'],'every load, room state and equipment specification of any number of rooms',
 'No test covers the coil model.',
 [CORE+'heat_exchanger.py',EXT+'psychrometrics.py',EXT+'global_number.py'],[('coil coefficients',CORE+'heat_exchanger.py')],(),['dehumidification coefficients of a step'])
p('C09','Wall response factors conserve heat in the steady state',
 'For every layered construction the response factors summed over all time give the steady state: the through-response sums to one, the absorbed-heat response sums to the resistance from the inner surface to the outside (to the deep ground for ground walls), and a wall without heat capacity (window, door) answers instantly with the resistance implied by its U value and inside film resistance. Asking for the factors repeatedly, or in another order, gives the same answer.',
 ['inputs','configurations','histories'],'every layer list with positive resistances and non-negative capacities, any outside film, any U value, any number of queries',
 'Reference numbers exist for two constructions queried once.',
 [INI+'response_factor.py',CORE+'pre_calc_parameters.py'],[('factor fitting',INI+'response_factor.py')],(),['response factors of a construction'])
p('C10','Ground temperatures spin up by their own response balance',
 'In the ground spin-up every ground surface exchanges heat with the outdoor air of the step through its inside surface coefficient, and its temperature equals the annual mean outdoor temperature plus its absorbed-heat response to the present flow plus the decaying response to all earlier flows. The state it ends with is handed to exactly the ground boundaries of the building, leaving all other boundaries at their initial state.',
 ['inputs','histories'],'every ground response, weather series and number of ground boundaries, at any position among the boundaries',
 'The tests have one ground-wall arrangement or none, and look at room temperature only.',
 [CORE+'sequence_ground.py',CORE+'conditions.py',CORE+'core.py',CORE+'pre_calc_parameters.py'],[('ground step',CORE+'sequence_ground.py'),('hand-over',CORE+'conditions.py')],[('ground state','flow and response components',CORE+'conditions.py GroundConditions')],['ground state after a step'])
p('C11','Steps run in calendar order and every result lands on its own time',
 'A run spins up the ground, then the building, over whole days ending exactly at the start of the year, then runs the main period once per step in order, each step starting from the state of the step before, and records only the main period. The results of a step are recorded in the row of that step, and every recorded or exported quantity belongs to the room or boundary it is labelled with.',
 ['configurations','histories'],'every combination of main, run-up and building run-up days, time intervals, rooms and boundaries',
 'Tests run one fixed period and look at two cells of the output.',
 [CORE+'core.py',CORE+'period.py',CORE+'log.py',CORE+'sequence.py'],[('loops',CORE+'core.py'),('step counts',CORE+'period.py'),('records',CORE+'log.py')],[('log','recorded series',CORE+'log.py Logger')],['output tables'])
p('C12','Sunshine on an inclined surface follows the geometry of sun and surface',
 'For every orientation and sun position the cosine of incidence is that of the angle between the sun direction and the surface normal, and zero when the sun is below the horizon or behind the surface; direct, sky-diffuse and ground-reflected radiation on the surface are the direct normal radiation times that cosine, the sky radiation times the sky view factor, and one tenth of the horizontal global radiation times the ground view factor, never negative. Sky and ground view factors are (1+cos tilt)/2 and its complement and sum to one, the night-sky radiation loss scales with the sky view factor, and the named directions have their compass azimuths and tilts.',
 ['inputs','configurations'],'every sun altitude and azimuth, every direction, every non-negative radiation and series length',
 'No test covers the inclined-surface module; edge cases (sun behind, zenith, exact facing) never occur in a sample.',
 [INI+'inclined_surface_solar_radiation.py',INI+'external_boundaries_direction.py'],[('incidence and radiation',INI+'inclined_surface_solar_radiation.py')],(),['radiation on a surface'])
p('C13','Each kind of boundary sees the right outdoor equivalent temperature',
 'The equivalent outdoor temperature of a sunlit opaque or layered boundary is the outdoor temperature plus the direct, sky and ground-reflected radiation on its surface times the solar absorptance, minus the night-sky loss times the emissivity, all times the outside film resistance; of a sunlit glazed boundary only the night-sky term applies; of boundaries not struck by the sun it is the outdoor temperature. Boundaries inside the building get zero and ground boundaries the annual mean outdoor temperature.',
 ['inputs','configurations'],'every boundary kind, direction, surface property, shading and weather series',
 'The tests check room temperatures of one building only.',
 [INI+'outside_eqv_temp.py',INI+'solar_shading.py'],[('kind dispatch',INI+'outside_eqv_temp.py')],(),['equivalent temperature series'])
p('C14','Shading fractions are geometric, bounded and monotone',
 'The shaded fraction of direct sunshine by an eave or recess equals the geometric shadow of the sun position, lies between zero and one, does not decrease when the eave gets deeper or the distance below it shrinks, and the sky shading lies between zero and one and vanishes for zero depth. A boundary declared without shading device is not shaded at all.',
 ['inputs','configurations'],'every eave geometry, direction and sun position',
 'No test covers shading.',
 [INI+'solar_shading.py'],[('shading models',INI+'solar_shading.py')],(),['shaded fractions'])
p('C15','Solar heat entering through glazing follows its angular characteristic',
 'The transmitted heat of a sunlit glazed boundary is its area times its solar heat gain coefficient times the unshaded direct radiation with the incidence-angle characteristic of its glazing, plus the unshaded sky and reflected radiation with the diffuse characteristic, and zero for every other boundary. The characteristics are those of single or multiple glazing, one at normal incidence (to 0.001), zero when no direct sun arrives, and never negative, so transmitted heat is never negative or undefined.',
 ['inputs','configurations'],'every boundary, glazing kind, sun position and radiation series',
 'No unit test covers transmission.',
 [INI+'transmission_solar_radiation.py',INI+'oblique_incidence_charac.py'],[('transmission',INI+'transmission_solar_radiation.py')],(),['transmitted heat series'])
p('C16','Sunshine entering a room is absorbed completely, once',
 'Of the solar heat transmitted into a room exactly half is absorbed by its furniture and the other half by the sun-absorbing surfaces of the same room in proportion to their area, so that the absorbed heat adds up to the transmitted heat of that room and nothing appears in other rooms. The transmitted heat of a room is the sum over the glazed boundaries connected to it.',
 ['inputs','configurations'],'every assignment of boundaries to rooms, areas, absorbing flags and transmitted series',
 'The tests contain one arrangement and do not look at absorbed heat.',
 [CORE+'pre_calc_parameters.py',INI+'initializer.py'],[('distribution',CORE+'pre_calc_parameters.py'),('room totals',INI+'initializer.py')],(),['absorbed heat of surfaces and furniture'])
p('C17','Radiative weights of surfaces are a partition per room and order-free',
 'For each room the long-wave weights of its surfaces, the weights of its surfaces as seen by the occupant (floors together 0.45, the rest 0.55 by area), and the shares of radiant floor heating (by floor area) each add up to one and are zero for surfaces of other rooms. The radiative coefficient of a surface depends only on the surfaces of its own room (the small-sphere model with mean temperature 20 degrees C), not on the order in which boundaries are listed.',
 ['inputs','configurations'],'every set of areas and every assignment and order of boundaries over rooms',
 'One test checks three fixed area sets listed room by room.',
 [CORE+'shape_factor.py',CORE+'pre_calc_parameters.py',INI+'occupants_form_factor.py',INI+'a12_indoor_radiative_heat_transfer.py',INI+'initializer.py'],
 [('view factors',CORE+'shape_factor.py'),('occupant weights',INI+'occupants_form_factor.py'),('floor heating shares',INI+'a12_indoor_radiative_heat_transfer.py')],(),['weights and coefficients'])
p('C18','Weather series keep the hourly data and convert units consistently',
 'For every region and supported interval the series has one value per interval of the year, equals the hourly record at each full hour, interpolates linearly between consecutive hours and wraps from the last hour to the first. Humidity is converted from g/kg to kg/kg, every exported column holds the quantity and region it is named after, and altitude and azimuth come from the location of that region.',
 ['inputs','configurations'],'every region, interval and record value',
 'Tests compare sampled cells of bundled files at two intervals.',
 [WEA+'weather.py',WEA+'weather_data.py',WEA+'calc_interval.py',WEA+'region_location.py'],[('interpolation',WEA+'weather_data.py'),('export',WEA+'weather.py')],(),['weather table'])
p('C19','The computed sun position is a physical direction for every instant',
 'For every location, day and time the sun altitude satisfies the spherical relation of latitude, declination and hour angle, altitude and azimuth together describe the unit sun direction of that instant (east before noon, west after noon; the azimuth is undefined where the sun stands in the zenith), and the altitude is negative exactly while the sun is below the horizon. Hour angle advances 15 degrees per hour of true solar time, with the equation of time and the longitude difference to the standard meridian.',
 ['inputs'],'every latitude, longitude, day number and interval',
 'Tests compare sampled instants at one location.',
 [WEA+'solar_position.py',WEA+'calc_interval.py'],[('sun position',WEA+'solar_position.py')],(),['altitude and azimuth series'])
p('C20','Schedules give every room its own quantity on every day of the year',
 'Every room gets, for each quarter hour of the year and for its own room use, the appliance, lighting and cooking heat, the cooking moisture, the local ventilation, the number of people and the air-conditioning demand that the household schedule prescribes for the weekday or holiday of the calendar, in W, kg/s, m3/s, persons and 0 to 1. A household whose size lies between two tabulated sizes gets their linear interpolation, tabulated sizes get their own values, and the size follows the floor area.',
 ['inputs','configurations'],'every number of residents, room list, floor area, schedule and calendar',
 'The single full run checks one room temperature.',
 [INI+'schedule_loader.py',INI+'initializer.py'],[('schedule lookup and interpolation',INI+'schedule_loader.py')],(),['room series'])
p('C21','Occupant heat and moisture add up to the metabolic rate',
 'Each person gives off 119 W in total at every room temperature: sensible heat is 63 W at 24 degrees C, falls linearly by 4 W per kelvin and never exceeds the total, and the moisture given off times the heat of evaporation makes up the rest. Room totals scale with the number of persons present in that room.',
 ['inputs'],'every room temperature, number of rooms and persons',
 'No test covers the occupant module.',
 [CORE+'occupants.py',CORE+'sequence.py',EXT+'global_number.py'],[('per-person heat and moisture',CORE+'occupants.py')],(),['per person heat and moisture'])
p('C22','Infiltration follows the building tightness and is shared by volume',
 'The infiltration rate of the building follows the stack-effect air-change formula of its equivalent leakage area, storeys and inside pressure for the volume-weighted mean room temperature against the outdoor temperature, is never negative, and is split over the rooms in proportion to volume. Unknown calculation methods or pressure kinds are rejected.',
 ['inputs','configurations'],'every volume list, room temperatures, outdoor temperature, tightness, storeys, pressure kind and estimation data',
 'No test covers infiltration.',
 [CORE+'infiltration.py',INI+'estimate_c_value.py'],[('air change',CORE+'infiltration.py')],(),['leakage flows'])
p('C23','Moist-air relations are mutually consistent',
 'Conversions between humidity ratio and vapour pressure are those of air at standard pressure and invert each other (up to the rounding of the molar mass ratio), scalar and vector forms agree, and saturation pressure follows the Wexler-Hyland formulas over ice below and over water above freezing, positive and increasing with temperature. Equipment capacity and air-flow estimates grow with the floor area by their stated formulas.',
 ['inputs'],'every temperature, humidity and floor area',
 'No test covers the psychrometric module.',
 [EXT+'psychrometrics.py',EXT+'rac.py',EXT+'global_number.py'],[('conversions',EXT+'psychrometrics.py'),('equipment estimates',EXT+'rac.py')],(),['converted values'])
p('C24','The house description reaches the calculation unchanged',
 'For every valid house description each room and boundary of the prepared calculation data carries the volume, ventilation, equipment, area, coefficients, layers and U value of its own description entry in the expected unit, in the same order. Rooms get their furniture heat and moisture capacities by volume, natural ventilation by air changes, and boundaries with a temperature-difference coefficient split their rear temperature into that share outdoors and the remaining share of themselves; internal boundaries see exactly the boundary behind them.',
 ['inputs','configurations'],'every valid description: any number of rooms and boundaries, every boundary kind and every equipment kind',
 'One description is run end to end.',
 [INI+'initializer.py',INI+'boundary_simple.py',INI+'furniture.py',INI+'a22_radiative_heating_spec.py',CORE+'pre_calc_parameters.py'],[('preparation',INI+'initializer.py'),('reading back',CORE+'pre_calc_parameters.py')],(),['prepared data'])
p('C25','Splitting an envelope over rooms conserves area, length and attributes',
 'When the parts of an envelope are divided over the main, other and non-occupied spaces, every part keeps its kind, direction, adjacent space, specification and shading, the areas (or lengths) of its pieces are in the ratio of the space floor areas, add up to the original, and underfloor parts stay whole in the underfloor space. Partition floors and walls generated between spaces have non-negative areas that follow from the floor areas of the spaces they separate. The spaces made for these floor areas have the volumes of their floors; the outdoor air of the whole house is shared by the occupied spaces in the ratio of their floors and all of it goes on to the unoccupied space; a house without a main space is rejected.',
 ['inputs','configurations'],'every floor-area split and every list of parts of every kind',
 'Tests use single-part lists with fixed numbers.',
 [CON+'convert_lv2_to_lv3.py',CON+'convert_lv3_to_lv4.py',CON+'convert_lv4_to_h_hlc.py'],[('division',CON+'convert_lv2_to_lv3.py'),('partitions',CON+'convert_lv3_to_lv4.py')],(),['parts per space'])
p('C26','Envelope heat-loss and solar-gain totals are the sums of their parts',
 'The heat loss of a part of an envelope is its U value times area (linear transmittance times length for ground-floor edges and heat bridges) times the temperature-difference coefficient of the space behind it in the region, its solar gain in a season the solar gain coefficient times area times direction and shading coefficients. The average coefficients of an envelope of general parts, windows, doors and ground-floor edges are the sums of these over all parts, divided by the total area. When part values are derived from a target average, the derived set reproduces the target heat loss, no part exceeds its physical limit, and the derived solar coefficients reproduce the target gain.',
 ['inputs','configurations'],'every list of parts, region, season and feasible target',
 'Tests compare fixed houses at fixed targets.',
 [CON+'check_ua_a_eta_a.py',CON+'ees_house.py',CON+'get_u_psi_eta_from_u_a_and_eta_a.py',EXT+'factor_h.py',EXT+'factor_nu.py'],[('sums',CON+'ees_house.py'),('inverse',CON+'get_u_psi_eta_from_u_a_and_eta_a.py')],(),['totals and derived values'])
p('C27','House descriptions survive conversion to data and back',
 'Every part of a house model (general parts, windows, doors, ground-floor edges and centres, bridges, inner floors and walls, their specifications and shading) written as plain data and read back is the same part with the same attributes and the same computed U value and solar gain. Kinds, adjacent spaces, directions, specification forms and shading forms that are not defined are rejected rather than guessed (the adjoining rooms of ground-floor centres and of inner floors and walls are free names).',
 ['inputs','configurations'],'every combination of kinds, specification forms and numeric attributes',
 'Tests convert a few hand-written parts in one direction.',
 [CON+'ees_house.py',CON+'factor_f.py'],[('to and from plain data',CON+'ees_house.py')],(),['plain data'])
p('C28','Model-house geometry is consistent with the floor areas and ratios given',
 'The geometry generated from a floor area, an opening ratio and envelope figures is closed: storey areas add up to the total floor area, each storey is a rectangle of its area and perimeter, ground floor, roof, foundations and sides add up to the envelope, the wall, window and door areas of each side fill it, and the total envelope area equals the one given when it is not smaller than that of the compact plan (which is used otherwise). The parts made of the geometry take up every area and edge, face the right way, and openings, foundations or edges where a kind of house has none are rejected, as are unknown kinds of house or insulation. In houses of ordinary size and openings no generated area or length is negative.',
 ['inputs','configurations'],'every floor area, opening ratio, house kind, insulation place and envelope area',
 'Tests compare a few fixed houses.',
 [CON+'model_house.py'],[('shape',CON+'model_house.py')],(),['areas and lengths'])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
