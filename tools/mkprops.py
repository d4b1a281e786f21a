import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('C01','Precipitation disaggregation conserves every daily total',
 "For every daily precipitation series and every method (equal; cascade with any valid statistics, hourly or 5-minute, one season or several; master station with the uniform zero rule), the sub-daily values of each day with a recorded total are non-negative and add up to that day's total. A dry day stays entirely dry, and a day whose total is missing comes out entirely missing. Asking for a shift moves the whole cascade series by that many steps in time (across season limits; nothing moves over absent days other than by its time stamp) and changes nothing else.",
 ['inputs','configurations'],
 "all daily series (length >= 2 for the cascade, any gaps, zeros, tiny and large totals), all cascade statistics whose probabilities are valid, all resolutions/levels, all season splits in which a season has at least two days in the record",
 "The existing tests disaggregate one year of one station with one calibrated statistics object; they never use several seasons, gaps in the index, shift, 5-minute levels 10/11, level-wise statistics, or the master station.",
 ['melodist/precipitation.py','melodist/station.py','melodist/util/util.py'],
 [('branching writes v into two halves that add up to v','melodist/precipitation.py: disagg_prec_cascade'),('0.75 h to 1 h regrouping by cumulative sums','melodist/precipitation.py: disagg_prec_cascade'),('season loop','melodist/station.py: Station.disaggregate_precipitation'),('equal distribution divided by 24','melodist/util/util.py: distribute_equally')],
 ['Station.disaggregate_precipitation','melodist.disagg_prec','melodist.disagg_prec_cascade','melodist.precip_master_station'])

p('C02','Cascade branching obeys the supplied statistics',
 "At every cascade level, a wet box is split only as the supplied statistics allow for its position class (starting, enclosed, ending or isolated, judged from whether its neighbours at that level are wet) and its intensity class (above, or not above, that level's threshold): all rain in the second half, all in the first half, or shared with a weight at the centre of one of the seven weight classes, with the stated probabilities. A single statistics object supplies branching probabilities for all levels and one threshold per level; a list supplies complete statistics per level, its last element being the one for the coarsest split. A station with statistics per season applies to each day those of the season that contains its month. A statistics list of the wrong length, a statistics argument of the wrong type and a series of fewer than two days are rejected with an error.",
 ['inputs','configurations'],
 "all daily series, all valid statistics (including ones that make the branching deterministic), hourly and 5-minute levels 9-11",
 "Tests only compare daily sums after one random draw; which statistic is used for which box, class and level is never observed.",
 ['melodist/precipitation.py','melodist/cascade.py'],
 [('box type and intensity class selection, random branching','melodist/precipitation.py: disagg_prec_cascade')],
 ['melodist.disagg_prec_cascade'])

p('C03','Cascade calibration yields the empirical branching statistics',
 "Statistics calibrated from a precipitation record are, for every season and aggregation level, the relative frequencies of 0/1, 1/0 and x/x branching and of the seven weight classes per position class and intensity class, with the requested percentile of wet boxes as threshold; missing records count as dry. Branching probabilities always add up to one and weight probabilities always add up to one (classes never observed, and seasons without rain, fall back to documented defaults), averaged statistics weight the levels by their number of boxes, and without averaging one statistics object per level is returned. Calibration never changes the record it is given.",
 ['inputs','configurations'],
 "all hourly or 5-minute records, dry seasons and any missing values included, any percentile, any list of seasons, averaged or not",
 "The tests calibrate once on one record and never look at the resulting numbers.",
 ['melodist/precipitation.py','melodist/cascade.py','melodist/stationstatistics.py'],
 [('pairwise aggregation, box types, counts','melodist/precipitation.py: aggregate_precipitation'),('season selection, level weighting','melodist/precipitation.py: build_casc, seasonal_subset'),('statistics arithmetic','melodist/cascade.py: CascadeStatistics')],
 ['melodist.build_casc','melodist.aggregate_precipitation','melodist.seasonal_subset','StationStatistics.calc_precipitation_stats'])

p('C04','Master-station precipitation follows the mass curve of the master',
 "With the master station method every hour of a day receives the day's total times the share of the master's daily total that fell in that hour. On days where the master recorded no rain the total is spread uniformly over 24 hours when the zero rule is 'uniform', and the day gets no rain for any other zero rule. Scaling the master's record by a positive factor changes nothing.",
 ['inputs'],
 "all daily series and all hourly master records covering those days (any start hour offset of the record, longer than the daily series, dry days, missing days in the daily series)",
 "No test reaches the master station method.",
 ['melodist/precipitation.py','melodist/station.py'],
 [('relative hourly shares','melodist/precipitation.py: precip_master_station')],
 ['Station.disaggregate_precipitation(method="masterstation")','melodist.precip_master_station','melodist.disagg_prec(method="masterstation")'])

p('C05','Sine temperature methods preserve what they promise',
 "Outside polar night, for every day with complete data, the min/max sine methods reach exactly the daily maximum at the hour of maximum and exactly the daily minimum at the hour of the minimum of the curve, and every hour lies between the lower of the minima and the higher of the maxima of that day and the day the curve is heading to or coming from; the mean-preserving sine method reproduces the daily mean and the diurnal range exactly. The maximum falls at 14 h (fixed), two hours after the rounded solar noon, or at solar noon plus the calibrated monthly shift rounded to the hour, falling back to two hours after noon if that would precede sunrise; the minimum hour is 7 h or the rounded sunrise (midnight if the sun rises before midnight). The night-time modification joins maximum and next minimum by one half cosine wave and rises from minimum to maximum in between, still reaching both values.",
 ['inputs','configurations'],
 "all daily records with tmin <= temp <= tmax, all locations with |latitude| < 60 and ordinary time zones, all combinations of method, time-of-extremes option and night-time option",
 "Tests run one station, one year, with the fixed option only, and check means with a tolerance of 2 K.",
 ['melodist/temperature.py','melodist/station.py'],
 [('cosine fit with neighbouring days','melodist/temperature.py: disaggregate_temperature')],
 ['Station.disaggregate_temperature','melodist.disaggregate_temperature'])

p('C06','Mean-course temperature methods preserve what they promise',
 "With a normalised mean diurnal course per month, the min/max variant reproduces the daily minimum and maximum of every day exactly, and the mean variant reproduces the daily mean and the diurnal range exactly. Within each day the hourly values are an increasing linear function of that month's course, so the shape of the course is kept. The result for a day depends on that day's values and month only.",
 ['inputs','configurations'],
 "all daily records, all mean courses normalised to 0..1 per month, records crossing months and years",
 "Tests use one calibrated course and one year.",
 ['melodist/temperature.py','melodist/stationstatistics.py'],
 [('course lookup by month and hour, scaling','melodist/temperature.py: disaggregate_temperature (mean_course branches)')],
 ['Station.disaggregate_temperature','melodist.disaggregate_temperature'])

p('C07','Polar-night temperature is a gap-free piecewise linear course',
 "On days with less than three hours of daylight, sine temperature disaggregation gives the daily minimum and maximum at 06 and 18 h (in this order if the mean of the extremes is not lower than the day before, otherwise in reverse order) and linear interpolation in time between consecutive such points. On the last normal day before a polar period the curve runs linearly from the maximum hour on, and on the first normal day after it the curve runs linearly up to the minimum hour, where the minimum is reached; all other normal days are unaffected. For records without missing days no hour is left missing, except hours before the first 06 h value when the record itself starts in polar night.",
 ['inputs','configurations'],
 "all daily records without missing values at latitudes that have polar night, in both hemispheres, starting or ending inside, before or after the polar period, with one or several polar periods",
 "No test uses a station with polar night; the code path is never executed by the suite.",
 ['melodist/temperature.py','melodist/util/util.py'],
 [('polar-night override and transition days','melodist/temperature.py: disaggregate_temperature (polars)')],
 ['Station.disaggregate_temperature','melodist.disaggregate_temperature'])

p('C08','Sun times are astronomically consistent everywhere on earth',
 "For every date, location and time zone, solar noon, sunrise, sunset and day length follow the declination and equation-of-time formulas of Bourges (1985) and Spencer (1971): without wrap-around sunrise and sunset lie symmetrically about solar noon and are day length apart, all values are finite, and sunrise is reported as not negative and sunset as not above 24. Day length is 24 h under midnight sun and 0 h in polar night and between 0 and 24 h otherwise, longer than 12 h in the summer hemisphere. Moving the station one degree east makes solar noon four minutes earlier and adding one hour to the time zone makes it one hour later.",
 ['inputs'],
 "all dates (leap years included), latitudes -90..90, longitudes -180..180, whole and fractional time zones matching the longitude",
 "Tests only use one location implicitly and never check sun times.",
 ['melodist/util/util.py','melodist/station.py'],
 [('solar geometry','melodist/util/util.py: get_sun_times')],
 ['melodist.util.get_sun_times','Station.sun_times'])

p('C09','Potential radiation is finite, non-negative and follows the sun',
 "For every time and place potential radiation is finite, non-negative, zero whenever the sun is below the horizon of flat terrain, and follows the clear-sky formulas of Liston and Elder (2006) with the eccentricity correction, for any cloud fraction between 0 and 1 and any terrain slope. The split result adds up to the total; on flat terrain the aspect has no influence and the diffuse part vanishes without clouds. Times given to the minute are honoured, and the result for one time does not depend on which other times are requested.",
 ['inputs','configurations'],
 "all date vectors, latitudes -90..90 (poles and tropics included), longitudes, time zones, cloud fractions, slopes and aspects",
 "Tests only see it indirectly through one station's daily means, with default slope and no clouds.",
 ['melodist/radiation.py'],
 [('solar geometry and transmissivities','melodist/radiation.py: potential_radiation')],
 ['melodist.potential_radiation'])

p('C10','Radiation disaggregation reproduces the daily mean in the right shape',
 "Hourly radiation is never negative, is proportional within a day to the potential radiation (or to the month's mean course), and its daily mean equals, up to the suppression of values below 0.01 W/m2, the given daily mean (potential radiation and mean course methods) or the daily mean estimated from sunshine duration or from the temperature range with the station's monthly parameters. A day whose daily mean is zero, in particular a polar night day, is zero throughout; a day whose daily input is missing is missing throughout. Other days are not influenced by such days.",
 ['inputs','configurations'],
 "all daily records, all locations including polar ones, all four methods, internally computed or supplied potential radiation, any monthly model parameters",
 "Tests check one mid-latitude year and never the sunshine method, polar night, monthly parameters or supplied potential radiation.",
 ['melodist/radiation.py','melodist/station.py'],
 [('scaling of hourly potential radiation','melodist/radiation.py: disaggregate_radiation'),('parameter hand-over','melodist/station.py: Station.disaggregate_radiation')],
 ['Station.disaggregate_radiation','melodist.disaggregate_radiation'])

p('C11','Radiation models and their calibration are consistent',
 "The Angstroem estimate is (a + b * sunshine/day length) times potential radiation and the Bristow-Campbell estimate is A*(1-exp(-B*dT^C)) times potential radiation with dT formed from the day's maximum and the mean of its own and the next day's minimum and B from the calendar-month mean of dT, with parameters taken per month when given per month. Fitted Angstroem parameters are the least-squares solution and fitted Bristow-Campbell parameters never have a larger absolute bias than the defaults. Radiation calibration stores, for every month, the parameters fitted on that month's period (all, seasonal or monthly) for both models, and the observed mean course.",
 ['inputs','configurations'],
 "all daily records covering every month used, all parameter values, all calibration periods, with missing days",
 "Tests never fit either model and never use seasonal or monthly calibration.",
 ['melodist/radiation.py','melodist/stationstatistics.py'],
 [('models and fits','melodist/radiation.py: angstroem, bristow_campbell, fit_angstroem_params, fit_bristow_campbell_params'),('period loop','melodist/stationstatistics.py: calc_radiation_stats')],
 ['melodist.angstroem','melodist.bristow_campbell','melodist.fit_angstroem_params','melodist.fit_bristow_campbell_params','StationStatistics.calc_radiation_stats'])

p('C12','Humidity disaggregation stays physical and follows its method',
 "Hourly relative humidity always lies in 0..100 % and, before limiting to that range, equals what its method prescribes: the daily mean; the ratio of saturation vapour pressures at dew point and air temperature with the dew point equal to the daily minimum, to its calibrated linear function, or additionally varying linearly to the next day's value plus the diurnal sine wave; the linear map of temperature between the daily extremes onto the humidity extremes; or the categorical mean for month, hour and wet or dry day. When the daily mean is to be preserved, every day whose corrected values need no limiting has exactly the observed daily mean, and days without an observed mean are left as they were. Missing daily inputs leave only their own hours (and, for the linear dew point variation, the preceding day's) missing.",
 ['inputs','configurations'],
 "all daily records with tmin < tmax, all hourly temperature courses for the same days, all methods and parameters (kr 6 or 12), with and without preservation of the daily mean",
 "Tests only check that one year's values are in range, and exact values for the equal method only; preservation of the daily mean is not tested at all.",
 ['melodist/humidity.py','melodist/station.py','melodist/util/util.py'],
 [('method formulas, bias correction, clipping','melodist/humidity.py: disaggregate_humidity')],
 ['Station.disaggregate_humidity','melodist.disaggregate_humidity'])

p('C13','Humidity calibration and vapour pressure formulas are exact',
 "Vapour pressure follows the Sonntag (1990) formulas over water at or above 273.15 K and over ice below, is proportional to relative humidity and increases with temperature, and dew point is its inverse: it equals the temperature at saturation, never exceeds it and increases with humidity. The calibrated dew point regression is the least-squares line of daily mean dew point on daily minimum temperature over the days where both exist. The calibrated categorical means are the averages of observed humidity per month, hour and wet or dry day, where a day is wet if any rain was recorded on it.",
 ['inputs'],
 "all temperatures 200..330 K (the freezing point included) and humidities 1..100 %, scalar or elementwise; all hourly records with any missing values",
 "Tests only pass one record through the calibration and check ranges of the final result.",
 ['melodist/util/util.py','melodist/humidity.py','melodist/stationstatistics.py'],
 [('formulas','melodist/util/util.py: vapor_pressure, dewpoint_temperature, linregress'),('calibration','melodist/humidity.py: calculate_dewpoint_regression, calculate_month_hour_precip_mean')],
 ['melodist.util.vapor_pressure','melodist.util.dewpoint_temperature','melodist.calculate_dewpoint_regression','melodist.calculate_month_hour_precip_mean','StationStatistics.calc_humidity_stats'])

p('C14','Wind disaggregation follows its method and its calibration',
 "The equal method repeats the daily mean for all 24 hours, the cosine method gives a*w*cos(pi*(hour-t)/12)+b*w for daily mean w (so the daily mean is b*w), and the random method gives independent non-negative values that are the daily mean times (-ln u)^0.3 with u uniform on 0..1. Calibrating the cosine on a record that follows such a course reproduces that course, and in general yields the least-squares fit; calibration ignores missing records. Missing days stay missing and do not influence other days.",
 ['inputs','configurations'],
 "all daily wind records, all parameter values, all hourly calibration records including ones with missing values",
 "Tests check non-negativity for one record and the daily mean of the equal method only.",
 ['melodist/wind.py','melodist/station.py','melodist/stationstatistics.py'],
 [('formulas and curve fit','melodist/wind.py: disaggregate_wind, fit_cosine_function')],
 ['Station.disaggregate_wind','melodist.disaggregate_wind','melodist.fit_cosine_function','StationStatistics.calc_wind_stats'])

p('C15','Temperature calibration equals the observed diurnal features',
 "The calibrated mean diurnal course holds, for every month of the record and every hour, the average of all observed values of that month and hour, normalised per month to the range 0..1 when requested (always for temperature statistics). The calibrated shift holds, for every month, the average over that month's days of the hour of the observed daily maximum minus solar noon; days without any observation are ignored. Neither depends on the order of years or on other variables.",
 ['inputs'],
 "all hourly temperature records with missing hours and missing days, covering any set of months, any location",
 "Tests calibrate once and only use the result.",
 ['melodist/util/util.py','melodist/temperature.py','melodist/stationstatistics.py'],
 [('grouping by month and hour','melodist/util/util.py: calculate_mean_daily_course_by_month'),('hour of maximum against solar noon','melodist/temperature.py: get_shift_by_data')],
 ['melodist.util.calculate_mean_daily_course_by_month','melodist.get_shift_by_data','StationStatistics.calc_temperature_stats'])

p('C16','Station statistics survive the JSON round trip',
 "Saving station statistics to JSON and loading them again restores every calibrated quantity to at least nine decimals, in the same order and with usable labels, for any combination of calibrated and not yet calibrated variables, any set of seasons, averaged or level-wise precipitation statistics, and records covering any set of months. Disaggregation with the loaded statistics gives the same result as with the original. Saving to a file and to a string give the same text, a second round trip changes nothing, and saving leaves the statistics object unchanged.",
 ['inputs','histories'],
 "all statistics objects reachable by calling any subset of the calibration functions on any hourly record",
 "The test does one round trip for one fully calibrated twelve-month record.",
 ['melodist/stationstatistics.py','melodist/cascade.py','melodist/util/bunch.py'],
 [('encoder and decoder','melodist/stationstatistics.py: to_json, from_json'),('cascade statistics from dict','melodist/cascade.py: CascadeStatistics.from_dict')],
 ['StationStatistics.to_json','StationStatistics.from_json'])

p('C17','SMET files round-trip time series and header',
 "Writing a time series to a SMET file and reading it in the same mode (hourly or daily) restores all time stamps, every variable under its own name with its own values to two decimals, and missing values as missing; header entries are restored as text. Variables without any value are left out when requested (the default) and kept as missing otherwise, and on reading the file's unit multipliers and offsets (both optional) are applied and its own nodata value counts as missing. Writing does not change the data frame it is given.",
 ['inputs','configurations'],
 "all hourly and daily frames with any subset of the variables (and other columns), missing values, any magnitude, any header entries",
 "No test touches SMET files.",
 ['melodist/data_io.py'],
 [('name mapping, header and table formatting','melodist/data_io.py: write_smet, read_smet')],
 ['melodist.write_smet','melodist.read_smet'])

p('C18','KNMI and DWD files are read completely and in the right units',
 "Every record of a KNMI hourly file is returned at its date plus its hour number (hour 24 being midnight of the next day), converted to K, mm, W/m2, %, m/s and minutes, with the 'trace' marker (-1) of precipitation and of sunshine duration as 0 and blank fields as missing; a directory of files is read completely, whatever the order or number of the files. Every record of a DWD daily or hourly file is returned at its time stamp with known variables renamed, temperatures in K, -999 as missing and unknown columns dropped; only the trailing end-of-file line is skipped, and only when asked for. Several DWD files for one station are merged by time stamp without losing records.",
 ['inputs'],
 "all files in the respective layouts with any records, missing fields and column subsets",
 "No test touches these readers.",
 ['melodist/data_io.py'],
 [('parsers','melodist/data_io.py: read_single_knmi_file, read_knmi_dataset, read_dwd')],
 ['melodist.read_single_knmi_file','melodist.read_knmi_dataset','melodist.read_dwd'])

p('C19','Daily aggregation is the inverse of equal distribution',
 "Aggregating an hourly record to daily values gives, for every day, the mean of temperature, radiation, humidity and wind speed, the minimum and maximum of temperature and humidity, the total of precipitation, and the sunshine duration in hours from minutes, each from that day's recorded hours only and only for variables that are present. Distributing a daily series equally and aggregating it again restores it, as means without division and as totals with division by 24. Missing days stay missing in distribution and never take over a neighbouring day's value.",
 ['inputs'],
 "all hourly records with any subset of variables and any missing hours or days, all daily series across month, year and leap-day boundaries",
 "Tests use it only to prepare data and check means for one year.",
 ['melodist/util/util.py'],
 [('resampling and grouping','melodist/util/util.py: daily_from_hourly'),('forward fill within the day','melodist/util/util.py: distribute_equally')],
 ['melodist.util.daily_from_hourly','melodist.distribute_equally'])

p('C20','Gap detection and trimming to full days are exact',
 "The number of gaps reported for a time series is exactly the number of consecutive time stamps whose distance differs from the given time step, whatever the printing options. Trimming an hourly record to full days removes exactly the leading records before the first day-start hour and the trailing records after the last day-end hour, so the result starts at the day-start hour and ends at the day-end hour or is empty, for any day-start hour from 0 to 23 (invalid ones count as 0). No other record is removed, altered or reordered.",
 ['inputs','configurations'],
 "all hourly and daily time series with any gaps, starting and ending at any hour, shorter or longer than a day, any time step, any day-start hour",
 "No test calls either function.",
 ['melodist/util/util.py'],
 [('difference loop','melodist/util/util.py: detect_gaps'),('head and tail scan','melodist/util/util.py: drop_incomplete_days')],
 ['melodist.util.detect_gaps','melodist.util.drop_incomplete_days'])

p('C21','Hourly results cover exactly the days of the daily record',
 "Assigning a daily record to a station yields a daily record with every calendar day from first to last (values unchanged, absent days missing) and hourly results with exactly the hours 0 to 23 of those days in order; functions called directly with a record that skips days return exactly 24 hours (288 steps at 5 minutes) for each day in it and none for the others. The values of a day are unaffected by adding, removing or changing data more than one day away (two days for the cascade), except where a method uses monthly averages (Bristow-Campbell, whose monthly averages include the next day's minimum). Absent days produce no values, other than those no daily value is needed for (zero radiation in polar night, and the categorical humidity of a dry day).",
 ['inputs','configurations'],
 "all daily records with any days absent, across month, year and leap-day boundaries, single days included, for all variables and deterministic methods",
 "Tests use one complete year and never a record with absent days.",
 ['melodist/util/util.py','melodist/station.py','melodist/precipitation.py'],
 [('index construction','melodist/util/util.py: hourly_index'),('sub-hourly index construction','melodist/precipitation.py: sub_level_index, fmin_index'),('reindexing of daily data','melodist/station.py: Station.data_daily')],
 ['Station.data_daily','Station.data_disagg','melodist.util.hourly_index','melodist.disagg_prec_cascade','melodist.fmin_index','melodist.sub_level_index'])

p('C22','A station depends on its current state only, never on its history',
 "After any sequence of setting metadata, daily data and statistics, calibrating, disaggregating variables in any order with any methods and copying stations, each disaggregation result equals that of a fresh station with the same daily data, location, statistics and (for humidity) disaggregated temperature. Disaggregating one variable changes no other variable, neither the daily data nor the statistics nor any data frame handed in by the user, changes the user later makes to such a frame do not reach the station, and calibrating one variable leaves the others' statistics and the observations alone. The statistics object of a station always has the station's location and time zone, and a deep copy is independent of its original.",
 ['histories'],
 "all sequences of public operations on one or two stations",
 "Tests perform one operation per fresh station (plus one copy test); order and interference effects need sequences.",
 ['melodist/station.py','melodist/stationstatistics.py','melodist/util/bunch.py'],
 [('property setters','melodist/station.py: Station'),('statistics container','melodist/util/bunch.py: Bunch')],
 ['Station','StationStatistics'],
 [('data_daily','private copy of the daily record','melodist/station.py'),('data_disagg','hourly results','melodist/station.py'),('statistics','calibrated parameters','melodist/stationstatistics.py')])

p('C23','Interpolation passes through the given observations',
 "Interpolating fixed-hour daily observations returns a series on the station's hourly index that equals each non-missing observation at its hour on its day. With the default linear method the hours between two consecutive observations lie on the straight line between them, hours before the first and after the last observation take the nearest value up to the given limit, and no value is produced further than the limit from an observation in either direction. Another method, limit, direction or further option gives what pandas' own interpolation gives for the hourly series of observations. The order in which the observation columns are listed does not matter.",
 ['inputs','configurations'],
 "all daily records with any number of fixed-hour columns, any hours, missing values and limits",
 "No test calls interpolation.",
 ['melodist/station.py','melodist/util/util.py'],
 [('placing observations on the hourly index','melodist/util/util.py: prepare_interpolation_data'),('pandas interpolation','melodist/station.py: Station.interpolate')],
 ['Station.interpolate'])

p('C24','Invalid requests are rejected without side effects',
 "An unknown disaggregation method, a method whose calibration is missing, a daily record that is not a time-indexed data frame in increasing order with daily resolution, daily minimum or maximum temperatures below 200 K, hourly calibration data that is not a time-indexed data frame of hourly resolution, and an unknown radiation calibration period are each rejected with an error. After a rejected request the station's daily data, results and statistics are what they were before. Valid requests of every documented method and option are accepted.",
 ['inputs','histories'],
 "all invalid method names and malformed records, on stations in any state",
 "Tests contain no negative case.",
 ['melodist/station.py','melodist/stationstatistics.py','melodist/temperature.py','melodist/humidity.py','melodist/wind.py','melodist/radiation.py','melodist/precipitation.py'],
 [('assertions and option checks','the functions named in files')],
 ['Station','StationStatistics','melodist.disaggregate_*','melodist.disagg_prec'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
