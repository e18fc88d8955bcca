"""Single source for properties.jsonl, MANIFEST.json and the table the checks use (python3 spec.py rewrites the files)."""
import json, os, subprocess

TECH = "symbolic execution of the crates' own functions (source lifted from f64 to symbolic reals), verification conditions decided by z3/cvc5"
NOTE = ("Every path of the lifted functions within the stated shapes and input ranges is decided by an SMT solver over the reals; "
        "counterexamples are replayed on the native f64 build before being reported. Floating-point rounding, overflow and anything outside the bounds is not covered. "
        "Trusted: the lifter, the symbolic runtime, z3, cvc5.")


def P(id, title, statement, text, why, files, mech, groups, bounds, kani=None, over=("inputs",), assume=(), tech=TECH):
    assert len(title) <= 80, (id, len(title))
    return dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, groups=groups,
                bounds=bounds, kani=kani, over=list(over), assume=list(assume), tech=tech)


ALL = [
    P("C01", "Calendar arithmetic moves dates by exactly the time given, on a 365-day year",
      "Advancing a valid date by any non-negative number of seconds, minutes, hours or days yields a valid date (existing month and day, hour at least 0 and below 24) exactly that much later on a 365-day year that wraps around at New Year. "
      "Turning a date into a (fractional) day of the year and back are inverse of each other, and the ordering, equality, difference and same-day test of dates agree with the time of the year. "
      "Interpolating between two dates lands that fraction of the way forward from the first to the second, through New Year if the second comes earlier in the year.",
      "every valid date and every non-negative amount within the bounds", "The tests try a handful of dates and steps; wrap-around happens at particular month ends, day counts and hours.",
      ["calendar/src/date.rs"], [("add_days / add_hours / day_of_year / from_day_of_year / Ord", "calendar/src/date.rs")], ["cal"],
      "hour symbolic in [0, 24); day: 1st, 15th and the last two days of every month (all days for day-of-year); amounts up to 60 h symbolic, days from a list of 19 counts up to 1000; day of the year symbolic over the whole year. Kani: add_days and ordering bit-precise for every date.",
      kani=("calk", ["calendar"], ["kani_add_days", "kani_order"])),
    P("C02", "A period contains and yields exactly the dates between its start and its end",
      "A period contains a date if and only if it lies between its start and its end (both included), going through New Year when the start comes later in the year than the end. "
      "Iterating it yields the dates start + 1 step, start + 2 steps, and so on, exactly while they remain inside the period, and then stops.",
      "every start, end, probe date and time step within the bounds", "The tests iterate a few periods with steps that divide the day.",
      ["calendar/src/period.rs", "calendar/src/date.rs"], [("Period::contains, Iterator for Period", "calendar/src/period.rs")], ["cal"],
      "hours symbolic, days from lists around month and year ends, step symbolic 60 s to 3 days, first 3 steps. Kani: contains bit-precise for every date.", over=("inputs", "histories"),
      kani=("calk", ["calendar"], ["kani_contains"])),
    P("M01", "Dense matrix operations compute what linear algebra says, for every size",
      "Sums, differences, scalings, products (including the shortcuts for banded matrices), identity, diagonal and filled matrices, row concatenation, comparison and element access agree element by element with their mathematical definition. "
      "Operations that return a result accept exactly the operand and destination sizes that match and refuse all others, leaving the operands unchanged.",
      "every matrix up to the bounded size, every element value", "Tests use fixed numbers and a few sizes.",
      ["matrix/src/generic_matrix.rs"], [("GenericMatrix operators and *_into methods", "matrix/src/generic_matrix.rs")], ["mx"],
      "sizes 1..3 in each dimension (all combinations for the size checks), elements symbolic in [-100, 100]"),
    P("M02", "The linear solvers return answers that satisfy the equations",
      "For a diagonally dominant banded system, the elimination solvers (copying and in-place, full storage and banded storage) return the vector that satisfies the system, and a zero in the diagonal is reported instead of producing an answer; whenever the iterative solver reports success the residual is within what its convergence bound implies, and it does report it once its answer stops changing. "
      "The banded-storage matrix keeps one value per element of the band, reads as zero outside it, refuses writes outside of it, and multiplies like the full matrix it stands for.",
      "every banded matrix within the bounded sizes and value ranges", "The tests solve a few fixed systems.",
      ["matrix/src/matrix.rs", "matrix/src/n_diag_generic_matrix.rs", "matrix/src/n_diag_matrix.rs"], [("mut_n_diag_gaussian, gauss_seidel", "matrix/src/matrix.rs"), ("NDiagMatrix", "matrix/src/n_diag_matrix.rs")], ["mx"],
      "solves: sizes 1..4 (diagonal), 2 and 3 (tridiagonal), 3 (pentadiagonal); diagonal in +-[50, 100], off-diagonals in +-[1e-6, 10] or zero; storage: bands 1, 3, 5 of shapes up to 4x4"),
    P("P01", "Polynomials evaluate to the sum of their terms",
      "A polynomial evaluates, for every argument, to the sum of each coefficient times the corresponding power of the argument, in the order in which the coefficients were given, and reports how many coefficients it has.",
      "every coefficient and argument, up to the bounded degree", "Tests evaluate fixed polynomials.", ["polynomial/src/lib.rs"], [("Polynomial::eval, poly!", "polynomial/src/lib.rs")], ["mx"],
      "0 to 9 coefficients symbolic in [-100, 100], argument symbolic in [-10, 10]"),
    P("G01", "Vectors, points, lines, planes and triangles obey Euclidean geometry",
      "Vector algebra (dot, cross, length, normalisation, perpendicular), point distances and projections, point/line/segment/plane relations and ray-plane hits agree with Euclidean geometry for every input. "
      "Triangles report the area, right-hand normal, centroid, circumcentre and bounds of their vertices, refuse collinear vertices, and classify any point of their plane as inside, on an edge, on a vertex or outside correctly.",
      "every point, direction and triangle within the bounds", "Tests use axis-aligned examples.",
      ["geometry/src/vector3d.rs", "geometry/src/point3d.rs", "geometry/src/segment3d.rs", "geometry/src/plane3d.rs", "geometry/src/ray3d.rs", "geometry/src/triangle3d.rs"],
      [("operators and methods", "geometry/src")], ["geo"],
      "coordinates symbolic in [-10, 10] (some [-5, 5]), unit directions from a list of 8 rational vectors, triangles of a few symbolic families; answers within 1 mm-type tolerances of the crate are not judged"),
    P("G02", "Transforms apply in order and their inverses undo them",
      "Translations, scalings and rotations move points, vectors, normals, rays and boxes as named; composing transforms applies them in the documented order, and the inverse of a transform (also of a composed one) undoes it exactly. "
      "Transformed normals stay perpendicular to transformed surfaces, and a transformed box contains every transformed point of the original; error bounds given with a point or vector, once transformed, still enclose it.",
      "every translation, scaling, rotation axis and composition within the bounds", "Tests exercise single transforms on fixed points.",
      ["geometry/src/transform.rs"], [("Transform::{translate, scale, rotate_*, mul, transform_*, inv_transform_*}", "geometry/src/transform.rs")], ["geo"],
      "translations symbolic in [-5, 5], scales in [0.25, 4], angles symbolic (sine and cosine constrained by the Pythagorean identity), compositions of two and three"),
    P("G03", "Rays hit shapes exactly where geometry says, on the right side",
      "A ray hits a triangle, disk, ring, sphere, partial sphere, cylinder or distant source exactly when it points towards a point of it, at the first such point along the ray, wherever the shape is placed. "
      "The hit reports the side that was hit and a unit normal facing the ray's origin, and shapes report their true area and bounds.",
      "every ray and shape within the bounds", "Tests shoot a few rays at shapes in canonical positions.",
      ["geometry/src/triangle3d.rs", "geometry/src/disk3d.rs", "geometry/src/sphere3d.rs", "geometry/src/cylinder3d.rs", "geometry/src/distant_source3d.rs", "geometry/src/intersection.rs"],
      [("intersect / simple_intersect / basic_intersection", "geometry/src/*3d.rs")], ["geo"],
      "radius, centre and distances symbolic; directions from lists of rational unit vectors ; hits within 1e-6..1e-4 of an edge are not judged"),
    P("G04", "Bounding boxes: union, overlap, membership and ray test are exact",
      "Boxes built from any two points are ordered; union, intersection, overlap, membership, surface area and longest axis agree with their definition for every box. "
      "The ray test accepts every ray that passes through the box and rejects every ray that misses it or points away from it, including rays parallel to the axes.",
      "every box, point and ray within the bounds", "Tests use a few boxes and rays.",
      ["geometry/src/bbox3d.rs"], [("BBox3D", "geometry/src/bbox3d.rs")], ["geo"],
      "coordinates symbolic in [-10, 10] (origins [-30, 30]); slanted directions: 4 fixed octants with symbolic box and origin, plus symbolic directions of one octant for a fixed box; boxes at least 0.1 wide in the ray tests"),
    P("G07", "Bounded-error numbers always enclose the exact result",
      "Adding, subtracting, multiplying, dividing, negating and taking the square root of numbers that carry error bounds gives bounds that enclose the exact result for every exact value within the operands' bounds. "
      "The quadratic solver finds both real roots, in order, when they exist and none when they do not.",
      "every interval, exact value and quadratic within the bounds", "Tests check a few fixed intervals.",
      ["geometry/src/round_error.rs"], [("ApproxFloat, solve_quadratic", "geometry/src/round_error.rs")], ["geo"],
      "ends symbolic in [-10, 15]; divisors at least 0.1 away from zero; quadratics with a in [0.5, 4], roots in [-5, 10] at least 0.1 apart"),
]

ALL += [
    P("G05", "Polygons report their true area, normal and interior, with or without holes",
      "A loop of coplanar vertices reports the area, perimeter, right-hand normal and centroid of the shape it draws, whichever vertex comes first and whichever way it goes; collinear vertices are dropped, and vertices that make it cross itself, leave its plane or come after it was closed are refused. "
      "A point of the plane is inside a polygon if and only if it is inside its outline and outside all of its holes; points out of the plane are never inside. "
      "Cutting a hole that lies inside subtracts its area, other holes are refused, the merged outline-plus-holes loop encloses the same area, and splitting a loop with a segment conserves area.",
      "every shape of the bounded families, starting vertex, orientation and probe point", "Tests probe a few points of a few shapes; failures depend on the ray used for the test going through vertices.",
      ["geometry/src/loop3d.rs", "geometry/src/polygon3d.rs"], [("Loop3D::{push, close, area, test_point, split}", "geometry/src/loop3d.rs"), ("Polygon3D::{cut_hole, area, test_point, get_closed_loop}", "geometry/src/polygon3d.rs")], ["geo"],
      "rectangles, triangles, L, U and tilted shapes with symbolic sizes, every starting vertex, both directions, 2-4 planes; probe points symbolic over the plane, at least 1 cm away from edges; one hole (rectangle, triangle, pentagon) at a symbolic position", over=("inputs", "histories")),
    P("G06", "Triangulations cover exactly the polygon",
      "Every triangulation that is returned for a polygon (with or without a hole) has triangles that all face the way the polygon does, do not exceed it and add up to its area, with vertices taken from the polygon; polygons without holes are always triangulated into two triangles less than vertices. "
      "Adding a point of the polygon splits the triangles around it and keeps covering the same area, points outside are refused, and meshes refined to a maximum area have no triangle larger than that.",
      "every shape of the bounded families, starting vertex and added point", "Tests triangulate a few fixed polygons.",
      ["geometry/src/triangulation3d.rs"], [("TryFrom<&Polygon3D>, add_point, mesh_polygon", "geometry/src/triangulation3d.rs")], ["geo"],
      "rectangle, L, U and irregular pentagon with one symbolic size and every starting vertex, 2 planes; holes of 3, 4 and 5 vertices at 3 heights and a narrow symbolic offset; added points along 5 symbolic lines of a rectangle; meshes of two rectangles", over=("inputs", "histories")),
]
ALL += [
    P("W01", "Weather lookups interpolate the records around the date asked for",
      "Asking weather data for a date returns, for every quantity, the value interpolated linearly in time between the records before and after that date, going through New Year when the date is before the first or after the last record, and the record itself when the date is one of a record. "
      "Reading an EPW file puts every column in its own field and turning it into weather data keeps each field, in the units of the weather (radians, fractions); schedules of a synthetic weather each feed their own quantity, with documented defaults for those missing.",
      "every set of records of the bounded families, every date, every number in the file", "Tests read one file and look up few dates, none of them past the last record.",
      ["weather/src/lib.rs", "weather/src/current_weather.rs", "weather/src/synthetic_weather.rs", "weather/src/epw/scanner.rs", "weather/src/epw/weather_line.rs"],
      [("Weather::find_weather_line", "weather/src/lib.rs"), ("EPWScanner", "weather/src/epw/scanner.rs"), ("CurrentWeather::interpolate, From<&EPWWeatherLine>", "weather/src"), ("SyntheticWeather", "weather/src/synthetic_weather.rs")], ["wea"],
      "3 sets of 2 to 4 records with symbolic values; dates with symbolic hour in the first, last and middle day between records; EPW files of 2 lines and 1-2 ground depths whose numbers are symbolic (their text is an opaque token that parses to the symbol)", over=("inputs",)),
    P("W02", "The sun is where astronomy says it is, and only when it is up",
      "At every time of the day the sun's position is a unit vector with the height and the northward component given by latitude, declination and hour angle, to the east before solar noon and to the west after it; no position is returned exactly when the sun is below the horizon. "
      "Solar and standard time differ by the longitude correction and the equation of time, in both directions, and going east makes solar time go ahead. Declination, equation of time and extraterrestrial radiation follow their published series, and estimated global radiation follows the published cloud model without ever being negative.",
      "every time of the day and longitude, for the listed latitudes and days", "Tests check a few places and times.",
      ["weather/src/solar/mod.rs", "weather/src/location.rs"], [("Solar::{sun_position, sunrise_sunset, hour_angle, unwrap_solar_time, ...}", "weather/src/solar/mod.rs"), ("Location::get_solar", "weather/src/location.rs")], ["wea"],
      "sun position: time of the day symbolic (at least 1.4 min away from noon), 2 latitudes (thorough: 6) between -0.72 and 1.15 rad, solstices and equinoxes; the sines of the declination are symbolic; not judged within 0.8 degrees of the zenith"),
    P("W03", "The discretised sky covers the sphere and carries the radiation given",
      "Every direction of the sky belongs to the patch whose altitudes and azimuths contain it, every direction below the horizon to the ground, the direction of each patch lies in that patch, and the solid angles of all patches add up to the sphere. "
      "A sky built from sun only carries exactly the direct normal radiation in its patches, reflects the global horizontal radiation times the albedo from the ground, is never negative, and is all zero at night or without radiation; updating a sky replaces the one before it. Sky clearness, its category and brightness, luminous efficacies and the parameters of the sky follow the definitions and tables of Perez et al.",
      "every direction, radiation and albedo within the bounds", "Tests check a few directions and compare one sky against reference data.",
      ["weather/src/solar/reinhart_sky.rs", "weather/src/solar/perez.rs"], [("ReinhartSky::{dir_to_bin, bin_dir, bin_solid_angle}", "weather/src/solar/reinhart_sky.rs"), ("PerezSky::{gen_sky_vec, update_sky_vec, sky_clearness, ...}", "weather/src/solar/perez.rs")], ["wea"],
      "directions symbolic over the whole upper hemisphere with subdivision 1 (thorough: 1 to 3), patches of subdivisions 1 to 4; sun-only skies for 2 latitudes, 3 days, 3 hours with symbolic radiation and albedo; tables: every row with symbolic brightness, humidity and zenith; directions within 1e-9 rad of a patch's edge are not judged"),
]
ALL += [
    P("W04", "Estimated direct and diffuse radiation follow their published models",
      "Clear-sky radiation follows Hottel and Liu and Jordan, the diffuse fraction follows Erbs, and direct normal radiation follows the DISC model and the correction of Ineichen and Perez (the coefficient of the category of clearness, zenith, variation between hours and humidity), for every sky; it is zero when the sun is too low. "
      "Radiation estimated from clouds splits the estimated global radiation in that direct radiation and the rest, neither ever negative or not a number.",
      "every clearness, height of the sun, humidity and variation within the bounds", "Tests look up some coefficients and one clear day.",
      ["weather/src/solar/mod.rs"], [("disc_direct_solar, perez_direct_normal_radiation, perez_direct_rad_coefs", "weather/src/solar/mod.rs"), ("direct_diffuse_from_cloud_generic, diffuse_fraction, clear_sky_global_horizontal_rad", "weather/src/solar/mod.rs")], ["wea"],
      "clearness symbolic over the whole range of each of the 6 categories, for one height of the sun per category of zenith, one humidity and one variation per category; clear sky: height and elevation symbolic; clouds: 3 heights, 3 covers and symbolic temperature difference; clearness within 0.002 of the limit between categories is not judged"),
    P("H01", "Sunlight on glazing is reflected, transmitted or absorbed, none lost or added",
      "A stack of panes transmits, reflects and absorbs in each pane exactly what all the inter-reflections between its panes add up to, so the shares of all panes plus what is transmitted and reflected are the incident energy. "
      "Combining panes does not depend on the order in which neighbours are grouped, transmittance is the same in both directions, and the stack seen from the back is the stack turned around, each pane with its back to the viewer. Nothing behind an opaque pane is seen.",
      "every transmittance, front and back reflectance of each pane", "Tests check published values of one double and one triple glazing.",
      ["heat/src/glazing.rs"], [("Glazing::{combine, combine_layers, alphas, get_front_glazing_system, get_back_glazing_system}", "heat/src/glazing.rs")], ["heat"],
      "stacks of 1 to 3 panes (thorough: 4) with or without an opaque one; optical properties symbolic, transmittance 0.01-0.95, reflectances 0.01-0.95, at least 1% absorbed"),
    P("H02", "Convection and radiation coefficients follow TARP and ISO 15099",
      "Convection at surfaces follows the TARP correlations for still and moving air: they depend on whether the air is stable or not, never fall below the minimum, and wind doubles its effect on surfaces that face it. A surface is windward exactly when its normal looks to where the wind comes from. "
      "Gas properties follow ISO 15099's tables and the ideal gas law; convection in cavities follows its correlations at every tilt, never transmits less than the still gas, only conducts when the temperatures are equal or the upper side of a horizontal cavity is the hotter, and does not change when the cavity is turned around; radiation across the cavity is that between parallel planes.",
      "every temperature, tilt of the list, wind direction and speed, emissivity", "Tests evaluate the correlations at single points; nothing exercises all regimes or their symmetry.",
      ["heat/src/convection.rs", "heat/src/gas.rs", "heat/src/cavity.rs", "heat/src/surface.rs"], [("ConvectionParams", "heat/src/convection.rs"), ("Gas::cavity_convection", "heat/src/gas.rs"), ("Cavity::u_value", "heat/src/cavity.rs"), ("is_windward", "heat/src/surface.rs")], ["heat"],
      "temperatures symbolic between -20 and 60 C, wind symbolic, tilts of cavities from lists of 3 to 8 angles, thicknesses 6 to 50 mm, gases air, argon, krypton and xenon (2 of them for some cases in the quick tier); powers, sines and cosines are uninterpreted functions with bounding axioms"),
    P("H03", "Walls are split in nodes that keep their mass and resistance, stably",
      "A construction is split in elements no thicker than the limit, with time steps no shorter than the limit and for which the explicit scheme is stable; elements that cannot satisfy this are treated as having no mass. Each element gives half of its mass to each of its two nodes, so the mass of all layers with mass is in the nodes; the conductances in series add up to the resistance of the construction. "
      "Gas layers become cavities that see the emissivities of their neighbours, and gases at the ends or next to each other are refused. The chunks with and without mass cover every node once, in maximal runs.",
      "every conductivity, density, heat capacity and thickness within bounds; layer sequences of the list", "Tests check particular constructions.",
      ["heat/src/discretization.rs"], [("Discretization::{new, discretize_construction, build, get_chunks, r_value}", "heat/src/discretization.rs")], ["heat"],
      "single layers with conductivity, capacity and thickness symbolic, 3 time steps; constructions of up to 3 solids with up to 2 cavities of 27 combinations of kinds, density and conductivity symbolic"),
    P("H04", "Walls conduct, radiate, convect and absorb the sun as energy balances demand",
      "A step of a wall with mass is the fourth-order step of its energy balance: conduction between nodes, convection and linearised radiation with what each side sees, and the sun absorbed where each pane absorbs it, evenly over the nodes of a transparent one, negative irradiances counting as none. A wall without mass ends where each node's balance is zero. A wall whose surroundings have its temperature stays as it is. "
      "A wall described from its other side (boundaries, layers and normal turned around) sees the same conditions: its own surface temperature, air, radiant temperature, tilt, wind at the height of its centre and windward or leeward side; an adiabatic side sees what the other side sees. Reported heat flows are coefficient times temperature difference.",
      "every node temperature, surrounding temperature, irradiance and wind", "Tests march walls with fixed, mostly symmetric, conditions.",
      ["heat/src/surface.rs", "heat/src/discretization.rs", "heat/src/heat_model.rs"], [("ThermalSurfaceData::{new, march, calc_border_conditions}, rk4", "heat/src/surface.rs"), ("iterate_surfaces", "heat/src/heat_model.rs"), ("Discretization::get_k_q", "heat/src/discretization.rs")], ["heat"],
      "one step; brick and brick-wood walls, walls without mass of 1-2 layers, panes 1 to 3; front and back outdoors, in a space or with ambient temperature; 4 normals; temperatures, sun, infrared and wind symbolic; convection coefficients fixed for the balances; radiation left out of the balance without mass; an adiabatic side opposite to wind is not judged", over=("inputs", "histories")),
    P("H05", "Zone air follows its heat balance and substeps fill the step",
      "Over a substep the temperature of a zone moves exponentially towards the equilibrium of its heat balance: surfaces and windows on either side times their convection coefficient and area, infiltration and ventilation, heaters, coolers and luminaires in that zone, with the capacity of its own air; a zone that exchanges nothing gains exactly the heat released in it. Each gain goes to the zone it targets. "
      "The substeps of a step add up to the step, are at least as short as every wall requires, and each uses the weather at its own time.",
      "every zone temperature, power, air flow temperature, start time", "Tests check isolated terms of the balance.",
      ["heat/src/heat_model.rs", "heat/src/zone.rs", "heat/src/heating_cooling.rs", "heat/src/luminaire.rs"], [("ThermalModel::{new, march, calculate_zones_abc, estimate_zones_future_temperatures}", "heat/src/heat_model.rs"), ("ThermalZone::mcp", "heat/src/zone.rs")], ["heat"],
      "two zones, 0 to 2 walls and a window with fixed convection coefficients, one substep; 4 sets of heat sources, 3 of air flows; temperatures and powers symbolic; exponentials are uninterpreted", over=("inputs", "histories")),
    P("A01", "Infiltration follows the flow model chosen for each space",
      "At every step the air that infiltrates into a space is at the outdoor temperature and flows at the rate of the space's own model, whatever the other spaces and earlier steps: the given constant; the design rate times A + B|dT| + C W + D W^2 (with the BLAST or DOE-2 coefficients where those are chosen) with the wind of the site; or the effective leakage area times the root of stack and wind effects with the coefficients of the building or, where it has none, those of its number of storeys and shelter class. "
      "A leakage area without the building data it needs is reported as an error, and the temperature of the space is left alone.",
      "every temperature, wind speed, design flow, coefficient and leakage area", "Tests evaluate each formula once.",
      ["air/src/air_model.rs", "air/src/resolvers.rs", "air/src/eplus.rs", "model/src/infiltration.rs"], [("AirFlowModel::{new, march}", "air/src/air_model.rs"), ("*_resolver", "air/src/resolvers.rs")], ["air"],
      "one space for the formulas, three for independence, one or two steps; temperatures, wind, flows and coefficients symbolic; 5 terrains, 5 shelter classes, unknown or 1 to 5 storeys; powers with non-integer exponents are uninterpreted", over=("inputs", "histories")),
    P("A02", "Wind at a height and the orientation of a surface follow site and geometry",
      "The wind speed at a height is the weather's times (270/10)^0.14 (h/delta)^alpha with the alpha and delta documented for the terrain (suburbs when none is given), and zero at ground level and below. "
      "A direction closer to the vertical than 45 degrees is horizontal, every other belongs to the one of eight compass sectors (north is +y, east is +x) that it points to; the outside and inside orientations of surfaces and windows are those of the side that looks to the outdoors and to the space, and do not exist unless one side has each.",
      "every height, direction and vertical surface", "Tests try a few directions and heights.",
      ["model/src/site_details.rs", "model/src/surface_trait.rs"], [("wind_speed_modifier", "model/src/site_details.rs"), ("get_orientation, outside_orientation, inside_orientation", "model/src/surface_trait.rs")], ["air"],
      "heights symbolic to 500 m; directions symbolic in each sector, 1e-6 (tangent) clear of the sector borders; vertical rectangles of symbolic size and position in 8 directions, 5 x 5 boundaries; powers are uninterpreted"),
    P("S01", "The simulation state keeps every quantity in its own place",
      "For every sequence of additions, the state accepts people, then operation, then physics and refuses whatever comes too late without a trace; each element is found at the position returned, with its initial value, and the counts agree. Copying the personal, operational or physical part of a state changes exactly the elements of that part. "
      "What is written into a quantity of a space, surface or window is what is read from it afterwards, none of them shares its place with another, and a place is assigned only once.",
      "every sequence of additions within the bound, every value", "Tests try one or two orders.",
      ["model/src/simulation_state.rs", "model/src/simulation_state_element.rs", "model/src/surface.rs", "model/src/fenestration.rs", "model/src/space.rs", "model/src/surface_trait.rs", "derive/src"], [("SimulationStateHeader::{push, copy_*_state}", "model/src/simulation_state.rs"), ("SurfaceTrait::add_*_state", "model/src/surface.rs")], ["air"],
      "sequences of 5 (6 thorough) additions of all kinds; two spaces, two surfaces and two windows, 1 to 4 nodes, 9 orders of addition; values symbolic", over=("inputs", "histories")),
    P("J01", "Models written to JSON or .spl files are read back as the same model",
      "Writing a model, as JSON or in the SIMPLE language, and reading it back yields the same buildings, spaces, infiltrations, substances, materials, constructions, surfaces, windows, heaters, coolers, luminaires, outputs, site and solar options: the same objects in the same order with every field that was set (and none that was not), the same boundaries, vertices and areas (also of walls with windows cut into them), and the same places in the simulation state.",
      "every value of the fields within the bounds", "Tests read a few files.",
      ["model/src/model.rs", "model/src/scanner.rs", "geometry/src/loop3d.rs", "geometry/src/polygon3d.rs", "derive/src"], [("Model::{fmt, print_to_json_file, from_json, from_bytes}", "model/src/model.rs"), ("parse_model", "model/src/scanner.rs"), ("Serialize, Deserialize for Loop3D", "geometry/src/loop3d.rs")], ["air"],
      "one or two objects of each kind, optional fields in 3 or 4 patterns, all variants of the enumerations that carry data; numbers symbolic (they travel through the text as tagged numbers); rectangles and one rectangular hole. Names are concrete."),
    P("J02", "Models are put together consistently: names, holes, boundaries, areas",
      "Objects are found by their own name and unknown names are errors. A window with a parent takes its area out of the wall and gets the wall's boundaries, exchanged when it looks the other way; windows and doors without construction, with an unknown parent, surfaces with an unknown construction or space, and anything that needs a state after it was taken are refused without being added. "
      "Every machine and window gets its own place in the state. Floor areas count the floors, once, for the space above them; setpoints are those of the machines.",
      "every window position and size in the wall, floor size and parameter", "Tests try single examples.",
      ["model/src/model.rs"], [("Model::{add_*, get_*, get_space_sizes, get_hvac_setpoints}", "model/src/model.rs")], ["air"],
      "one wall (horizontal, vertical or tilted) with one rectangular window of symbolic position and size, 5 x 5 boundaries; two floors or ramps of symbolic size, 6 categories; three objects of each kind", over=("inputs", "histories")),
    P("L01", "Sun and infrared radiation reach each side of each surface as its boundary says",
      "At every step each side of a surface or window receives: infrared radiation of a black body at its own surface temperature towards a space, at the given temperature towards an ambient, and of sky and surroundings weighted by its view factors outdoors (nothing changes towards the ground or adiabatic boundaries); no sun when there is none, and otherwise the average of its previous and its current irradiance, the latter being its daylight coefficients times the sky of that moment, at the place of the simulation. "
      "Front and back, and surfaces and windows, never exchange their values, and sides that see neither a space nor the outdoors get no sun.",
      "every temperature, earlier irradiance, view factor, daylight coefficient and weather infrared", "Tests look at one surface.",
      ["light/src/solar_model.rs", "light/src/optical_info.rs"], [("SolarModel::{new, march, update_ir_radiation, update_solar_radiation}", "light/src/solar_model.rs")], ["sol"],
      "two surfaces and two windows (three with an opening) with all combinations of boundaries; view factors, previous values and temperatures symbolic; 3 dates and 3 skies concrete, sky of 146 bins with some symbolic coefficients; the optical information is read from a file as the program does (its Monte-Carlo estimation is not covered)", over=("inputs", "histories")),
    P("R01", "Materials never return more light than they receive, in the right directions",
      "A mirror, a glass pane, a dielectric and a diffuse, plastic or metal surface seen through the general material interface send light, for every direction it comes from and every random draw, along a direction of length one on the side of the surface that matches the kind of interaction (reflected or transmitted), starting just off that side, with a positive probability. "
      "Mirror directions obey the law of reflection and refracted ones Snell's law, with total internal reflection beyond the critical angle; Fresnel reflectance lies between 0 and 1 and is the same in both directions; and the weight of a sample (value times cosine over probability) is the colour of the surface for mirrors and diffuse surfaces, never more than one for glass, and for clear glass the light reflected plus transmitted is all of it. "
      "A ray changes medium only when it is transmitted by a dielectric, and the values and probabilities a material evaluates are never negative and vanish for directions on opposite sides of an opaque surface.",
      "every incoming direction, surface frame, colour, refraction index and random number within the bounds", "Tests sample random directions with fixed materials.",
      ["rendering/src/material/mod.rs", "rendering/src/material/glass.rs", "rendering/src/material/dielectric.rs", "rendering/src/material/specular.rs", "rendering/src/material/diffuse.rs", "rendering/src/material/mirror.rs", "rendering/src/material/ward.rs", "rendering/src/material/bsdf_sample.rs"],
      [("Material::{sample_bsdf, eval_bsdf, pdf}, fresnel_*, cos_and_n", "rendering/src/material")], ["ren"],
      "directions from a symbolic family, refraction index symbolic, colours symbolic (gray for glass), random draws symbolic in [0, 1); the glossy lobe of plastic and metal is only evaluated, not sampled", over=("inputs", "random draws")),
    P("R02", "Samples fall where their distribution says and lights report the right density",
      "For every pair of random numbers, points sampled on triangles, discs and spheres lie on them, directions sampled over a hemisphere (uniform or cosine weighted, horizontal or tilted) have length one and point to its side, and moving from local to world coordinates is the rotation and translation of the given frame. "
      "The direction and distance towards a light point at it, sampled directions hit it, and the probability density of a direction towards a light is, for triangles, squared distance over area and cosine at the light, and for spheres and distant sources one over the solid angle of their cone, wherever the origin of coordinates is.",
      "every pair of random numbers, triangle, frame and viewpoint within the bounds", "Tests draw random samples around fixed shapes.",
      ["rendering/src/samplers.rs", "rendering/src/primitive_samplers.rs", "rendering/src/primitive.rs", "rendering/src/triangle/mod.rs"],
      [("uniform_sample_*, sample_*, *_solid_angle_pdf, *_direction", "rendering/src")], ["ren"],
      "random numbers symbolic in [0, 1), shapes from small symbolic families", over=("inputs", "random draws")),
    P("R03", "Rays hit the nearest triangle of the scene, whatever the acceleration structure",
      "Casting a ray in a scene returns a hit exactly when it crosses some triangle ahead of it, and then the nearest one, with the point, side, normal and direction back that geometry dictates; a shadow ray is unobstructed over a distance exactly when no triangle lies closer. "
      "Building the acceleration structure only reorders the scene: triangles, normals and front and back materials move together, and the mapping it returns tells from where.",
      "every ray of the bounded families through each scene", "Tests cast random rays in a few scenes.",
      ["rendering/src/bvh.rs", "rendering/src/triangle/fallback.rs", "rendering/src/triangle/mod.rs", "rendering/src/scene.rs"],
      [("BoundingVolumeTree::{new, intersect, unobstructed_distance}", "rendering/src/bvh.rs"), ("Scene::{cast_ray, push_object, build_accelerator}", "rendering/src/scene.rs")], ["ren"],
      "scenes of 0 to 60 triangles (thorough: 288) in 10 layouts and several sizes; rays whose origin (or, in small scenes, direction) slides symbolically along a line, for 9 directions; rays within 0.1 % of an edge, or closer than 1 mm to a triangle, are not judged", over=("inputs",)),
    P("R04", "Cameras, images and colour maps keep every pixel in its place and its value",
      "Each pixel of a camera sees along the direction through its centre: columns from left to right and rows from top to bottom of the field of view with square pixels, whatever the shape of the film, and the pixel of a ray is the one it crosses. "
      "Images saved as RGBE files are read back with their size and with every colour within the precision of the format, files that miss pixels are refused, and image differences and colour maps are computed pixel by pixel as defined, with linear interpolation within the range and the end colours outside of it.",
      "every field of view, view point, pixel and colour within the bounds", "Tests use square films and compare saved images.",
      ["rendering/src/camera/pinhole.rs", "rendering/src/camera/view.rs", "rendering/src/image.rs", "rendering/src/colourmap/mod.rs"],
      [("Pinhole::{gen_ray, pixel_from_ray}", "rendering/src/camera/pinhole.rs"), ("ImageBuffer", "rendering/src/image.rs")], ["ren"],
      "films up to 5 x 5, field of view symbolic 20 to 120 degrees, 5 view directions; images up to 2 x 2 with colours symbolic in bands of 7 exponents; colour maps at 4 of their bins, value symbolic", over=("inputs",)),
    P("R05", "Colours and matrices of colours combine channel by channel",
      "Arithmetic between colours and with numbers works on each channel separately, radiance weighs red, green and blue with 0.265, 0.67 and 0.065, luminance is 179 lm/W times that, and grays, maxima, powers and blackness follow. "
      "Matrices of colours convert to radiance and luminance element by element, average by columns, multiply channel by channel, and come back from the files they are saved in.",
      "every colour and matrix within the bounds", "Tests use fixed colours.",
      ["rendering/src/colour.rs", "rendering/src/colour_matrix.rs"], [("Spectrum operators", "rendering/src/colour.rs"), ("save/read_matrix, colour_matrix_to_*", "rendering/src/colour_matrix.rs")], ["ren"],
      "channels symbolic in [-10, 10] (divisors in [0.5, 10]); matrices up to 3 x 3 with elements symbolic in [0, 100]"),
    P("O01", "Thermostats heat below and cool above their set points",
      "The default occupants switch an electric heater to its full power while its room is below the heating set point and off otherwise, and an ideal heater and cooler to its heating power below the heating set point, to (minus) its cooling power above the cooling set point, and off in between, whatever it was doing before. "
      "Each device follows the temperature of its own room and leaves everything else as it was; devices without a room, a set point or a power are left alone; and without controller nothing changes.",
      "every temperature, set point, power and previous state", "Tests try a few temperatures with one device.",
      ["src/occupant_behaviour.rs", "src/void_control.rs", "src/control_trait.rs"],
      [("OccupantBehaviour::control", "src/occupant_behaviour.rs")], ["sim"],
      "three rooms and up to two devices (three thorough) with every combination of missing settings for one device; temperatures, set points (heating not above cooling), powers and the previous state symbolic", over=("inputs", "histories")),
    P("O02", "Control scripts read and write the quantities they name, and nothing else",
      "In a control script, spaces, surfaces, windows, luminaires and heaters or coolers can be picked by name or by number, reading any of their quantities yields its current value, and assigning one changes that quantity of that object to that value, for whole numbers and measured ones, and nothing else in the simulation. "
      "Unknown names, numbers out of range, unknown or mistyped quantities and quantities that are not part of the simulation are reported as errors and change nothing.",
      "every value of the state, and every pair of quantities within the bounds", "Tests run one script with fixed values.",
      ["src/rhai_script_controller.rs", "model/src/rhai_api.rs", "derive/src/field.rs", "derive/src/object_struct.rs", "derive/src/object_enum.rs"],
      [("RhaiControlScript", "src/rhai_script_controller.rs"), ("register_api", "derive/src")], ["sim"],
      "two spaces, walls, windows and lamps and three heaters; scripts of one to three assignments between any quantity and five others; all values of the state symbolic (numbers within scripts are whole)", over=("inputs", "programs")),
    P("O03", "A simulation reports every step, with the quantities that were asked for",
      "Running a simulation writes one line per time step between the first and the last weather record, each with its date and one value per column of the header: the requested quantities that exist in the order requested, or all of them if there are none. "
      "Each value is that of the state after the controller (or script) has acted on the previous state and then air and heat have advanced one step; steps per hour are limited to 60, and bad options are reported as errors before anything is written.",
      "every outdoor temperature and every decision of the controller", "Tests run one building and look at one variable.",
      ["src/run_simulation.rs", "src/multiphysics_model.rs", "src/rhai_script_controller.rs", "derive/src/simulation_state_behaviour.rs"],
      [("run, run_rhai, pre_process", "src/run_simulation.rs"), ("MultiphysicsModel::march", "src/multiphysics_model.rs")], ["sim"],
      "a building of two rooms with infiltration, a heater and a lamp (no walls); 1, 2, 4 or 5 steps per hour during two hours from 3 dates; 6 lists of outputs; outdoor temperatures and the powers set by the controller symbolic", over=("inputs", "histories")),
    P("R06", "Scenes contain the building, the file and the sky they are made from",
      "The scene made from a building has, for every surface larger than 0.1 cm2 and every window or door (not openings), triangles that cover it, face as it does, and carry in front its first layer and behind its last one: glass with the transmissivity of that layer if it transmits light, otherwise a grey that reflects what that side of the layer does not absorb (70% when unknown). Outer layers of gas and unknown materials are errors. "
      "A Radiance file gives each material with its own colour and parameters and each polygon, sphere and source where the file says with the material it names; whatever emits light from either side is among the lights. Adding a Perez sky puts one sun where the sun is, with the direct normal radiation it brings, and nothing but a dark sky at night.",
      "every optical property, position and irradiance within the bounds", "Tests count the triangles of a couple of scenes, and only look at the sky in images.",
      ["rendering/src/from_simple_model.rs", "rendering/src/from_radiance.rs", "rendering/src/scene.rs", "rendering/src/triangle/mod.rs"],
      [("SimpleModelReader::build_scene", "rendering/src/from_simple_model.rs"), ("RadianceReader", "rendering/src/from_radiance.rs"), ("Scene::push_object, add_perez_sky", "rendering/src/scene.rs")], ["ren"],
      "constructions of one to three layers with every combination of known and unknown absorptances and transmittance (symbolic); rectangles with and without a window on 5 planes with symbolic size and place; files with each kind of material and object with symbolic numbers; 6 places and times with symbolic direct radiation; solar wavelengths only"),
]
NA = []

PROPS = {p["id"]: {"groups": p["groups"], "bounds": p["bounds"], "assumptions": p["assume"], **({"kani": p["kani"]} if p["kani"] else {})} for p in ALL}


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in ALL + NA:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 setup.py",
           "hooks": {"guard": "none (no hooks: the checks lift and build copies of /repo's sources under /verif/build)", "enable": "nothing to enable", "source_commits": []},
           "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                       "technique": p["tech"] + ("; Kani (CBMC) for the integer and bit-precise parts" if p["kani"] else ""), "level": "other",
                       "level_note": "Bounded symbolic verification. " + NOTE + " Bounds: " + p["bounds"]} for p in ALL],
           "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
