#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


PROP = "Constants::propagate, Constants::propagate_afspc_compatibility_mode, Constants::propagate_from_state"

prop("C01", "Near-earth predictions are those of the published SGP4 equations",
     "For every near-earth orbit (period below 225 min) that the library accepts, with any geopotential model, drag term and time before or after epoch, the predicted position (km) and velocity (km/s) equal those of the published SGP4 equations (Spacetrack Report #3 as revised by Vallado et al. 2006) up to floating-point rounding. This includes perigees below 220, 156 and 98 km, near-circular orbits, equatorial and retrograde orbits, and strongly decayed orbits. Both entry modes (standard and AFSPC compatibility) give these values.",
     ["inputs", "configurations"],
     "All near-earth element sets, geopotentials, drag terms and times, in std and no-std builds.",
     "The stable tests compare about 20 near-earth orbits, one geopotential (WGS72), AFSPC mode only, and the no-std test run uses std arithmetic; most combinations of perigee band, eccentricity class and inclination are never evaluated.",
     ["src/lib.rs", "src/near_earth.rs", "src/propagator.rs", "src/model.rs"],
     [("initialisation of the drag and secular coefficients", "src/lib.rs Constants::new; src/near_earth.rs constants"),
      ("secular, long and short period updates", "src/near_earth.rs near_earth_orbital_elements; src/lib.rs Constants::propagate_from_state")],
     [PROP],
     [("perigee bands", "98/156/220 km thresholds which change the atmospheric density parameters", "src/lib.rs, src/near_earth.rs")])

prop("C02", "Deep-space predictions include exact lunisolar and Lyddane corrections",
     "For every non-resonant deep-space orbit (period of 225 min or more) that the library accepts, at every epoch and time, predictions equal those of the published SGP4/SDP4 equations up to floating-point rounding, including the solar and lunar secular and periodic terms. Below 0.2 rad of perturbed inclination the Lyddane modification is applied, in standard and AFSPC form as selected by the caller, and above it the direct form is applied. Near-equatorial orbits get no lunisolar node rate.",
     ["inputs", "configurations"],
     "All non-resonant deep-space element sets, epochs 1957-2056, geopotentials and times, both modes, std and no-std builds.",
     "The tests contain a handful of deep-space orbits, only in AFSPC mode and WGS72; standard-mode Lyddane orbits, most inclination bands and all other epochs are never evaluated.",
     ["src/deep_space.rs", "src/third_body.rs", "src/lib.rs"],
     [("solar and lunar coefficients from the epoch", "src/deep_space.rs constants; src/third_body.rs perturbations_and_dots"),
      ("periodic terms and Lyddane choice", "src/third_body.rs long_period_periodic_effects; src/deep_space.rs deep_space_orbital_elements")],
     [PROP])

prop("C03", "Resonant predictions follow the published 12 h and 24 h integration",
     "For every deep-space orbit in a resonance band (about one revolution per day; or about two per day with eccentricity 0.5 or more), predictions at every time before and after epoch equal those of the published resonance integration in steps of 720 min, up to floating-point rounding. Which orbits are resonant, and which eccentricity polynomial applies to a 12 h orbit, follow the published thresholds exactly. Sidereal time at epoch enters as supplied by the caller.",
     ["inputs", "configurations"],
     "All resonant element sets including exact threshold values and their floating-point neighbours, sidereal times, and times with any number of integration steps, both directions.",
     "The tests contain few resonant orbits and none at a threshold; several eccentricity polynomial segments and backward integrations over many steps are never evaluated.",
     ["src/deep_space.rs", "src/lib.rs"],
     [("resonance selection and coefficients", "src/deep_space.rs constants"),
      ("numerical integration", "src/deep_space.rs ResonanceState::integrate")],
     [PROP, "Constants::initial_state"],
     [("ResonanceState", "time, mean motion and longitude of the integrator", "src/deep_space.rs")])

prop("C04", "Re-using a resonance state never changes an answer",
     "For every orbit and every sequence of propagation calls that share one resonance state, each call either returns exactly what a fresh propagation to the same time returns, or is refused with a panic. Calls whose times stay on one side of epoch and never move back towards it are never refused, a refused call leaves the state as it was, and a call that returns an error counts like any other. The state's own time is always a whole number of 720 min steps, never beyond the requested time, and a state exists exactly for resonant orbits.",
     ["histories", "inputs"],
     "All sequences of propagation times (including repeats, boundary times, zero, sign changes and times that yield errors), all resonant and non-resonant orbits, both modes mixed.",
     "The tests only advance a state through fixed increasing times; refusals, repeats, backward sequences, mixed signs and errors in the middle of a sequence are never exercised.",
     ["src/deep_space.rs", "src/lib.rs"],
     [("monotonicity guard and stepping", "src/deep_space.rs ResonanceState::integrate"),
      ("fresh state per call", "src/lib.rs Constants::propagate, Constants::initial_state")],
     ["Constants::propagate_from_state", "ResonanceState::t", "Constants::initial_state"],
     [("ResonanceState", "time, mean motion and longitude of the integrator", "src/deep_space.rs")])

prop("C05", "Trajectories are continuous across epoch and integration steps",
     "For every accepted orbit with ordinary drag whose perturbed inclination stays at 0.2 rad or above, or which is near-earth, the predicted position is a continuous function of time: it does not jump at epoch, at multiples of 720 min or anywhere else. The predicted velocity is the time derivative of the predicted position in km/s to within one part in a hundred. A long propagation therefore has no seams and time units cannot be mixed up.",
     ["inputs", "histories"],
     "All such orbits and all times within the propagation horizon, in particular both sides of every integration boundary.",
     "The tests sample isolated times minutes apart and never look on both sides of a boundary.",
     ["src/deep_space.rs", "src/lib.rs", "src/near_earth.rs"],
     [("Taylor step equals interpolation at the boundary", "src/deep_space.rs ResonanceState::integrate"),
      ("velocity formulas", "src/lib.rs Constants::propagate_from_state")],
     [PROP])

prop("C06", "AFSPC compatibility mode only affects low-inclination deep-space orbits",
     "For near-earth orbits and for deep-space orbits whose perturbed inclination is 0.2 rad or more, standard and AFSPC-mode propagation of the same constants give identical results, errors included. For every other orbit the two modes differ only through the node being reduced into [0, 2π[ instead of keeping its sign, as published. The two convenience methods are exactly state-based propagation from a fresh state with the flag off and on.",
     ["inputs", "configurations"],
     "All orbits and times, all initial nodes including negative and larger than a turn.",
     "The tests only run AFSPC mode, so no two modes are ever compared.",
     ["src/lib.rs", "src/deep_space.rs"],
     [("mode flag used in one term", "src/deep_space.rs deep_space_orbital_elements"),
      ("convenience methods", "src/lib.rs Constants::propagate, propagate_afspc_compatibility_mode")],
     [PROP])

prop("C07", "Well-formed TLE fields are read as exactly the values written",
     "For every well-formed two-line element set, parsing succeeds and every field equals what its columns say: catalogue number, classification, designator (with the launch year pivot at 57), epoch to within 5 nanoseconds, signed mean motion derivatives and drag term with assumed decimal point and exponent, ephemeris type, element set number, angles, eccentricity, mean motion and revolution number. Leading blanks, explicit signs and zero fields are read as usual. The object name passed by the caller is kept unchanged.",
     ["inputs"],
     "All well-formed TLEs: the complete domain of each field and combinations of neighbouring fields.",
     "The tests parse about 35 fixed TLEs; sign, blank, exponent and pivot combinations and almost all field values are never tried.",
     ["src/tle.rs"],
     [("fixed-column decoding", "src/tle.rs Elements::from_lines"),
      ("assumed decimal point", "src/tle.rs parse_decimal_point_assumed")],
     ["Elements::from_tle and the public fields of Elements"])

prop("C08", "Corrupted TLEs are rejected and the error points at the corruption",
     "A pair of lines is accepted only if both have 69 bytes, start with '1' and '2', have blanks between fields, carry the same catalogue number, have right modulo-10 checksums (digits count their value, minus signs one) and every field is well-formed and denotes a finite value. Otherwise an error is returned whose kind, line and column range designate a defect that the input really has. Any single changed digit in a valid TLE is rejected.",
     ["inputs", "fault_sequences"],
     "All byte-level corruptions of valid TLEs: every single byte change, pairs of changes, changes with repaired checksum, wrong lengths, mixed lines.",
     "No stable test feeds a malformed TLE.",
     ["src/tle.rs"],
     [("length, separators, identity, checksum and field validation", "src/tle.rs Elements::from_lines"),
      ("error location", "src/tle.rs Error, ErrorWhat, ErrorLine")],
     ["Elements::from_tle result, Debug and Display of TleError"])

prop("C09", "Parsing never panics",
     "For every byte string, parsing as TLE lines, 2LE or 3LE text or OMM JSON returns either elements or an error; it never panics, overflows or hangs, also in builds with arithmetic overflow checks. Elements obtained from parsing hold only finite numbers. Formatting any returned error or element set never panics either.",
     ["inputs", "configurations"],
     "All byte strings (any length, non-ASCII and non-UTF-8 included) and JSON values for every field, std and no-std builds.",
     "The tests only parse valid data.",
     ["src/tle.rs"],
     [("length checks before slicing, checked conversions", "src/tle.rs Elements::from_lines, parse_decimal_point_assumed"),
      ("number or string decoding", "src/tle.rs u64_or_string, u8_or_string, f64_or_string")],
     ["Elements::from_tle, parse_2les, parse_3les, serde_json::from_str"])

prop("C10", "Propagation always terminates with a finite prediction or an error",
     "For every accepted orbit and every time, including NaN and infinities and any finite time up to ±1e9 minutes, propagation returns without panicking or looping forever. For elements of ordinary magnitude and an Earth-like geopotential a returned prediction has only finite components, and a non-finite time or a diverged orbit yields an error. For any other floating-point inputs, NaN and infinities included, initialisation and propagation still never panic or hang.",
     ["inputs", "configurations"],
     "All accepted elements (extreme and non-finite parameters included) and all times, std and no-std builds.",
     "The tests use physically plausible elements and times only.",
     ["src/lib.rs", "src/deep_space.rs", "src/near_earth.rs"],
     [("range checks that also reject NaN", "src/near_earth.rs, src/deep_space.rs"),
      ("bounded iteration", "src/lib.rs Kepler loop; src/deep_space.rs integrate")],
     ["Constants::new, Constants::propagate*"])

prop("C11", "Multi-record parsing equals parsing each record on its own",
     "Parsing a 2LE or 3LE text of complete records yields, in order, exactly the elements obtained by parsing each pair of lines on its own, with each 3LE name line kept unchanged as object name and no name for 2LE; LF and CRLF line ends and a missing final line end make no difference. If some record is malformed, the result is the error of the first malformed record. No record is dropped, duplicated or mixed with another.",
     ["inputs", "histories"],
     "All sequences of records drawn from valid, defective and boundary records, all line-end styles and names.",
     "The tests parse two fixed valid files.",
     ["src/tle.rs"],
     [("line grouping", "src/tle.rs parse_2les, parse_3les")],
     ["parse_2les, parse_3les"])

prop("C12", "OMM JSON decodes exactly, whether numbers or strings are used",
     "For every OMM object, each numeric field is accepted as a JSON number or as a string holding the same number, with the same result (floating-point fields up to rounding of the last digit); values outside the field's type range, non-finite values, values of another JSON type and missing numeric fields are rejected, never truncated, wrapped or made up. Name, designator, classification and epoch are read as written, and unknown extra fields are ignored. An OMM and a TLE that state the same values give the same elements, and serialising elements and reading them back gives the same elements.",
     ["inputs"],
     "All numeric fields, all number/string representations, boundary values of each type, each field missing, duplicated or of another type.",
     "The tests decode three fixed objects; no out-of-range or string/number mix is tried.",
     ["src/tle.rs"],
     [("number or string decoding", "src/tle.rs u64_or_string, u8_or_string, f64_or_string"),
      ("field names", "src/tle.rs Elements serde attributes")],
     ["serde_json::from_str::<Elements>, serde_json::to_string"])

prop("C13", "Epochs are converted to the right instant for every date",
     "For every calendar date and time of day, the two published epoch expressions return the number of Julian years (365.25 days) elapsed since 1 January 2000 12:00 UTC, up to rounding, for all dates from 1 March 1900 to 28 February 2100. TLE day-of-year epochs map to the right calendar day, leap years included, day 366 only in leap years, and two-digit years 57-99 mean 1957-1999 while 00-56 mean 2000-2056. Both expressions accept any representable date without panicking.",
     ["inputs"],
     "Every calendar day of the range, boundary times of day, every TLE year and day.",
     "The tests check one rounding-prone epoch and otherwise a few dates.",
     ["src/tle.rs"],
     [("Julian date formulas", "src/tle.rs julian_years_since_j2000, julian_years_since_j2000_afspc_compatibility_mode"),
      ("year pivot and ordinal day", "src/tle.rs Elements::from_lines")],
     ["julian_years_since_j2000*, Elements::epoch*, Elements::datetime"])

prop("C14", "Minutes since epoch and datetimes convert into each other without loss",
     "The minutes returned for a datetime are the elapsed time since the elements' epoch divided by 60 s, of either sign, up to rounding of the last digit, and turning them back gives the same datetime to within the precision of the minutes value (exactly, below 10 days). Minutes are rounded to the nearest nanosecond when converted to a datetime. A difference or sum which cannot be represented, and a non-finite number of minutes, is reported as an error and never wraps or panics.",
     ["inputs"],
     "All pairs of epoch and datetime, all minutes including extreme and non-finite values.",
     "No stable test calls these conversions.",
     ["src/tle.rs"],
     [("checked duration arithmetic", "src/tle.rs datetime_to_minutes_since_epoch, minutes_since_epoch_to_datetime")],
     ["Elements::datetime_to_minutes_since_epoch, Elements::minutes_since_epoch_to_datetime"])

prop("C15", "Sidereal time is the published angle, always within one turn",
     "For every epoch within a thousand years of 2000 the IAU and AFSPC expressions return the published Greenwich sidereal angle in radians, in [0, 2π], up to rounding, before and after 2000 alike. The two expressions agree with each other to within a thousandth of a degree from 1950 to 2060. The angle advances by one turn per sidereal day without jumps other than the wrap.",
     ["inputs", "configurations"],
     "All epochs in the range, std and no-std builds.",
     "The tests use one expression through a few orbits and never look at the angle.",
     ["src/model.rs"],
     [("polynomials and reduction", "src/model.rs iau_epoch_to_sidereal_time, afspc_epoch_to_sidereal_time")],
     ["iau_epoch_to_sidereal_time, afspc_epoch_to_sidereal_time"])

prop("C16", "Impossible elements are refused, possible ones give the Brouwer motion",
     "Initialisation is refused with the offending value exactly when the eccentricity is not in [0, 1[ (NaN included), and Kozai elements are refused exactly when the given or the recovered Brouwer mean motion is zero or negative, with the corresponding error. Otherwise the recovered Brouwer mean motion equals the published un-Kozai formula for the given geopotential up to rounding, and the five other elements are passed through unchanged. Errors surface unchanged through the element-set constructors.",
     ["inputs"],
     "All eccentricities (boundaries, neighbours, NaN), mean motions, inclinations and geopotentials.",
     "No stable test initialises from invalid elements, and the recovered motion is never looked at.",
     ["src/lib.rs"],
     [("range checks and un-Kozai formula", "src/lib.rs Orbit::from_kozai_elements, Constants::new")],
     ["Orbit::from_kozai_elements, Constants::new, Constants::from_elements*"])

prop("C17", "Building from elements equals the documented step-by-step recipe",
     "Building constants from elements uses WGS84, the IAU sidereal time and the standard epoch expression; the AFSPC variant uses WGS72, the AFSPC sidereal time and the AFSPC epoch expression; angles are converted from degrees, mean motion from revolutions per day, and the element set's drag term is used as is. Predictions therefore equal those obtained by performing these steps by hand through the public API. Fields that SGP4 does not use (name, ids, mean motion derivatives, counters) never influence predictions.",
     ["inputs"],
     "All element sets (each field varied), both variants, all times.",
     "The tests only exercise the AFSPC variant end to end.",
     ["src/lib.rs", "src/model.rs", "src/tle.rs"],
     [("composition", "src/lib.rs Constants::from_elements, from_elements_afspc_compatibility_mode"),
      ("published constants", "src/model.rs WGS72, WGS84")],
     ["Constants::from_elements*, Constants::new, propagate*"])

prop("C18", "Diverged orbits report the right error, value and time",
     "When the propagated eccentricity leaves [-0.001, 1[ before third-body effects, or [0, 1] after them, or the semi-latus rectum becomes negative, propagation fails with the corresponding error, carrying the requested time unchanged and the offending eccentricity; otherwise it succeeds. The first failing condition in this order is the one reported. A slightly negative or tiny eccentricity is raised to 1e-6 before third-body effects are added.",
     ["inputs"],
     "All orbits and times at, before and after the point of divergence, near-earth and deep-space.",
     "One divergent orbit in the tests, whose error value is not inspected.",
     ["src/near_earth.rs", "src/deep_space.rs", "src/lib.rs", "src/gp.rs"],
     [("range checks", "src/near_earth.rs near_earth_orbital_elements; src/deep_space.rs deep_space_orbital_elements; src/lib.rs propagate_from_state")],
     ["Error returned by Constants::propagate*"])

prop("C19", "Every feature combination computes the same results",
     "The std, no-std, no-alloc and no-serde builds of the library accept and reject the same inputs with the same errors and give the same elements, epochs, sidereal times and predictions up to floating-point rounding, for negative angles and times as for positive ones. Every documented feature combination compiles. Reduction of angles has the same sign convention in all builds.",
     ["configurations", "inputs"],
     "The five valid feature combinations times a grid of TLEs, orbits, epochs, times and modes.",
     "The no-std test run links std arithmetic for floats, so the libm code paths are compiled but their results never compared.",
     ["src/lib.rs", "src/model.rs", "src/deep_space.rs", "src/near_earth.rs", "src/third_body.rs", "src/tle.rs", "Cargo.toml"],
     [("conditional float functions", "src/model.rs, src/deep_space.rs cfg(feature) blocks")],
     ["all public functions, per build"])

prop("C20", "Serialised constants and predictions survive a round trip",
     "Constants serialised and read back predict what the original constants predict (exactly, when the format carries floats exactly, and up to rounding through JSON text), for every kind of orbit (near-earth with every drag variant, deep-space, 12 h and 24 h resonant) and every time, in both modes and from states. Orbits, geopotentials, predictions and elements survive a round trip with every field unchanged. Serialised constants, orbits, geopotentials or predictions from which a field was removed are rejected rather than read with a made-up value.",
     ["inputs", "histories"],
     "All kinds of constants, all fields, all removal positions, times on both sides of epoch.",
     "No stable test serialises constants.",
     ["src/propagator.rs", "src/model.rs", "src/third_body.rs", "src/tle.rs"],
     [("derived serialisation", "src/propagator.rs, src/model.rs, src/third_body.rs")],
     ["serde_json serialisation of the public types"])

prop("C21", "Results depend only on inputs: no history, no thread interference",
     "The result of any call (parsing, initialisation, propagation, conversion) depends only on its arguments: it is bit-identical whatever calls were made before it in the process, on whatever constants, and whatever other threads do at the same time with the same or other constants. Constants can be shared between threads and propagation never modifies them. A call that panicked or failed leaves no trace in later calls.",
     ["schedules", "histories"],
     "All sequences of calls up to a bounded length and all interleavings of concurrent calls at instruction granularity up to a bounded number of switches.",
     "The tests are single-threaded within each case and run each call once in one order.",
     ["src/propagator.rs", "src/lib.rs", "src/deep_space.rs", "src/tle.rs"],
     [("no shared mutable state; constants passed by shared reference", "src/lib.rs Constants::propagate(&self)")],
     ["all public functions, Send/Sync of public types"],
     [("Constants", "immutable once built", "src/propagator.rs")])

prop("C22", "Whole turns and rotations of the node change predictions only as they must",
     "Adding a whole turn to the mean anomaly, the argument of perigee or, in AFSPC mode or above 0.2 rad of inclination, to the node leaves every prediction unchanged up to rounding. For near-earth orbits, turning the node by any angle turns position and velocity by that angle about the polar axis and changes nothing else. Near-earth predictions at a given time since epoch do not depend on the epoch or on the sidereal time.",
     ["inputs"],
     "All orbits, turns of either sign, rotation angles and times.",
     "The tests never relate two propagations to each other.",
     ["src/lib.rs", "src/near_earth.rs", "src/deep_space.rs"],
     [("angle reductions", "src/lib.rs propagate_from_state; src/deep_space.rs")],
     [PROP])

prop("C23", "Printed errors state the values and places they are about",
     "The text printed for an error states every value the error is about so that it reads back as the same value: eccentricity and time of a failed propagation, epoch eccentricity of refused elements, the two dates (or the date and the duration, or the minutes) of a time conversion that failed, line and character range of a malformed TLE. Each value appears in its own place, errors of different kinds print different texts, and errors of the same kind differ only in these values. An error wrapped by a more general one prints exactly as it does on its own.",
     ["inputs"],
     "All kinds of errors and all values they can hold, of any sign and magnitude, NaN and infinities included.",
     "No test looks at the text of any error.",
     ["src/gp.rs", "src/lib.rs", "src/tle.rs"],
     [("texts of errors", "src/gp.rs, src/lib.rs and src/tle.rs, implementations of Display"),
      ("conversion into the more general error", "src/lib.rs From implementations of ElementsError")],
     ["Display of every public error type, Elements::from_tle, Constants::from_elements, Elements::datetime_to_minutes_since_epoch, Elements::minutes_since_epoch_to_datetime"])

prop("C24", "Missing or superfluous states are refused; copies behave like originals",
     "Propagating a resonant orbit without a state, or a near-earth or non-resonant deep-space orbit with one, is refused with a panic (or with the error that the right call would give) at every time and in both modes, in debug and optimised builds alike; it never gives a prediction, leaves the given state as it was, and later calls are not affected. A copy of a state stands at the same time and continues exactly like its original, and using either never affects the other. Copies of constants, orbits, geopotentials, elements, predictions and errors hold and predict exactly what their originals do.",
     ["inputs", "histories"],
     "All kinds of orbits, all states of resonant orbits, times (NaN and infinities included) and modes; all pairs of stops before and after copying.",
     "The tests always pass the right kind of state and never copy anything.",
     ["src/lib.rs", "src/deep_space.rs", "src/propagator.rs", "src/tle.rs"],
     [("assertions on the state", "src/lib.rs propagate_from_state; src/deep_space.rs deep_space_orbital_elements"),
      ("copies of the state", "src/deep_space.rs ResonanceState")],
     ["Constants::propagate_from_state, Constants::initial_state, Clone of every public type"])

prop("C25", "Near-earth predictions keep the symmetries of a zonal field",
     "For near-earth orbits without drag, mirroring the orbit at a meridian plane and reversing time mirrors every prediction (velocity reversed), multiplying the gravity constant and the mean motion by a factor while dividing the time by it leaves the position and multiplies the velocity, and with negligible zonal coefficients (and an eccentricity of 1e-6 or more) the motion is that on the unperturbed Kepler ellipse; for every orbit without drag, multiplying the Earth radius by a factor multiplies position and velocity by it. For near-earth orbits with any drag, reversing the sign of the third zonal coefficient while adding half a turn to node and argument of perigee reverses the polar components of position and velocity and nothing else. If that coefficient is zero, replacing the inclination i by π - i and the node by its negative reverses their y components and nothing else.",
     ["inputs"],
     "All near-earth orbits, geopotentials, scale factors and times before and after epoch.",
     "The tests use the two built-in geopotentials only and never relate two propagations to each other.",
     ["src/lib.rs", "src/near_earth.rs", "src/deep_space.rs", "src/model.rs"],
     [("short-period and long-period terms", "src/lib.rs propagate_from_state; src/near_earth.rs")],
     [PROP])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
