def mech(*ps):
    return [{"name": a, "where": b} for a, b in ps]


prop("C01", "Code enums: parsing inverts formatting",
     "For every code type of the library that can both be written as text and read from text (markers, carriers, file types, flags, message types, observables, IONEX systems, production codes), reading the text written for any value gives back that value. Two different values of one type are never written with the same text, and writing always terminates.",
     ["inputs"], "every value of every such code type", "unit tests sample one or two texts per type and rarely write them back",
     ["src/marker.rs", "src/carrier.rs", "src/types.rs", "src/ionex/system.rs", "src/ionex/mapf.rs", "src/production/ppu.rs", "src/observation/flag.rs", "src/observable.rs"],
     mech(("Display and FromStr of every code enum", "src/**: impl Display / impl FromStr"),),
     "context-seeded constant propagation over MIR: parse after format for every variant")

prop("C02", "Codes carry the meaning the RINEX standard gives them",
     "Every code of the RINEX, IONEX, ANTEX and CLOCK standards (file types, epoch flags, signal strength digits and dBHz classes, loss of lock and Galileo health bits, marker types, observable letters, navigation frame and message names, clock data types, calibration methods, mapping functions, file name units) is read as the value the standard assigns to it and written back with the standard text. Codes that a standard does not define are refused, and signal quality predicates follow the classes they name.",
     ["inputs"], "every code of those tables", "tests check a handful of codes; a swapped or missing row goes unnoticed until a file uses it",
     ["src/observation/snr.rs", "src/observation/flag.rs", "src/observation/lli.rs", "src/navigation/health.rs", "src/types.rs", "src/observable.rs", "src/production/ffu.rs", "src/production/sequence.rs"],
     mech(("code parsers and formatters", "impl FromStr / Display / LowerHex / From of the code types"),),
     "constant propagation of each standard code through the compiled conversions, compared with tables of the standards")

prop("C03", "Signals map to the right carrier, frequency and ICD constants",
     "Each observation code a constellation defines maps to a carrier whose centre frequency is the one published for that signal, for RINEX 2 and 3 codes, ANTEX frequency labels and DORIS; codes no system defines map to nothing. GLONASS channel numbers shift L1 by 562.5 kHz and L2 by 437.5 kHz, wavelength is the speed of light over frequency, and gravitational, Earth rotation and relativistic constants are those of each constellation's ICD.",
     ["inputs"], "every constellation, measurement type, band and tracking attribute; every channel number", "tests check a few GPS codes; the tables hold several hundred entries",
     ["src/carrier.rs", "src/constants.rs"],
     mech(("observation code tables and carrier frequencies", "src/carrier.rs: Carrier"), ("ICD constants", "src/constants.rs: Constants")),
     "constant propagation of every observation code through the compiled mapping, compared with the ICD tables")

prop("C04", "Predicates and iterators select exactly their kind",
     "A predicate or accessor named after a kind of file, record, frame, observable or ionosphere model answers yes for that kind only. An iterator named after a kind (pseudo range, phase, temperature, ephemeris, Klobuchar models, satellite clocks, DORIS signals...) yields every record entry of that kind, with the key and value stored for it, and nothing else.",
     ["inputs", "histories"], "every kind of entry in every record type", "tests iterate over a few reference files which do not hold every kind of entry",
     ["src/observable.rs", "src/record/mod.rs", "src/navigation/frame.rs", "src/iterators.rs", "src/observation/rinex/mod.rs", "src/navigation/rinex/mod.rs", "src/navigation/rinex/feature.rs", "src/meteo/rinex/feature.rs", "src/doris/rinex/mod.rs", "src/lib.rs"],
     mech(("kind predicates and filtered iterators", "impl Rinex / impl Observable / impl Record / impl NavFrame"),),
     "abstract interpretation of each iterator on a record with one arbitrary entry of each kind; may/must-yield of the closure chain")

prop("C05", "Header fields are read from the columns the formats define",
     "For every RINEX, compact RINEX, IONEX, ANTEX and CLOCK header line that follows its format, each field of the parsed header (file type and version, texts, hardware, positions, eccentricities, sensors, observable lists, scale factors, slots, leap seconds, dates, intervals, ionosphere coefficients, grids, stations, time systems, corrections) is what is written in the columns of that field, all of them and no others, scaled to the stated unit. Lines of one kind do not disturb fields of another, and lines which may come in any order give the same header.",
     ["inputs"], "every value of every field of those lines", "tests parse a few files whose fields rarely fill their columns",
     ["src/header/parsing.rs", "src/leap.rs", "src/hardware.rs", "src/marker.rs", "src/meteo/sensor.rs", "src/doris/station.rs", "src/navigation/ionosphere/mod.rs", "src/hatanaka/crinex.rs"],
     mech(("header line parsers", "Header::parse and the FromStr of the types it reads"),),
     "abstract interpretation of the header parser on lines with known columns and unknown values; column provenance of every field of the result")

prop("C06", "A written header is standard, and is read back as it was",
     "Every line of a header the library writes (observation, navigation, meteo and clock files, RINEX 1 to 4, compact RINEX) carries one defined label in columns 61 to 80, with its content in columns 1 to 60, and the header ends with END OF HEADER. Reading such a header gives back the fields it was written from: file type and version, program and agencies, marker, hardware, positions, eccentricities, observables (any number), sensors, GLONASS channels (any number), leap seconds, dates in every time system, sampling interval, clock data types and comments.",
     ["inputs"], "every value of those fields, and lists of any length around the line capacity", "tests write back a few reference headers whose lists seldom meet the line capacity",
     ["src/header/formatting.rs", "src/observation/header.rs", "src/meteo/header.rs", "src/clock/header.rs", "src/meteo/sensor.rs", "src/leap.rs", "src/hardware.rs", "src/hatanaka/crinex.rs"],
     mech(("header writer", "Header::format and the HeaderFields::format it delegates to"), ("header parser", "Header::parse")),
     "abstract interpretation of the header writer on unknown values, then of the header parser on the lines produced; label columns and provenance of every field")

prop("C07", "Observation records are read and written in the format's columns",
     "For every well formed observation epoch of a RINEX 1, 2 or 3 file (any number of satellites and observables, continuation lines, blank or padded fields, systems not declared in the header), each written value comes out exactly once, under its satellite and observable, taken from exactly its columns, with its own loss of lock and signal strength digits, and nothing else comes out. Every epoch the library writes is read back with the same date, flag, satellites, observables and digits, whatever the order of its signals.",
     ["inputs"], "every value of every field of such epochs; layouts with one to three lines per satellite", "tests compare counts and a few values of reference files, whose values seldom fill their columns",
     ["src/observation/parsing.rs", "src/observation/formatting.rs", "src/epoch.rs"],
     mech(("observation epoch parser and writer", "parse_epoch, Observations::format"),),
     "abstract interpretation of the epoch parser on records with known columns and unknown values, and of the parser on what the writer produces; column provenance of every value")

prop("C08", "Navigation files are read field by field from the format's columns",
     "For every well formed navigation file (RINEX 1 to 4; GPS, GLONASS, Galileo, BeiDou, QZSS and SBAS messages of every type; null, blank, omitted or blank padded fields, 'E' or 'D' exponents), each message comes out exactly once under its own satellite, date in its constellation's time scale, class and message type. Each of its fields, and each coefficient of a RINEX 4 ionosphere, system time or earth orientation frame, holds the number written in that field's columns, whatever precedes or follows it.",
     ["inputs"], "every value of every field of such files", "tests read back a few messages of a few reference files; a field shifted by one column group shows only when its neighbours are blank or zero",
     ["src/lib.rs", "src/record.rs", "src/navigation/parsing/mod.rs", "src/navigation/parsing/v4.rs", "src/navigation/ephemeris/parsing.rs", "src/navigation/orbits.rs", "db/NAV/orbits.json", "src/navigation/ionosphere", "src/navigation/system_time.rs", "src/navigation/earth_orientation.rs"],
     mech(("the file reader down to the fields of a message", "Rinex::parse"),),
     "abstract interpretation of the whole file reader (field tables included) on files with known columns and unknown values; column provenance of every field")

prop("C09", "Meteo files are read and written in the format's columns",
     "For every well formed meteo file (RINEX 2 to 4, one to ten observables, continuation lines, blank or omitted values, comments, a last line without terminator), each value comes out exactly once under its own date and observable, taken from exactly its columns, and nothing else comes out. Writing what was read and reading it again gives the same dates, observables and values, to the decimal the format has.",
     ["inputs"], "every value of every field of such files", "tests compare a few epochs of reference files; none has blank values on continued epochs",
     ["src/meteo/parsing.rs", "src/meteo/formatting.rs", "src/record/parsing.rs", "src/epoch.rs"],
     mech(("meteo record reader and writer", "Rinex::parse, Rinex::format"),),
     "abstract interpretation of the whole file reader, and of the reader on what the writer produces, with known columns and unknown values; column provenance of every value")

prop("C10", "Clock files are read field by field",
     "For every well formed clock file (RINEX clock 2.00, 3.00 and 3.04; satellite and station clocks; AR, AS, CR, DR and MS data; one to six values, continued on a second line or not), each bias, drift, drift change and each deviation comes out exactly once, from its own field, under its own clock name, data type and date. The date keeps its fraction of a second and is in the time system the header announces.",
     ["inputs"], "every value of every field of such files", "tests compare the epochs and the names of two reference files, and few values",
     ["src/clock/record.rs", "src/clock/mod.rs", "src/record/parsing.rs", "src/epoch.rs"],
     mech(("clock record reader", "Rinex::parse"),),
     "abstract interpretation of the whole file reader on files with known columns and unknown values; column provenance of every value")

prop("C29", "DORIS files are read and written in the format's columns",
     "For every well formed DORIS file (one to ten observables, continuation lines, blank or omitted values, several stations), each value and each of its two flag digits comes out exactly once under its own date (TAI, to the nanosecond), epoch flag, station and observable, with the clock offset and its extrapolation flag. Writing what was read and reading it again under the same header gives the same content.",
     ["inputs"], "every value of every field of such files", "the single reference file has its fields compared on its first epochs only",
     ["src/doris/parsing.rs", "src/doris/formatting.rs", "src/record/parsing.rs", "src/epoch.rs"],
     mech(("DORIS record reader and writer", "Rinex::parse, Rinex::format"),),
     "abstract interpretation of the whole file reader, and of the reader on what the writer produces, with known columns and unknown values; column provenance of every value")

prop("C13", "Ionosphere maps: each value keeps its date, node and unit",
     "For every well formed IONEX file (2D or 3D, global or regional grid, either direction, TEC with or without RMS maps, exponents from the header or a map, missing nodes, rows continued over several lines), each number comes out exactly once, under the date of its map and the latitude, longitude and height of its node, scaled by the exponent in force, as TEC or as its RMS error. Nodes without a value stay absent, and a grid the format allows is never refused.",
     ["inputs"], "every grid, and every value of every map", "tests compare a few nodes of two global files that share one grid",
     ["src/ionex/parsing.rs", "src/ionex/tec.rs", "src/ionex/quantized.rs", "src/linspace.rs", "src/header/parsing.rs", "src/record/parsing.rs"],
     mech(("IONEX record reader", "Rinex::parse"), ("node and value accessors", "QuantizedCoordinates::*, TEC::*")),
     "abstract interpretation of the whole file reader on files with known grids and unknown values; column provenance of every value")

prop("C14", "Antenna calibrations keep their description, validity and frequencies",
     "For every well formed ANTEX file, each antenna comes out exactly once, in order, with its type, serial number or spacecraft, calibration method, agency, date and number, validity period (either bound may be missing), zenith grid, azimuth increment and SINEX code, each from its own columns. Each of its frequencies holds the three eccentricities of its own block, whatever error blocks, comments or phase patterns surround them, and the phase centre look-ups return those of the antenna, frequency and date asked for.",
     ["inputs"], "every antenna of every file, every value", "tests compare the eccentricities of four antennas, none of which has a validity period, a radome or a satellite",
     ["src/antex/record.rs", "src/antex/antenna/mod.rs", "src/antex/antenna/sv.rs", "src/carrier.rs", "src/record/parsing.rs", "src/lib.rs"],
     mech(("ANTEX record reader", "Rinex::parse"), ("look-ups", "Rinex::sv_antenna_apc_offset, rx_antenna_apc_offset")),
     "abstract interpretation of the whole file reader, and of the look-ups on what it returns, with known columns and unknown values; column provenance of every value")

prop("C11", "Every epoch is the date its columns say, in the file's time system",
     "For every observation, navigation, meteo, clock and DORIS file (two or four digit years, any fraction of a second the columns hold), each epoch read is the calendar date, time and fraction written, in the time system of the file: that of TIME OF FIRST OBS, of TIME SYSTEM ID or else of the constellation; GPS for meteo and TAI for DORIS. A date that does not exist never aborts the reader, is never filed under another date and does not disturb its neighbours; written files are read back at the same dates.",
     ["inputs"], "every date, fraction of a second, time system and file kind", "tests read files of a few days, whose fraction of a second is zero and whose time system is GPS",
     ["src/epoch.rs", "src/header/parsing.rs", "src/observation/parsing.rs", "src/navigation/parsing/mod.rs", "src/clock/record.rs", "src/meteo/parsing.rs", "src/doris/parsing.rs"],
     mech(("epoch parsing and formatting", "epoch::parse_in_timescale, epoch::format and their callers"),),
     "abstract interpretation of the whole file reader on dates at the limits of each calendar field; constant folding of the calendar conversions, symbolic values")

prop("C24", "Derived quantities follow their definitions",
     "Every entry of the signal combinations (geometry free, ionosphere free, wide lane, narrow lane, Melbourne-Wubbena), of the code multipath and of the dual frequency TEC is the defining formula applied to the observations of that very epoch and satellite, and an epoch missing one of the signals gives no entry. The nodes around a point of a regular grid, the unit conversions of TEC values and the carrier frequencies of a DORIS station with its shift factor follow their definitions too.",
     ["inputs", "histories"], "every record content, order of signals and gap; every regular grid, in either direction; every shift factor", "tests compare a few combinations of reference files in which every satellite has every signal at each epoch",
     ["src/observation/rinex/feature.rs", "src/observation/rinex/tec.rs", "src/observation/signal.rs", "src/ionex/tec.rs", "src/linspace.rs", "src/doris/station.rs"],
     mech(("signal combinations, multipath, TEC", "Rinex::signals_combination, signals_multipath, observation_dual_phase_ionosphere_tec; SignalObservation::tec_estimate"), ("grids", "Linspace"), ("DORIS station", "Station::s1_frequency_shift, u2_frequency_shift")),
     "abstract interpretation on records with symbolic values; each extracted term is compared with the defining formula by evaluation at random points")

prop("C31", "Time coverage and quality selections describe the record",
     "First and last epoch, duration, sampling histogram, dominant interval and rate, steadiness, time series and data gaps are those of the epochs of the record, whatever their number, spacing and order, the empty record included. Selections by quality (good epochs, event epochs, loss of lock, cycle slips, good tracking, signal strength) yield exactly the observations whose epoch flag, loss of lock digit or signal strength digit says so.",
     ["inputs", "histories"], "every list of epochs, and every flag and digit", "tests query steady reference files, whose observations are all good",
     ["src/sampling.rs", "src/observation/rinex/feature.rs", "src/observation/signal.rs", "src/observation/flag.rs", "src/observation/lli.rs", "src/observation/snr.rs"],
     mech(("time statistics", "Rinex::first_epoch, last_epoch, duration, sampling_histogram, dominant_sampling_interval, data_gaps_iter"), ("quality selections", "Rinex::*_ok_iter, *_anomalies, SignalObservation::is_ok, is_ok_snr")),
     "abstract interpretation of each statistic and filter on records with known dates, flags and digits and symbolic values")

prop("C32", "Listings and summaries of a file are those of its record",
     "Listing the epochs, satellites, constellations, observables, carriers or signal codes of a file gives every item that occurs in its record and no other, for each kind of file that has them, whatever the epoch flags, the values, and how items repeat or alternate; each item once where every entry of the record has its own. Rain and hail summaries and IONEX maps, borders, altitudes and dimensions are those of the data, borders and altitudes from minimum to maximum.",
     ["inputs", "histories"], "every record, every repetition and every order of its entries", "tests list a few reference files whose content is regular",
     ["src/lib.rs", "src/observation/rinex/feature.rs", "src/meteo/rinex/feature.rs", "src/ionex/rinex"],
     mech(("listings", "Rinex::epoch_iter, sv_iter, constellations_iter, observables_iter, carrier_iter, signal_code_iter"), ("summaries", "Rinex::total_accumulated_rain, hail_detected, ionex_tecu_latlong_ddeg_alt_km_iter, tec_map_borders, ionex_altitude_range_km")),
     "abstract interpretation of each listing and summary on small concrete records of every kind, with flags, repetitions, alternations and isolated items")

prop("C30", "Comments inside a record are kept and change nothing around them",
     "Whatever comment lines appear in the record of an observation, navigation, meteo, clock or DORIS file, at any place (before the first epoch, inside a multi-line epoch, after the last), the rest is read as if they were absent. Every comment comes out, in order, filed under the date of the epoch it follows.",
     ["inputs"], "every position of comment lines in the record", "reference files have comments in their header, hardly any in their record",
     ["src/record/parsing.rs", "src/record/mod.rs"],
     mech(("comment handling of the record reader", "Rinex::parse"),),
     "abstract interpretation of the whole file reader with comments inserted at each place, compared term by term with the same file without comments")

prop("C12", "Ephemeris accessors use the field they are named after",
     "Each accessor of a broadcast message (Keplerian elements, perturbations, clock, group delay, week, time of ephemeris, GLONASS channel, state vector, typed values) returns the message field it is named after, in the unit it states, also when that value is zero. What a with_ method stores is what the matching accessor reads back, and message validity durations are those of each constellation.",
     ["inputs"], "every accessor and setter, for every message content", "tests read back a handful of fields of a few reference messages",
     ["src/navigation/ephemeris/mod.rs", "src/navigation/ephemeris/kepler/mod.rs", "src/navigation/orbits.rs"],
     mech(("getters and setters keyed by field name", "Ephemeris::kepler, perturbations, with_kepler, with_perturbations, toe, tgd; OrbitItem::as_*"),),
     "abstract interpretation with message fields kept apart by name; reader/writer key agreement")

prop("C27", "Satellite state and clock formulas are those of the ICDs",
     "For every message content and every time after the time of ephemeris, the satellite position (and each intermediate orbital term) computed for GPS, Galileo and BeiDou (GEO included) is the one of the interface control document's algorithm, and the velocity is its time derivative, in km and km/s. The satellite clock correction is the second order polynomial of the broadcast coefficients, and the relativistic correction is the published one.",
     ["inputs"], "every ephemeris, time and satellite of those constellations", "tests compare a few GPS positions; perturbation terms are too small to show there, and no test covers BeiDou GEO or velocities",
     ["src/navigation/ephemeris/kepler/helper.rs", "src/navigation/ephemeris/kepler/mod.rs", "src/navigation/ephemeris/mod.rs", "src/constants.rs"],
     mech(("Kepler solution, rotations and clock polynomial", "Ephemeris::kepler2position, kepler2position_velocity, helper, clock_correction"),),
     "extraction of the arithmetic term each function computes, compared with the ICD formula by random interpretation of the term")

prop("C22", "Builders store their argument in the field they are named after, only",
     "For every starting value and argument, a with_ or set_ method of a header, hardware, sensor, leap second, ephemeris, TEC or observation type returns (or leaves) the value it was called on with the named field holding the argument and every other field as it was. Inside the library, the value such a method returns is never thrown away.",
     ["inputs"], "every with_/set_ method, every starting value", "tests build a few values from Default and never look at the fields that should not move",
     ["src/header/mod.rs", "src/hardware.rs", "src/ionex/header.rs", "src/meteo/sensor.rs", "src/leap.rs", "src/antex/antenna/mod.rs", "src/antex/frequency.rs", "src/observation/header.rs", "src/observation/mod.rs", "src/hatanaka/crinex.rs"],
     mech(("builder methods", "impl Header, Antenna, Receiver, Sensor, Leap, HeaderFields, TEC, Ephemeris, Observations: with_*, set_*"),),
     "abstract interpretation of every builder on a value with fields kept apart by name; unused-result query over call sites")

prop("C23", "Whole-file transforms touch what they are about, and only that",
     "Converting between plain and compressed observation RINEX changes the compression header (and the program name) only: every other header field and the record stay, the conversion to plain leaves no compression header, and to compressed picks revision 1 for RINEX 1 and 2 and revision 3 from RINEX 3. Subtracting two files replaces each value that has a counterpart under the same epoch, flag, satellite or station and observable by the difference and leaves everything else; LLI masking removes exactly the phase observations without any of the mask's flags; DCB and PCV queries answer for the constellation asked. The copying form of each transform gives the same file as the in-place form.",
     ["inputs"], "every observation, DORIS and meteo file", "tests convert a few files and never look at the fields that should not move, nor at near-miss keys",
     ["src/lib.rs", "src/observation/rinex/feature.rs", "src/header/mod.rs"],
     mech(("file transforms", "Rinex::{crnx2rnx, rnx2crnx, observation_substract, observation_phase_tracking_lli_masking}(_mut), dcb_compensation, pcv_compensation"),),
     "abstract interpretation of each transform on records with one arbitrary entry and near-miss operands")

prop("C28", "Look-ups return the entry that applies, never one of something else",
     "Selecting a broadcast ephemeris for a satellite and a time only considers that satellite's messages, already published and within the validity of its constellation, and prefers the most recent one (the closest one for SBAS); it returns that message with its own times. An antenna phase centre look-up only uses calibrations valid at that date, of that satellite, or of the receiver antenna with that IGS code or serial number (letter case ignored), and for that carrier.",
     ["inputs", "histories"], "every record content, satellite, antenna and date", "tests query one or two entries that exist",
     ["src/navigation/rinex/feature.rs", "src/navigation/ephemeris/mod.rs", "src/lib.rs", "src/antex/antenna/mod.rs"],
     mech(("time and key look-ups", "Rinex::nav_ephemeris_selection, sv_antenna_apc_offset, rx_antenna_apc_offset, antex_valid_calibrations; Ephemeris::is_valid"),),
     "abstract interpretation of each look-up on near-miss records; evaluation of the extracted ordering term")

prop("C20", "Compact RINEX compression and decompression are inverse",
     "Reading a compact (Hatanaka) observation file, V1 or V3, returns the epochs, satellites, values, loss of lock and strength marks the format defines, whatever the order of the differences, interrupted arcs, re-initialisations, missing observations, receiver clock, events, number of satellites and of observables. Records written as compact RINEX give the same data back, to the resolution of the format, under any decoder of the format.",
     ["inputs", "histories"], "every sequence of values and flags, for each shape of file listed in DESIGN.md", "tests decompress a few reference files and compare epochs of a few satellites; orders, interruptions and re-initialisations hardly occur there",
     ["src/hatanaka/numdiff.rs", "src/hatanaka/textdiff.rs", "src/hatanaka/decompressor/mod.rs", "src/hatanaka/compressor.rs", "src/record/parsing.rs"],
     mech(("difference coders, decompressor and compressor", "NumDiff, TextDiff, DecompressorExpert, CompressorExpert, Rinex::parse, Rinex::format"),),
     "abstract interpretation of coders, reader and writer on files with unknown values, compared term by term with the differences the format defines")

prop("C26", "File names follow the naming conventions, both ways",
     "Reading a file name that follows the short, long or IONEX convention, compressed or not, gives back the attributes written in it; a name that follows none is refused. The name generated for a file is that of the requested convention for its content and attributes (station, country, source, day, period, sampling, system, type), given custom attributes prevailing. Guessed attributes describe the first epoch, the sampling and the content of the file.",
     ["inputs"], "every file name of the conventions, every attribute value and first epoch", "tests read and generate the names of a few reference files",
     ["src/production/mod.rs", "src/production/ffu.rs", "src/production/ppu.rs", "src/production/source.rs", "src/lib.rs"],
     mech(("file names", "ProductionAttributes::from_str, FFU, PPU, DataSource, Rinex::standard_filename, Rinex::guess_production_attributes"),),
     "abstract interpretation of the name reader and generator on names with unknown parts, over every period, sampling, source, type and calendar limit")

prop("C15", "A write that succeeds has written everything",
     "Any failure to write, flush, finish or format, at any point of the output, makes the writing method return an error: it never succeeds with missing content, and does not abort. Writing to a file only succeeds once everything, including the end of a compressed stream, has been handed to the file. Content that the library cannot write is refused, not left out.",
     ["fault_sequences"], "every point of the output at which a write may fail, every kind of record", "tests write to disks that do not fail",
     ["src/lib.rs", "src/header/formatting.rs", "src/record/formatting.rs", "src/observation/formatting.rs", "src/meteo/formatting.rs", "src/doris/formatting.rs", "src/hatanaka/compressor.rs"],
     mech(("writers", "Rinex::{format, to_file, to_gzip_file}, Header::format, Record::format and what they call"),),
     "path-sensitive error-flow analysis over the compiler's MIR from every call that may fail; typestate of buffered and compressing writers; abstract interpretation of the record writer")

prop("C16", "A failed read is an error, never the end of the file",
     "Any failure to open or read the input, at any point, including damaged or truncated compressed streams and lines that are not text, makes the reading method return an error: it never succeeds with what had been read before, and does not abort.",
     ["fault_sequences"], "every point of the input at which a read may fail", "tests read files that exist from disks that do not fail",
     ["src/lib.rs", "src/header/parsing.rs", "src/record/parsing.rs", "src/hatanaka/decompressor/io.rs"],
     mech(("readers", "Rinex::{parse, from_file, from_gzip_file}, Header::parse, Record::parse, DecompressorIO"),),
     "path-sensitive error-flow analysis over the compiler's MIR from every call that may fail to read; query over iterator adapters that drop failures")

prop("C17", "The library acts only on what its caller hands it",
     "The only things the library touches outside its arguments and results are the files whose paths its caller gives: a reading method opens them for reading only, a writing method creates them. Nothing is printed, no environment, network, process, thread or mutable global state is involved, so instances used concurrently do not disturb each other.",
     ["programs", "schedules"], "every sequence of calls, on any number of threads", "tests look at results, not at what else a call does",
     ["src"],
     mech(("file access", "Rinex::{from_file, to_file, from_gzip_file, to_gzip_file}"), ("global state", "lazy statics of the observables, orbits and frequencies tables")),
     "effect analysis over the compiler's MIR: every call out of the crate classified, provenance of each path opened, static items")

prop("C18", "Reading, writing and naming files are deterministic",
     "The same bytes are always read as the same content, and the same content and options are always written as the same bytes under the same standard name: nothing depends on the order of a hash table, the clock, the environment, random numbers or memory addresses.",
     ["inputs", "histories"], "every content, every run of the program", "a test compares one run, with one hash seed at a time",
     ["src/lib.rs", "src/header", "src/record", "src/observation", "src/meteo", "src/hatanaka", "src/production"],
     mech(("readers, writers and names", "Rinex::{parse, format, standard_filename}, Header::{parse, format}, Record::{parse, format}"),),
     "call graph of the compiler's MIR from readers, writers and names; each iteration over a hash table followed to an order-free consumer; ambient values excluded")

prop("C19", "Every call comes to an end",
     "Reading, writing, looking up and computing end for every finite input: no loop or recursion goes on for ever, whatever the file contains, whether a computation converges or not, and whatever is missing from the library's tables.",
     ["inputs"], "every input, every loop and every recursion of the library", "a test that does not end on an unusual input was never written",
     ["src"],
     mech(("loops", "every loop of the crate"), ("iterations", "Ephemeris::kepler2position, parse_orbits, closest_nav_standards, IONEX exponents"),),
     "termination analysis over the compiler's MIR: nested loops with progress measures (finite iterators, monotone integers, shrinking texts), stuck cycles, call graph recursion")

na("N01", "Numbers keep their accuracy through parsing, arithmetic and writing",
   "The results of the orbit, clock, combination and interpolation computations are within the rounding error their inputs allow of the exact result, and Kepler's equation is solved to the stated tolerance, for every input.",
   ["inputs"], "every floating point input", "tests compare a few values, with their own tolerances",
   ["src/navigation/ephemeris/kepler/helper.rs", "src/observation/rinex/feature.rs", "src/ionex/rinex/feature.rs"],
   mech(("floating point computations", "Ephemeris::kepler2position, helper; combinations; IONEX grid interpolation"),),
   "quantifies over floating point rounding and over the number of iterations of a fixed point loop: the terms extracted from the source are compared over the reals (C24, C27), which says nothing about rounding")
na("N02", "No input makes a reader panic",
   "Whatever the bytes of a file, reading it returns a value or an error: no panic, no arithmetic overflow, no out of bounds access.",
   ["inputs"], "every byte sequence", "tests read well formed files",
   ["src/record/parsing.rs", "src/header/parsing.rs", "src/observation/parsing.rs", "src/navigation/parsing.rs"],
   mech(("readers", "Rinex::parse, Header::parse, Record::parse"),),
   "each slice of a line is in bounds or not depending on relations between the length of the line, the position of multi-byte characters and earlier tests; no static argument in reach bounds them for arbitrary bytes (about 200 such slices are not guarded at all today). Aborts on well formed layouts are covered by the readers' checks")
