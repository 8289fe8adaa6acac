# the properties (executed by mkprops.py)
NOT_CLAIMED = []
GENERIC = ("Seeded random search with shrinking; never establishes absence. "
           "Code under test rebuilt from the working tree with ASan, UBSan and "
           "pattern-filled uninitialised memory; trusted: the harness's own "
           "reference model, g++, and the ggdatetime stand-in where dates are involved.")

prop("C01", "Observation codes survive parsing, printing and comparison",
     "Every RINEX observation code (one of the type letters C, L, D, S, I, X, a band digit and an optional attribute) is read into exactly its type, band and attribute, a missing or blank attribute becoming the wildcard '?' and any text after the third character being ignored; printing it gives the three-character code, which reads back to an equal code. Texts shorter than two characters or starting with any other letter are refused with an exception. Two codes are equal exactly when type, band and attribute are all equal.",
     ["inputs"], "all code strings, all 256 type characters, all pairs of codes",
     "The tests print a handful of hand-picked codes and assert nothing about the values.",
     ["src/gnssobs.hpp", "src/gnssobs.cpp"],
     [("code parser", "ObservationCode::ObservationCode(const char*)"),
      ("letters", "char_to_observabletype / observabletype_to_char"),
      ("printing", "ObservationCode::to_string")], GENERIC)

prop("C02", "Satellite-system letters, frequencies, attributes and constants",
     "The eight satellite systems and their RINEX letters (G R S E C J I M) map to each other one to one and every other character is refused with an exception. For every system and band number the nominal frequency in MHz and the set of valid attributes (plus the wildcard '?') are those of the RINEX 3.02 tables, and a band the system does not have yields an exception, never a number. The gravitational constant, earth rotation rate and relativistic clock constant of GPS, Galileo and BeiDou are those of their interface documents.",
     ["inputs"], "all characters, all (system, band) and (system, band, attribute) combinations",
     "No test looks at the tables at all; a wrong digit passes everything.",
     ["src/satsys.hpp", "src/satsys.cpp", "src/gnssobsrv.cpp"],
     [("letters", "satsys_to_char / char_to_satsys"),
      ("tables", "satellite_system_traits<...>::frequency_map, valid_atributes, mi, omegae_dot, f_clock"),
      ("frequency of a coded observation", "__ObsPart::frequency")],
     GENERIC + " The reference tables are transcribed in the harness.",
     "property-based testing: exhaustively oversampled table lookups against transcribed reference tables")

prop("C03", "Observables are faithful linear combinations of coded observations",
     "An observable built from any sequence of coded observations with coefficients keeps every part in order; its nominal frequency is the sum of coefficient times nominal frequency (GLONASS and mixed parts counting zero), and its text lists the parts as system::code*coefficient joined by '+'. It is reported as mixed exactly when two parts belong to different systems. Two observables are equal exactly when they consist of the same parts with the same multiplicities, in any order; equality is symmetric and inequality its negation. Adding, replacing or removing parts of one (or of a copy) changes those parts and nothing else. Asked for the frequency of a band that its system does not have, a part or an observable throws to the caller.",
     ["inputs", "histories"], "all combinations of parts with finite coefficients; all pairs of combinations; all histories of changes",
     "The test compares three hand-made observables; repeated parts, order and scaling never occur.",
     ["src/gnssobsrv.hpp", "src/gnssobsrv.cpp"],
     [("composition", "GnssObservable constructors and add"),
      ("frequency", "GnssObservable::frequency, __ObsPart::frequency"),
      ("comparison", "GnssObservable::operator=="),
      ("text", "to_string of GnssRawObservable, __ObsPart, GnssObservable")], GENERIC)

prop("C04", "Receiver antenna names are kept in canonical 20+20 column form",
     "Whatever antenna text is given (a model name of up to 15 characters, optionally a radome in columns 17-20, optionally more text), the stored name is the model padded to 16 columns followed by the four radome columns, with NONE when they are blank and nothing from beyond column 20, and the antenna has no serial number. Setting a serial number stores at most its first 20 characters, replaces the previous one entirely and never touches model or radome; an antenna has a serial number exactly when a non-blank one was set. A default antenna is blank without a serial number.",
     ["inputs", "histories"], "all antenna texts and sequences of serial numbers",
     "The test prints eight antennas and checks nothing; blank radomes in 20 columns, short radomes and overlong serials do not occur.",
     ["src/antenna.hpp", "src/antenna.cpp"],
     [("normalisation", "ReceiverAntenna::copy_from_cstr"),
      ("serial", "ReceiverAntenna::set_serial_nr / has_serial")], GENERIC)

prop("C05", "Receiver antenna comparison by model, radome and serial number",
     "Two receiver antennas are the same exactly when both have a non-blank serial number and model, radome and serial number agree; they are of the same model exactly when model and radome agree, whatever their serial numbers. Both comparisons are symmetric and survive copying. An antenna's serial number matches a text exactly when it is that text (trailing blanks aside).",
     ["inputs"], "all pairs of antennas and serial numbers, in particular those differing in a single character",
     "The test prints the result of seven comparisons without asserting any.",
     ["src/antenna.hpp", "src/antenna.cpp"],
     [("comparison", "ReceiverAntenna::is_same / compare_model / compare_serial")], GENERIC)

prop("C06", "Satellite and satellite-antenna identity and text form",
     "A satellite antenna stores the first 20 characters of its name and is the same as a text exactly when the first 20 characters agree. A satellite keeps the system, number, vehicle number, antenna and COSPAR id it was given, through copies; its short text is the system letter and the number in at least two digits, its long text adds the vehicle number in at least three digits and the COSPAR id (YYYY-XXXA), nothing being made up for an absent id.",
     ["inputs"], "all antenna names, satellites numbered 0-220 of all systems, vehicle numbers 0-999, with and without COSPAR id",
     "No test calls any of this.",
     ["src/antenna.cpp", "src/satellite.hpp", "src/satellite.cpp"],
     [("antenna", "SatelliteAntenna::copy_from_cstr / is_same"),
      ("text", "Satellite::to_string")], GENERIC)

prop("C07", "Fixed-column text helpers follow their documentation",
     "Right-trimming (up to the first blank, or without the trailing blanks), left-trimming and the all-blank test return exactly the documented substring and position for every text and every optional stop column, never reading outside the text. A line of fixed-width numbers is resolved column by column: every field gives exactly its own number even when it fills its columns, and a blank, non-numeric (also in part) or missing field is reported as failure. Fortran exponents D/d become E and nothing else changes; two-digit years 80-99 mean 1980-1999 and 00-79 mean 2000-2079.",
     ["inputs"], "all texts, stop columns, numbers of fields and field widths",
     "No test calls these helpers; the parsers that do are tested by eye only.",
     ["src/nvarstr.hpp", "src/nvarstr.cpp", "src/rinex.hpp"],
     [("trimming", "rtrim, ltrim, string_is_empty"),
      ("numbers", "__char2double__, __for2cpp__"),
      ("years", "four2two_digit_year")], GENERIC)

prop("C08", "ANTEX header acceptance and rebinding of an ANTEX object",
     "An ANTEX object binds to a file exactly when it can be opened, its version (columns 1-15 of line 1) is 1.3 or 1.4, column 21 holds a satellite-system letter, line 2 starts with 'A' (absolute) and END OF HEADER follows within about a thousand lines; any other file is refused with std::runtime_error, whether through the constructor or reset_to_file. However often an object is reset, moved or fails to bind, afterwards it answers exactly from the file it was last bound to, and an unbound object finds nothing.",
     ["inputs", "histories"], "all headers; all sequences of reset, move construction/assignment and failed binding",
     "No test opens an ANTEX file without the (absent) ggdatetime library and network data.",
     ["src/antex.hpp", "src/antex.cpp"],
     [("header", "Antex::read_header"), ("binding", "Antex::Antex(const char*), Antex::reset_to_file, move operations")], GENERIC)

prop("C09", "ANTEX receiver antenna lookup: own calibration first, type mean otherwise",
     "Asked for the offsets of a receiver antenna, an ANTEX file yields those of the block with the same model, radome and serial number if there is one, otherwise those of the block with the same model and radome but no serial number; never those of another antenna or of another individual's calibration. If the serial number must match and only the type mean exists the status is 10, if neither exists it is another positive status, and in both cases the offset list is empty. The answer does not depend on the order of blocks, on what lies between them or on earlier queries.",
     ["inputs", "histories"], "all ANTEX files with distinct receiver antennas, all antennas asked for, all query sequences",
     "Tests cannot sample the combinations of shared prefixes, order and preceding queries.",
     ["src/antex.cpp", "src/antenna.cpp"],
     [("search", "Antex::find_closest_antenna_match"), ("block scanning", "Antex::read_next_antenna_type / skip_rest_of_antenna"),
      ("query", "Antex::get_antenna_pco(const ReceiverAntenna&, ...)")], GENERIC)

prop("C10", "ANTEX satellite antenna lookup by system, number and epoch",
     "Asked for a satellite at an epoch, an ANTEX file yields the block of exactly that system and number whose validity interval (VALID FROM to VALID UNTIL, both inclusive, no VALID UNTIL meaning for ever) contains the epoch to the second: its antenna type, vehicle number and COSPAR id (when the block gives them; nothing from other blocks) and its offsets. If no block of that satellite is valid then, the status is positive and the offset list empty. Order of blocks and earlier queries do not matter.",
     ["inputs", "histories"], "all ANTEX files, satellites and epochs, in particular the first and last second of an interval and re-used numbers",
     "Tests would have to enumerate interval edges and re-assigned PRNs.",
     ["src/antex.cpp"],
     [("search", "Antex::find_satellite_antenna"), ("validity", "check_time_interval"),
      ("identity", "resolve_satellite_antenna_line"), ("query", "Antex::get_antenna_pco(int, ...), Antex::get_satellite_info")], GENERIC)

prop("C11", "ANTEX phase centre offsets are read completely and exactly",
     "The offsets returned for an antenna are one entry per START OF FREQUENCY block, in file order, with its satellite system, frequency number and north/east/up values exactly as written in their ten columns, whatever the number of frequencies, the size of the grids and the presence of RMS blocks, comments or further records.",
     ["inputs"], "all antenna blocks of any number of frequencies, full-width numbers, grids up to 511 characters per line",
     "Needs values that fill their columns, RMS blocks and long grids, none of which tests have.",
     ["src/antex.cpp", "src/antenna_pcv.hpp"],
     [("offsets", "collect_pco"), ("list", "AntennaPcoList")], GENERIC)

prop("C26", "The positioning filter computes the extended-Kalman recursion",
     "The five-state filter Kalman<5> (position, receiver clock offset in metres, clock drift) follows, through any number of epochs and any number of satellites per epoch, the extended Kalman recursion of its model: the state is propagated with clock += dt times drift; before the first update the variances are 50 m squared for position and clock and 30 for the drift; the process noise 0.0114, 0.0019 and 0.0039 is added to the clock block; each pseudorange plus satellite clock times c is compared with geometric range plus clock offset, linearised at the propagated state; with weights the measurement variance is 100 + weight, and the coefficient given at construction scales the rows of the design matrix and the satellite clocks. State and standard deviations printed agree with that recursion, variances stay non-negative, and the inputs are left as they were.",
     ["inputs", "histories"], "all well-conditioned geometries and sequences of updates up to the sizes generated",
     "No test instantiates the filter at all.",
     ["src/gauss_newton.hpp"],
     [("filter", "Kalman<5>::update"), ("geometry", "compute_pseudorange_vector, evaluate_jacobian"), ("result", "Kalman<5>::print_state")], GENERIC)

prop("C27", "Damaged ANTEX files never crash, hang, corrupt memory or invent antennas",
     "Whatever the contents of a file, binding an ANTEX object to it either succeeds or throws std::runtime_error, and every query terminates with a status; no memory is read or written out of bounds or before initialisation and no exception escapes. A query only succeeds for an antenna that a TYPE / SERIAL NO line of the file names; a block with an unreadable validity, satellite number, number of frequencies, frequency code or offset, with a missing label or with fewer frequencies than announced never answers, while the intact blocks beside it do; repeating a query gives the same answer, and the object works normally once bound to an intact file.",
     ["inputs", "fault_sequences"], "all file contents (truncated, shifted, missing, repeated or garbage lines, over-long lines)",
     "Malformed input is unbounded; a test samples none of it.",
     ["src/antex.cpp"],
     [("header", "Antex::read_header"), ("blocks", "read_next_antenna_type, skip_rest_of_antenna, collect_pco, check_time_interval, resolve_satellite_antenna_line")],
     GENERIC, "coverage-guided fuzzing of structured, damaged files with history oracle")

prop("C12", "Navigation messages are decoded exactly as written",
     "A RINEX 3 navigation file is accepted exactly when its version can be read, column 21 is N, column 41 is a satellite-system letter and END OF HEADER follows within about a thousand lines; otherwise std::runtime_error is thrown. Reading it yields its messages one after another: satellite system, number (two columns, zero-padded or not), time of clock and every number of the message as written (any exponent letter, fields that fill their columns, Fortran style, blank spare fields), GLONASS state vectors converted from km to m. The time of ephemeris is the date of the week and seconds of week in the message (BeiDou weeks counted from GPS week 1356; for GLONASS the seconds of week of the message frame in the week nearest to the time of clock). Results do not depend on what the frame held or errno was before.",
     ["inputs"], "all messages of the seven systems with all representable numbers; all headers",
     "No test reads a navigation file.",
     ["src/navrnx.hpp", "src/navrnx.cpp"],
     [("message", "NavDataFrame::set_from_rnx3"), ("header", "NavigationRnx::read_header"),
      ("time of ephemeris", "gps_toe2date, bds_toe2date, glo_toe2date"),
      ("sequence", "NavigationRnx::read_next_record")],
     GENERIC + " Spare fields are not compared.")

prop("C13", "Navigation files: reading, peeking, skipping, searching and rewinding agree",
     "At any moment a navigation object stands before a message (or at the end). Reading yields that message and advances by one, peeking yields its satellite system without advancing, ignoring advances by one, searching for a system (and number, -1 for any) yields the first such message from there on and stands behind it; at the end each returns a negative status. Rewinding stands before the first message, rewinding to a position handed out by a search stands where that search began, also after the end was reached. Moving the object keeps all that.",
     ["inputs", "histories"], "all files and sequences of operations",
     "Interleavings of operations around the end of file are unbounded.",
     ["src/navrnx.hpp", "src/navrnx.cpp"],
     [("operations", "read_next_record, peak_satsys, ignore_next_block, find_next, rewind")], GENERIC,
     "model-based property testing of operation sequences against a cursor model")

prop("C14", "The navigation message selected for an epoch is valid for it",
     "Searching for the message of a satellite valid at an epoch yields the first one from the current position on that is of that satellite, healthy, and has the epoch within [ToC, ToC + fit interval) or, for GLONASS, [ToE - 15 min, ToE + 15 min). The search ends without a message at the end of the file or at a message of that satellite more than four hours ahead of the epoch, and reports that by a negative status. Limits are exact to the time unit used; rewinding to the returned position undoes the search.",
     ["inputs", "histories"], "all files, satellites and epochs in seconds, milliseconds and microseconds, in particular epochs at the limits",
     "Interval edges, unhealthy messages and interleaved satellites are not in any test.",
     ["src/navrnx.hpp"],
     [("selection", "NavigationRnx::find_next_valid"), ("health, fit interval", "NavDataFrame::sv_health, fit_interval")],
     GENERIC)

prop("C15", "GPS, Galileo and BeiDou positions follow from the broadcast elements",
     "For every realistic set of broadcast elements the earth-fixed position computed for an epoch up to half a week from the time of ephemeris is that of the user algorithm of the system's interface document with its constants (for BeiDou geostationary satellites, numbers 1-5 and from 59 on, the one with the inclined frame), to 20 micrometres, also across midnight and the week boundary and whatever the time unit of the epoch.",
     ["inputs"], "all realistic elements, eccentricities up to 0.5, epochs up to 3.4 days from ToE",
     "No test computes a position; day and week boundaries are rarely sampled.",
     ["src/navrnx.hpp", "src/gpsnav.cpp", "src/galnav.cpp", "src/bdsnav.cpp", "src/satsys.hpp"],
     [("orbit", "NavDataFrame::kepler2state"), ("time", "NavDataFrame::ref2toe")],
     GENERIC, "differential property testing against an independent long-double implementation")

prop("C16", "Satellite clock offsets follow from the broadcast polynomial and relativity",
     "For GPS, Galileo and BeiDou the clock offset at an epoch is a0 + a1 dt + a2 dt^2 with dt counted from the time of clock, plus the relativistic term F e sqrt(A) sin E at that epoch with the system's F; for GLONASS it is -TauN + GammaN dt with the numbers as stored in RINEX and dt counted from the time of ephemeris. Agreement is to 2e-16 s, also when time of clock and time of ephemeris differ or lie on different days.",
     ["inputs"], "all realistic clock and orbit elements, ToC up to two hours from ToE",
     "No test computes a clock offset.",
     ["src/navrnx.hpp", "src/glonav.cpp"],
     [("clock", "NavDataFrame::sv_clock, glo_clock"), ("time", "NavDataFrame::ref2toc")],
     GENERIC, "differential property testing against an independent long-double implementation")

prop("C17", "GLONASS states follow from integrating the broadcast initial conditions",
     "For every realistic GLONASS message the earth-fixed (PZ-90) position and velocity at an epoch within 15 minutes of the time of ephemeris are the solution of the equations of motion of the interface document (central force, J2, rotation, luni-solar accelerations of the message) to 5 mm and 5 micrometres/s, forwards and backwards, on and off full minutes and across midnight. Farther away the status is -1 although the state is still computed (beyond an hour to an accuracy that falls off with the square of the time).",
     ["inputs"], "all realistic states, epochs up to ten hours from ToE",
     "No test integrates an orbit.",
     ["src/glonav.cpp", "src/navrnx.hpp"],
     [("integration", "NavDataFrame::glo_ecef, glo_runge_kutta4, glo_state_deriv")],
     GENERIC, "differential property testing against an independent long-double implementation")

prop("C18", "Health, fit interval, accuracy and issue of data of a navigation message",
     "Of a message read from a file: the health is the number stored for it; the fit interval is that of the message (in hours) for GPS, four hours for Galileo and BeiDou and 15 minutes for GLONASS; the GPS URA index 0-15 held in the frame gives the metres of the interface document; the Galileo SISA and issue of data are the numbers stored; ToC and ToE are the same in every time unit, and the seconds of an epoch since the start of the day of ToE or ToC are exact. For the systems without such support (QZSS, IRNSS, SBAS) health, fit interval, ToE and state throw std::runtime_error.",
     ["inputs"], "all messages; all health values, fit intervals, URA indices",
     "No test reads a message.",
     ["src/navrnx.hpp", "src/gpsnav.cpp", "src/galnav.cpp"],
     [("scalars", "sv_health, fit_interval, gps_ura, gal_sisa, gal_iod_nav, toe2date, ref2toe, ref2toc")], GENERIC)

prop("C28", "Damaged navigation files never crash, hang, corrupt memory or invent messages",
     "Whatever the contents of a file, constructing a navigation object either succeeds or throws std::runtime_error (always, if the version, the file type, the system letter or END OF HEADER are not in place), every operation on it terminates with a status, and reading on reaches an end after at most as many reads as the file has lines; no memory is read or written out of bounds or before initialisation and no exception escapes. A message is only read for a satellite that a line of the file names; a message of no system, or with a blank or unreadable number (other than spares) or part of its epoch, gives a positive status, those before it are delivered; rewinding and reading again gives the same results, and the object works normally once assigned an intact file.",
     ["inputs", "fault_sequences"], "all file contents (truncated, shifted, missing, repeated or garbage lines, over-long lines)",
     "Malformed input is unbounded; a test samples none of it.",
     ["src/navrnx.cpp", "src/navrnx.hpp", "src/nvarstr.hpp"],
     [("messages", "NavDataFrame::set_from_rnx3"), ("searching", "find_next, find_next_valid, ignore_next_block")],
     GENERIC, "coverage-guided fuzzing of structured, damaged files with history oracle")

prop("C19", "Observation RINEX headers are understood completely",
     "A RINEX 3 observation file is accepted exactly when its version can be read, column 21 is O, column 41 is a satellite-system letter, END OF HEADER follows within about a thousand lines and the records it uses can be interpreted (known systems, each only once, with as many known observation types as announced; coordinates and date that are ones); otherwise std::runtime_error is thrown. The object then holds version, system, marker name and number, receiver number and type, antenna with radome and serial number, approximate position, eccentricities, time of first observation, receiver-clock flag and the observation types of every system exactly as written, whatever the order of records, blanks within names, width of numbers and number of types.",
     ["inputs"], "all headers of up to about a thousand lines; all numbers of types per system",
     "No test reads an observation file.",
     ["src/obsrnx.cpp", "src/obsrnx.hpp"],
     [("header", "ObservationRnx::read_header"), ("types", "ObservationRnx::__resolve_obstypes_304__"),
      ("what is held", "print_members, x_approx, y_approx, z_approx, time_of_first_obs, max_obs")], GENERIC)

prop("C20", "Observations and their combinations are collected exactly",
     "For every satellite of an epoch whose system was asked for, in the order of the file, the values collected are, for each observable asked for, the sum over its parts of coefficient times the number in the fourteen columns of that observation; it is -999.99 exactly when a part is blank or behind the end of the line. Loss-of-lock and signal-strength digits never become part of a number, and trailing blanks may be present or not. A single field gives its number (-999.99 if blank) and both indicators (0 if blank).",
     ["inputs"], "all files, epochs of up to 80 satellites, all observables asked for",
     "No test reads an observation file; numbers that touch the indicators differ only in the fourth decimal.",
     ["src/obsrnx.cpp"],
     [("values", "ObservationRnx::sat_epoch_collect, collect_epoch"), ("field", "RawRnxObs__::resolve"),
      ("room", "initialize_epoch_vector")], GENERIC)

prop("C21", "Observation epochs are read one after another, events skipped",
     "Reading an observation file yields its epochs (flags 0 and 1) one after another with the date, seconds of day and satellites written, special events (flags 2 to 6) and the records that belong to them being passed over; then -1, also if the last line has no newline and however often it is asked. Rewinding starts again from the first epoch at any time, and moving the object (also onto another one) changes nothing.",
     ["inputs", "histories"], "all files and sequences of read, rewind and move operations",
     "Histories with events, end of file and moves are unbounded.",
     ["src/obsrnx.cpp", "src/obsrnx.hpp"],
     [("epochs", "ObservationRnx::read_next_epoch, __resolve_epoch_304__"), ("rewinding", "ObservationRnx::rewind")],
     GENERIC, "model-based property testing of operation sequences against a cursor model")

prop("C29", "Damaged observation files never crash, hang, corrupt memory or invent satellites",
     "Whatever the contents of a file, constructing an observation object either succeeds or throws std::runtime_error (always, if the version, the file type, the system letter or END OF HEADER are not in place), every operation on it terminates with a status, and reading on reaches an end after at most as many reads as the file has lines; no memory is read or written out of bounds or before initialisation and no exception escapes. A satellite is only collected if a line of the file begins with it; an epoch with a line that does not begin with '>' or ends within its date or number of satellites, or with an unreadable date, number of satellites, system letter, satellite number or wanted observation gives a positive status, those before it are delivered; rewinding and reading again gives the same results, and the object works normally once assigned an intact file.",
     ["inputs", "fault_sequences"], "all file contents (truncated, shifted, missing, repeated or garbage lines, over-long lines)",
     "Malformed input is unbounded; a test samples none of it.",
     ["src/obsrnx.cpp"],
     [("header", "ObservationRnx::read_header, __resolve_obstypes_304__"),
      ("epochs", "__resolve_epoch_304__, collect_epoch, sat_epoch_collect, read_next_epoch")],
     GENERIC, "coverage-guided fuzzing of structured, damaged files with history oracle")

prop("C32", "The read map gives the columns of the observables asked for",
     "For a request of observables per satellite system the read map lists, per system and in the order of the request, the column and coefficient of every part of every observable, columns counted as in the header. If an observable is not in the file (system or type) the map is empty, or, if missing ones are to be skipped, it lists the others and the request is reduced to them. An observable of another system than the one it is listed under, or of several systems, is refused with an empty map. The epoch vector for a map has room for 80 satellites and all observables of any of its systems, all values being -999.99.",
     ["inputs"], "all headers and requests",
     "No test asserts anything about read maps.",
     ["src/obsrnx.cpp"],
     [("map", "ObservationRnx::set_read_map, obs_getter"), ("vector", "ObservationRnx::initialize_epoch_vector")], GENERIC)

prop("C22", "SP3 header: contents and acceptance",
     "Constructing an orbit object from an SP3-c or SP3-d file whose header is in order (version letter, start epoch, GPS week and second, MJD and fraction agreeing, satellite, accuracy, %c, %f, %i and comment lines in sequence) yields exactly the version, start epoch (to the microsecond), number of epochs, coordinate system, orbit type, agency (all four characters), time system, interval and number of satellites written, and leaves the stream before the first epoch. A header of another version, with an unreadable or impossible date or time, with start epochs that contradict each other, without epochs or satellites, or with a missing or mislabelled line is refused with std::runtime_error, as is a missing file.",
     ["inputs"], "all headers of 1-999 satellites, starts on any 10 ns, any interval, any number of comments; all single contradictions",
     "No test opens an SP3 file without network data; fractional starts, 15-decimal seconds and five-line limits are never sampled.",
     ["src/sp3c.cpp", "src/sp3c.hpp"],
     [("header", "Sp3c::read_header"), ("observables", "Sp3c::interval, num_sats, allocate_epoch_vector, print_members")], GENERIC)

prop("C23", "SP3 epochs are delivered one after another, completely",
     "Reading an SP3 file yields its epochs in order, each with its time (nearest microsecond) and its satellites in the order of the file with coordinates in metres (the kilometres of the file times 1000) and clock in microseconds, velocity and correlation lines passed over. The status is 0, or -1 together with the last epoch, then positive. Rewinding starts again from the first epoch at any time, and moving the object (also onto another one) changes nothing.",
     ["inputs", "histories"], "all files and sequences of read, rewind and move operations",
     "Histories with end of file, rewinding and moves are unbounded; no test reads a coordinate.",
     ["src/sp3c.cpp", "src/sp3c.hpp"],
     [("epochs", "Sp3c::get_next_epoch"), ("records", "Sp3c::get_next_position"), ("rewinding", "Sp3c::rewind")],
     GENERIC, "model-based property testing of operation sequences against a cursor model")

prop("C24", "SP3 record flags say exactly what the record's columns say",
     "The flags of a record are set exactly as follows, whatever was read before: absent position if any coordinate is zero, absent clock if the clock is 999999 or more, clock event for E in column 75, clock prediction for P in column 76, maneuver for M in column 79, orbit prediction for P in column 80 (columns behind the end of a line being blank). Setting, clearing, resetting and copying flags affects only the flags concerned.",
     ["inputs", "histories"], "all combinations of marks, borderline values and line lengths; all sequences of flag operations",
     "No test looks at a flag.",
     ["src/sp3c.cpp", "src/sp3c.hpp"],
     [("flags", "Sp3c::get_next_position"), ("flag set", "Sp3Flag")], GENERIC)

prop("C30", "Damaged SP3 files never crash, hang, corrupt memory or invent satellites",
     "Whatever the contents of a file, constructing an orbit object either succeeds or throws std::runtime_error (always, if one of the lines of its header is missing or mislabelled), every read terminates with a status, and reading on reaches an end after at most as many reads as the file has lines; no memory is read or written out of bounds or before initialisation and no exception escapes. A satellite is only collected if a position line of the file names it, its values are finite; an epoch with a blank or unreadable part of its date, a date or time of day that does not exist, an unreadable system letter, satellite number, coordinate or clock gives a positive status, those before it are delivered; rewinding and reading again gives the same results, and the object works normally once assigned an intact file.",
     ["inputs", "fault_sequences"], "all file contents (truncated, shifted, missing, repeated or garbage lines, over-long lines, missing EOF, more satellites than announced)",
     "Malformed input is unbounded; a test samples none of it.",
     ["src/sp3c.cpp"],
     [("header", "Sp3c::read_header"), ("epochs", "Sp3c::get_next_epoch, get_next_position")],
     GENERIC, "coverage-guided fuzzing of structured, damaged files with history oracle")

prop("C25", "GLONASS frequency channel lookup in a SATELLIT file",
     "Asked for a vehicle number and an epoch, a Bernese SATELLIT file yields the frequency channel and satellite number of the first microwave sensor record of PART 2 with that vehicle number whose span [start, end) contains the epoch, a blank end meaning for ever; -1 if there is none. Records of other sensor types and lines outside PART 2 never answer, and the answer does not depend on the length of the signal list, on earlier queries, on how the file ends or on moves of the object. A file whose first line, PART 2 title or column headings differ is refused with std::runtime_error, as is a missing file.",
     ["inputs", "histories"], "all files and query sequences, epochs on and next to both ends of spans",
     "The test prints two epochs of a file that is not part of the repository.",
     ["src/bern_utils.cpp", "src/bern_utils.hpp"],
     [("lookup", "BernSatellit::get_frequency_channel"), ("header", "BernSatellit::initialize")], GENERIC)

prop("C31", "Damaged SATELLIT files never crash, hang, corrupt memory or invent satellites",
     "Whatever the contents of a file, constructing a SATELLIT object either succeeds or throws std::runtime_error (always, if the first line, the title of PART 2 or its column headings are not in place), and every query terminates with a status; no memory is read or written out of bounds or before initialisation and no exception escapes. A vehicle is only found if a microwave record of the file has its number; a record with an unreadable vehicle number, start or end of span never answers; the same query always has the same answer, and the object works normally once assigned an intact file.",
     ["inputs", "fault_sequences"], "all file contents (truncated, shifted, missing, repeated or garbage lines, over-long lines)",
     "Malformed input is unbounded; a test samples none of it.",
     ["src/bern_utils.cpp"],
     [("header", "BernSatellit::initialize"), ("records", "BernSatellit::get_frequency_channel")],
     GENERIC, "coverage-guided fuzzing of structured, damaged files with history oracle")

prop("C33", "sp3py extracts exactly the records of the asked-for satellite",
     "Asked for a satellite, the script var/sp3py.py prints a heading with the coordinate and time system of an SP3-c or SP3-d file and then, for each position record of that satellite in the order of the file, the epoch in quotes (to the second) and the three coordinates and the clock of its columns with six decimals, and nothing else; epochs without the satellite (or without any) are passed over, and status is 0. A file it cannot extract from (another version, fractional seconds in an epoch, no end-of-file line, numbers that are none, lines that belong nowhere, no such file) makes it end with an error status.",
     ["inputs"], "all SP3 files of whole-second epochs with position records; all satellites",
     "No test runs the script.",
     ["var/sp3py.py"],
     [("header", "Sp3.__init__, count_header_lines"), ("records", "read_satellite_records")], GENERIC)

prop("C34", "pasteoncol joins two files on their first column",
     "Given two files, the script var/pasteoncol.py takes the one with more lines that count (the second, if they have equally many) and prints, for each of its lines in order, that line followed by the first line of the other file whose first column is the same, columns separated by single blanks; lines without a match are left out. A pair of words in quotes is one column; empty, blank and comment lines do not count. If one of the files is missing nothing is printed and the status is 1.",
     ["inputs"], "all pairs of files of plain and quoted columns",
     "No test runs the script.",
     ["var/pasteoncol.py"],
     [("columns", "mysplit"), ("join", "the loop over the lines")], GENERIC)

prop("C35", "Objects are independent of each other, in any schedule and thread",
     "Reader objects (ANTEX, navigation, observation, SP3, SATELLIT, also several of one file), navigation frames, satellites, antennas, observation codes and observables share no state: however the operations of several objects are interleaved with each other, with construction and destruction of others and with errno set by unrelated code, and also when each object is used in a thread of its own at the same time, every operation gives exactly the status and values it gives when its object is used alone, and no data race occurs.",
     ["inputs", "histories", "schedules"], "all sets of objects, scripts of operations on them and interleavings of these; concurrent use of different objects",
     "Every test uses one object in one thread.",
     ["src/antex.cpp", "src/navrnx.cpp", "src/obsrnx.cpp", "src/sp3c.cpp", "src/bern_utils.cpp", "src/gnssobsrv.hpp"],
     [("readers", "the member functions of Antex, NavigationRnx, ObservationRnx, Sp3c, BernSatellit"),
      ("value types", "NavDataFrame, Satellite, ReceiverAntenna, ObservationCode, GnssObservable")],
     GENERIC, "model-based random interleavings of operation scripts and threads under ThreadSanitizer")

prop("C36", "The SP3 interpolation window is filled from the start of the file",
     "An interpolator for SEC seconds built on an SP3 file (LagrangeSp3Interpolator<SEC>) needs the first K+1 epochs, K = 2 SEC / interval (rounded down) + 1. Initialising it, once or repeatedly and whatever was read of the file before, reads exactly these from the first epoch on: the status is 0 if the file has more, and the epoch the file delivers next is the one behind them; with fewer epochs, or one among them that cannot be read, the status is not 0. Satellites may come and go from epoch to epoch, and be more than the header announces.",
     ["inputs", "histories"], "all SP3 files with intervals between SEC/15 and 4 SEC, all reads before, repeated initialisation",
     "No test builds an interpolator (the only use is commented out).",
     ["src/sp3c.hpp"],
     [("window", "LagrangeSp3Interpolator::initialize")], GENERIC, "model-based property testing under sanitizers")
