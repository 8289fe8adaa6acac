S = [
("C01 observation codes", "C01.cpp",
"Random code strings (letter, band, attribute absent, blank or present, trailing text) and invalid ones.",
"The three components drawn; printing and re-reading (round trip); equality of pairs differing in 0-3 components.",
"All 256 type letters, bands 0-9, printable attributes."),
("C02 systems, frequencies, attributes", "C02.cpp",
"Letters (all 256), (system, band) dense around the valid ones, (system, band, attribute).",
"Tables transcribed by hand from RINEX 3.02 and the interface documents, kept apart from the code's.",
"The whole space of letters, bands -3..15 and attributes is drawn many times over in every run."),
("C03 observables", "C03.cpp",
"Combinations of 1-6 coded observations; pairs made by shuffling, replacing, duplicating, appending and nudging coefficients by a few ulp.",
"Histories of adding, replacing, erasing parts and copying. Parts as drawn; frequency as the sum in the harness; text assembled in the harness; equality as comparison of sorted multisets.",
"An observable that lost all its parts has no text: histories keep at least one part."),
("C04 receiver antenna names", "C04.cpp",
"Model 0-15 characters, radome none/1-4, with or without padding and text after column 20; up to three serials of 0-26 characters.",
"Canonical 20+20 columns assembled in the harness.", "Exactly sized heap texts (ASan sees any over-read)."),
("C05 receiver antenna comparison", "C05.cpp",
"Pairs, the second a mutation of the first in 0-2 places; serials against near misses.",
"Comparison of the canonical strings; symmetry; copies.", "Serials differing in trailing blanks only are the same (fixed columns)."),
("C06 satellites", "C06.cpp",
"Names of 0-25 characters and mutations; satellites with all fields.",
"Own formatting; own comparison of 20 characters.", ""),
("C07 text helpers", "C07.cpp",
"Texts with blanks, stop columns, D exponents; lines of 1-4 numbers in 8/14/19 columns (full width, blank, junk, missing).",
"Documented substring; strtod of the isolated column text; the two-digit-year rule.", "Exactly sized heap blocks."),
("C08 ANTEX headers, rebinding", "C08.cpp",
"Headers acceptable or not for one reason; histories of reset, move, failed reset, and queries over three files and an absent one.",
"Acceptance predicate on the model; a model of which file the object is bound to.", ""),
("C09 ANTEX receiver lookup", "C09.cpp",
"Files of up to 6 receiver blocks sharing models, radomes and serial prefixes (also right-justified serials), satellite blocks between; 1-4 queries on one object, satellite queries between; also files of up to 700 blocks or of blocks of up to 4000 lines; offset lists reused or fresh.",
"Search over the model's blocks (own serial first, then type mean).", "Distinct (name, serial) per file; blocks below the reader's 5000 lines."),
("C10 ANTEX satellite lookup", "C10.cpp",
"Blocks with disjoint validity intervals, adjacent to the second or open-ended, SVN/COSPAR present or not; epochs on, beside and away from the limits; the long files of C09.",
"Search over the model with both limits inclusive to the second; all fields of the satellite from that block only.", "Validity intervals of one satellite do not overlap."),
("C11 ANTEX offsets", "C11.cpp",
"1-20 frequencies, full-width numbers, RMS blocks, grids up to 511 characters per line; several antennas into one list or several.",
"strtod of each ten columns; order; count.", ""),
("C12 navigation messages", "C12.cpp",
"1-5 messages of all seven systems with arbitrary numbers (exponent letters, full width, Fortran style, blank spares), frames reused, errno arbitrary; headers with and without a defect.",
"Every field by strtod of its column text; ToE by own calendar; acceptance predicate.", "Spare fields are not compared."),
("C13 navigation file histories", "C13.cpp",
"1-14 operations (read, peek, ignore, find, rewind to start or mark, move) over 0-8 messages; searches over up to 7000 messages.",
"Cursor model.", ""),
("C14 message selection", "C14.cpp",
"1-8 messages, healthy or not, various fit intervals; epochs at, one unit beside and away from every limit, in three time units; selection behind up to 7000 others.",
"Selection rule evaluated on the model in integer time units, plus the position after the search.", ""),
("C15 Keplerian positions", "C15.cpp",
"Realistic elements (e up to 0.5, BeiDou GEO included), epochs up to 3.5 days from ToE, three time units, across midnight and week.",
"User algorithm in long double with its own constants and own Kepler solver; 20 micrometres.", "An earlier version drew epochs beyond half a week, where the interface documents do not define the result: corrected."),
("C16 clock offsets", "C16.cpp",
"Polynomials and orbits, ToC and ToE up to two hours apart.", "long double polynomial plus relativity; 2e-16 s.", ""),
("C17 GLONASS states", "C17.cpp",
"Near-circular states with accelerations; epochs on and off full minutes, forwards and backwards, across midnight.",
"Independent long double RK4 with steps of at most 10 s; 5 mm and 5 um/s.", "The library's own step is 60 s; the tolerance is far above its truncation error and far below any mistake in the model of forces."),
("C18 health, fit, accuracy, IOD", "C18.cpp",
"Messages of all systems with every health (to nine bits), fit interval, URA index, SISA, IOD.", "The stored number or table entry.",
"`gps_ura` treats the stored number as an index although RINEX stores metres: the property says what the function documents, not what RINEX stores."),
("C19 observation headers", "C19.cpp",
"Records in any order, names with blanks or full width or right-justified, full-width numbers, 1-5 systems of 1-28 types (often 13/26); one of eleven defects or none.",
"Model against accessors and `print_members`; acceptance predicate.", ""),
("C20 observations", "C20.cpp",
"1-3 epochs of up to 80 satellites of up to 28 types, all mixes of blanks and indicators; random combinations.",
"Sum over strtod of the 14 columns; missing rule.", "-999.990 itself is not written as an observation."),
("C21 observation epochs", "C21.cpp", "0-7 epochs and events, 1-16 read/rewind/move operations.", "Cursor model.", ""),
("C22 SP3 headers", "C22.cpp", "SP3-c/d headers (1-180 satellites, any 10 ns, up to 900 comments) and headers with one thing wrong.",
"Model against accessors and `print_members`; refusal expected.", "The last epoch is delivered with status -1 (documented): part of the property."),
("C23 SP3 epochs", "C23.cpp", "1-6 epochs, velocity and correlation lines between, 1-16 read/rewind/move operations; rewinding to any epoch or byte.", "Cursor model.", ""),
("C24 SP3 flags", "C24.cpp", "Random marks in columns 75-80, borderline values, cut lines; sequences of flag operations.", "Column rule; a std::set.", "Satellite letter L (LEO) of SP3 is not known to the library: not generated."),
("C25 SATELLIT lookup", "C25.cpp", "0-8 records (several spans per vehicle, other sensor types, long signal lists, PART 3), files of up to 900 records, moves; titles with one thing wrong.",
"Search over the model, spans half-open.", "Lines of PART 1 longer than 255 characters are refused by the reader; an early generator wrote such lines, corrected."),
("C26 positioning filter", "C26.cpp", "Receiver, initial state, coefficient, 1-8 updates with 1-14 satellites, weights or none, time steps.",
"Extended Kalman recursion in long double with own linear algebra, compared through the printed state; permutation of satellites must not matter.",
"Numerically singular innovation covariances (no weights, poor geometry) are not compared."),
("C27-C31 damaged files", "C27.cpp", "Valid files damaged in 1-12 ways (fields, characters, cuts, lost, repeated, exchanged, lengthened lines, shifted columns, CRLF, truncation) under coverage guidance; plus headers with one decisive thing wrong, files of several records (messages, epochs, blocks) of which one has one decisive field made unreadable (the subs named broken), and, for C29, satellite numbers that are none.",
"No sanitizer report, no escape, termination within a bounded number of calls; only what a line of the file names may be found; headers that cannot be one are refused, readable ones (C28) are not; the same after rewinding; the object then works on the intact file.",
"Branch coverage guidance reaches the error paths one by one; a unit test samples none of the space."),
("C32 read map", "C32.cpp", "Headers and requests of 0-4 systems, observables present, missing, of another or several systems.", "Columns and coefficients from the model.", ""),
("C33 sp3py", "C33.cpp", "SP3-c/d files of 1-6 whole-second epochs (also empty ones, satellites coming and going, velocity and correlation lines between), 1-3 extractions each with options in any form; files with one thing that cannot be extracted.",
"The whole expected output, character by character, from the model; an error status.", "Run in a persistent interpreter (harness/pyserver.py) that executes the script afresh for every case."),
("C34 pasteoncol", "C34.cpp", "Pairs of texts of up to seven lines: plain and quoted columns, blanks anywhere, comments, blank lines, repeated and missing keys, no final newline.",
"The whole expected output from a join over the model.", ""),
("C35 independence", "C35.cpp", "Two to four objects with scripts of up to ten operations each (two fifths on the same file as the one before): alone, in a random interleaving with errno set at random in between, and one thread per object.",
"The results of each object used alone; ThreadSanitizer.", "Built with -fsanitize=thread (without it where that cannot start: then only the comparison decides)."),
("C36 interpolation window", "C36.cpp", "SP3 files of 1-36 epochs of up to eight satellites that come and go (also more than the header announces), intervals of a thirtieth of the window to twice it (also fractions of a second), files with fewer, just enough or more epochs than the window needs or with one that cannot be read; epochs read before, the window filled once or twice.",
"The status, and the epoch the file delivers next, from the model; the sanitizers.", "The interpolator has no accessors (and no interpolation yet), so what it holds is judged by what it has consumed and by memory safety."),
]
