"""Single source of properties.jsonl and MANIFEST.json: python tools/props.py rewrites both."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mechanism=mechanism, technique=technique, observe=observe or [],
                  state=state or []))


prop("C01", "What is saved to SDDS is what is read back", """
Parameters and columns saved to an SDDS file, in text or binary mode, are read back with the same names, order, number
of rows and exactly the same values (doubles bit for bit including nan, infinities and -0.0; 16- and 32-bit integers;
strings, also outside of ASCII), whatever mix of types, number of rows (zero included) and kind of array or scalar holds the data.
Saving any number of times, in any mode, in between adding columns and parameters always writes exactly what was added
so far, and never changes the caller's data. The result does not depend on whether the file is read buffered or not.""",
     ["inputs", "histories"], """all combinations of up to two parameter and two (thorough: three) column types x mode x
reading strategy x rows; extreme values in every position; every sequence of four (thorough: five) create/save
operations on one writer""",
     """The tests write one fixed file with two columns of doubles and only check that files can be opened; no test reads a
written binary file back, and none mixes types.""",
     ["rsbeams/rsdata/SDDS.py"], [("writeSDDS", "rsbeams/rsdata/SDDS.py"), ("readSDDS.read", "rsbeams/rsdata/SDDS.py")],
     "exhaustive enumeration of writer operation sequences and type/shape/value combinations on the real code, compared "
     "with the written data after reading back")

prop("C02", "SDDS header metadata survives writing and parsing", """
The type, units, symbol, description and format string of every parameter and column, and the fixed value of a parameter
(zero and strings with spaces, commas, quotes, backslashes or non-ASCII characters included), are reported by the reader exactly as they were given to the writer
or stand in the header of a file from another program. This holds for every subset of fields, in any order, on one or
several lines, with or without spaces after commas and with comments in between. Fields that are absent read as empty
(fixed value: None), and a fixed-value parameter takes no data from the file.""",
     ["inputs"], """all header texts of up to three signs and names of two; all choices of field texts, names, types, field order and header layout within two (thorough: three)
deviations from a plain header, for six entry lists, two modes, two reading strategies""",
     "The tests parse four literal headers and only compare the raw lines; no test checks a parsed or written field.",
     ["rsbeams/rsdata/SDDS.py", "rsbeams/rsdata/datatypes.py", "rsbeams/rsdata/utils.py"],
     [("Datum.parse_namelist", "rsbeams/rsdata/datatypes.py"), ("writeSDDS._write_header", "rsbeams/rsdata/SDDS.py"),
      ("_shlex_split", "rsbeams/rsdata/utils.py")],
     "deviation-bounded exhaustive enumeration of headers, written by the library or by an independent encoder, against "
     "the encoder's input")

prop("C03", "Every conforming SDDS file is decoded correctly", """
A file that follows the SDDS format (text with row counts, text with blank-line terminated pages, or little-endian
binary) yields exactly the parameter and column values of every page, in page order, for every mix of double, float,
long, short and string data, zero or more rows per page and any legal header layout, comments or trailing blank lines.
The row count itself never influences the decoding, and strings up to the declared maximum length are complete.
(Pages of one file have equal row counts; text strings are bare words.)""",
     ["inputs"], """all type combinations (one parameter, two columns; thorough two and two) x 1-3 pages x 0-3 rows x mode x
reading strategy; all blank-line terminated variants; layouts within four (thorough five) deviations; all spellings of numbers of five (six) signs; row counts
around byte boundaries up to 2816""",
     """The tests read eight sample files and compare with the external sdds2stream program, which is not installed, so
none of these comparisons runs; several only check that reading does not raise.""",
     ["rsbeams/rsdata/SDDS.py", "rsbeams/rsdata/struct_data.py", "rsbeams/rsdata/datatypes.py"],
     [("readSDDS.read", "rsbeams/rsdata/SDDS.py"), ("StructData", "rsbeams/rsdata/struct_data.py")],
     "bounded exhaustive enumeration of files from an independent SDDS encoder, decoded by the real reader and compared "
     "with the encoder's input")

prop("C04", "Reading selected SDDS pages gives exactly those pages", """
Reading with a selection of pages returns, for parameters and for columns, exactly the selected pages in file order with
the values they have in the file, whichever pages are passed over in between and however the selection is ordered or
repeated; pages beyond the end are ignored. Reading a whole file buffered or unbuffered gives identical data, types and
shapes. A reader can be asked any number of times, and each time returns just what it was asked for. All this holds in
text and binary mode, with and without strings and row counts.""",
     ["inputs", "histories"], """every non-empty subset of up to 3 (thorough: 5) pages x nine forms (list, tuple, array, reversed, repeated, beyond the end, set, generator, dictionary) x eight parameter/column
shapes x mode x reading strategy x rows x row count style; every sequence of up to three (thorough: four) reads with two readers""",
     "The tests select pages of one file in one way and compare with a program that is not installed.",
     ["rsbeams/rsdata/SDDS.py", "rsbeams/rsdata/struct_data.py"],
     [("readSDDS.read page loop", "rsbeams/rsdata/SDDS.py"), ("readSDDS._check_file_end", "rsbeams/rsdata/SDDS.py")],
     "exhaustive enumeration of page selections over bounded files, compared with the encoder's input; differential "
     "check of the two readers")

prop("C05", "A truncated SDDS file is never taken for a complete one", """
For a file cut off at any byte the reader terminates and either raises an error or returns only whole pages that are
completely in the file, with their correct values; a file that ends exactly after a page is read up to that page. In
particular it never hangs in a cut header and never returns a page with missing rows. (In text mode only the very last
token before the cut may be shortened.)""",
     ["crash_points", "inputs"], """every prefix of bounded files: six shapes, one to three pages, two modes, two header
layouts, two reading strategies""",
     "No test reads a damaged file; the cut point is universally quantified.",
     ["rsbeams/rsdata/SDDS.py", "rsbeams/rsdata/utils.py"],
     [("readSDDS._check_complete", "rsbeams/rsdata/SDDS.py"), ("_read_line", "rsbeams/rsdata/utils.py"),
      ("readSDDS._check_file_end", "rsbeams/rsdata/SDDS.py")],
     "exhaustive enumeration of every truncation point, with a hang detector, against the encoder's input")

prop("C06", "An SDDS save that fails is reported and harms nothing", """
When the disk fills up at any byte during a save, the save raises; it never returns normally with an incomplete file,
and the same writer can save again correctly afterwards. A save that is refused because columns have different lengths,
the mode is unknown or data does not fit its declared type leaves an existing file untouched and creates none; data
that does not fit is never saved as another value. A column or parameter definition of an
unknown type, or without exactly one of value and fixed value, is refused at once and does not become part of the file.""",
     ["crash_points", "fault_sequences", "inputs"], """a write error at every byte (files below 600 bytes; otherwise the
first 120, the last 40 and every 1024th, thorough every 64th) of four to five file shapes x mode x rows; all refused
saves of the alphabet over existing and absent targets""",
     "No test injects write errors or saves invalid data.",
     ["rsbeams/rsdata/SDDS.py"], [("writeSDDS.save_sdds", "rsbeams/rsdata/SDDS.py"),
                                  ("writeSDDS.create_column, create_parameter", "rsbeams/rsdata/SDDS.py")],
     "fault enumeration on the real code: a file size limit placed at every byte of the file being written")

prop("C07", "elegant phase space converts to and from particle data correctly", """
Reading an elegant file yields x, ux = x'*p, y, uy = y'*p, ct = c*t and p for every particle, and the bunch charge (zero
if the file has none), whatever the number of particles (one included), column order, additional columns or parameters,
and file mode. Writing stores the inverse conversion and the charge, leaves the particle data unchanged, and reading the
written file gives the original particles and charge back.""",
     ["inputs"], """0 to 64 (thorough: 2570) particles x five value sets x five column orders x additional columns and
parameters x charges (none, zero, scalar and array) x array layouts""",
     "The tests convert one sample file; writing is only checked to create a file, and reading back is never checked.",
     ["rsbeams/rsdata/switchyard.py", "rsbeams/rsptcls/species.py"],
     [("read_elegant", "rsbeams/rsdata/switchyard.py"), ("Switchyard.write_elegant", "rsbeams/rsdata/switchyard.py"),
      ("Species", "rsbeams/rsptcls/species.py")],
     "bounded exhaustive enumeration of files and bunches against the documented conversion, with independent encoder "
     "and decoder")

prop("C08", "OPAL reading selects the right step; OPAL and Genesis output is right", """
Reading an OPAL file returns the particles and the total charge (zero included) of the requested step, step 0 included,
or of the numerically last step if none is requested, whatever steps and other groups the file holds; a step that is not
there, or has no charge, is an error. OPAL text output is the number of particles followed by the six coordinates of
each; Genesis output states version, charge (if known), size and columns and lists x, ux, y, uy, the time relative to the bunch
average, and p. Writing never changes the particle data and replaces an existing file.""",
     ["inputs"], """all sets of up to three (thorough: four) stored steps of {0,1,2,9,10,11,100}, creation orders, all
requests, 0-3 particles, both charge attributes; all written bunches of 0-17 particles x value sets x layouts x charges""",
     "The tests read two files with default arguments and check that written files exist.",
     ["rsbeams/rsdata/switchyard.py"], [("read_opal", "rsbeams/rsdata/switchyard.py"),
                                       ("Switchyard.write_opal, write_genesis", "rsbeams/rsdata/switchyard.py")],
     "bounded exhaustive enumeration of stored/requested step sets and bunches against a reference")

prop("C09", "The species registry is exact under every sequence of reads and writes", """
A read registers the species under the given name (or the default name), a name that is already taken keeps its species,
and a failed read or write (unknown format, missing file, unknown code or species) raises and changes nothing. A write
without a name writes the first registered species, and with a name exactly that species. Registries are independent of
each other.""",
     ["histories"], """every sequence of three (thorough: four) operations on two registries out of nine operations with four
names and every write target, within four (thorough: six) deviations""",
     "The tests do one read and at most one write.",
     ["rsbeams/rsdata/switchyard.py"], [("Switchyard.read, write, _species_insert", "rsbeams/rsdata/switchyard.py")],
     "exhaustive exploration of operation histories of the real registry against a dictionary model",
     state=[("species", "name to particle data, in order of registration", "rsbeams/rsdata/switchyard.py")])

prop("C10", "A beamline keeps its elements in order and knows where they are", """
Whatever sequence of element and line insertions (new, repeated, nested, into a subline) and edits (by name or position,
one or several parameters, new ones included) builds a beamline, it lists exactly the inserted elements in order, its
length is the sum of the current element lengths, and each element's edge is the length before its first occurrence.
Repeated names are the same element, parameter names ignore case in every operation on the parameters (reading, setting,
updating, removing), each element refers to the top-level beamline, separate beamlines do not influence each other, and
length, edge and beamline cannot be assigned.""",
     ["histories"], "all sequences of four operations with up to two (thorough: three) deviations from the default "
     "arguments, full state compared with a tree model after every operation; all sequences of three (four) operations on "
     "an element's parameters out of ten with five keys; all of four (five) operations on two beamlines; all of five (six) steps with reused lines",
     "There is no test of this class; order, positions and aliasing depend on the history of insertions and edits.",
     ["rsbeams/rslattice/Beamline.py", "rsbeams/rslattice/Element.py"],
     [("StructuredBeamline", "rsbeams/rslattice/Beamline.py"), ("Element, AgnosticDict", "rsbeams/rslattice/Element.py")],
     "exhaustive enumeration of operation histories on the real objects, compared with a tree model after every step")

prop("C11", "A saved beamline is loaded again with structure and values intact", """
Saving a beamline to YAML and loading it into an empty one gives the same nesting of lines, the same order of elements,
and the same names, types and parameters (numbers including numpy's, booleans, text of any content), with equal length
and positions; a repeated element of one line is again one element. Saving does not change the beamline and replaces an
older file completely; saving the loaded beamline writes the same file; loading into a non-empty beamline changes
nothing.""",
     ["inputs", "histories"], "all structures of four (thorough: five) insertions; every text of up to three YAML signs; all combinations of special values, "
     "keys, names and nesting depth within two (three) deviations; beamlines from every importer",
     "There is no test; the result depends on structure and on the special cases of YAML scalars.",
     ["rsbeams/rslattice/Beamline.py"],
     [("save_beamline, load_beamline", "rsbeams/rslattice/Beamline.py")],
     "bounded exhaustive enumeration of beamline structures and values through the real save and load, compared with the "
     "structure model")

prop("C12", "elegant lines expand to exactly the elements they stand for", """
Parsing a line of an elegant lattice file gives the elements it stands for, in order: repetition factors of elements,
lines and (nested) parenthesised groups are multiplied out, lines inside of lines become nested beamlines, and one
definition is one element object however often it is used. Quoted names may have any sign except quotes and '!'. Upper or lower case, quotes, blanks, comments, continuation
lines and the order of definitions do not matter. One parser can be asked for several lines in turn; unknown lines
are an error. (Reversal with '-' is a documented missing feature.)""",
     ["inputs", "histories"], "all lines of up to three entries from fourteen forms, with all sublines and names within one "
     "(thorough: two) deviations; all layouts within three (four) deviations; all sequences of two (three) line selections; all names of two characters",
     "There is no test of the parser; it consumes text recursively, so errors depend on combinations of nesting and layout.",
     ["rsbeams/rslattice/lte_parser.py"],
     [("BeamlineParser.parse_set_beamline, _expand_line", "rsbeams/rslattice/lte_parser.py")],
     "bounded exhaustive enumeration of line grammars and layouts, parsed by the real parser and compared with an "
     "independent expansion")

prop("C13", "elegant element definitions are read with the right type and values", """
Every element parsed from an elegant lattice file has the type and exactly the parameters of its definition: numbers in
any notation, quoted RPN expressions (including pi, sqrt, mult and earlier defined RPN variables) evaluated
correctly, and other text (lower-cased) without quotes. Comments, blank lines, continuation lines, blanks, quotes and
similar names of other elements or variables have no influence, and quoted names may have any sign except quotes and '!'.""",
     ["inputs"], "all pairs of 34 value forms (second value thinned in the quick tier) with one layout deviation; all "
     "layouts of three elements within two (thorough: three) deviations; all RPN expressions up to five (seven) tokens; all short texts of signs with a meaning",
     "There is no test of the parser; values interact with separators, variable names and comments.",
     ["rsbeams/rslattice/lte_parser.py"],
     [("_find_parameters, _sanitize_lattice_definition, parse_rpn", "rsbeams/rslattice/lte_parser.py")],
     "bounded exhaustive enumeration of element definitions and RPN expressions, parsed by the real parser and compared "
     "with the generator's values")

prop("C14", "The transfer matrix is the ordered product of the element matrices", """
For a beamline of drifts and quadrupoles the transverse matrix is the product of the matrices of its elements, the last
element leftmost, sublines and repetitions included; without concatenation it is the list of matrices in beamline order.
A quadrupole with positive strength focuses horizontally and defocuses vertically, with negative strength the reverse,
with zero strength it is a drift. Parameters given as names become arguments (in order of first use) of a function that
gives the same matrix; other parameters have no influence and the beamline is not changed.""",
     ["inputs"], "all lines of up to two of nine element kinds, three with a reduced set (thorough: all of three, four "
     "reduced) x four nestings x concatenation", "There is no test of the matrices.",
     ["rsbeams/rslattice/Beamline.py"], [("generate_matrix, matrices", "rsbeams/rslattice/Beamline.py")],
     "bounded exhaustive enumeration of beamlines, matrices of the real code compared with closed-form products")

prop("C15", "A beamline imported from Sirepo has the elements the model describes", """
Importing a line from a Sirepo model (dictionary or JSON file) gives the elements of the line in order with their types
and parameters, lines inside of lines as nested beamlines and lines with a negative id in reversed order (recursively).
Values with an entry in the RPN cache are replaced by it and numbers stored as text become numbers, so that length and
positions are correct. The input is not changed, and a line that does not exist is a ValueError.""",
     ["inputs"], "all models with three nested lines of up to two (thorough: three) entries, each forward or reversed, "
     "repeated or not, within two (three) deviations of the remaining choices; all texts of four (five) signs of numbers",
     "The only test imports one file and checks nothing.",
     ["rsbeams/rslattice/templates/lattice_importer.py"],
     [("parse_json", "rsbeams/rslattice/templates/lattice_importer.py")],
     "bounded exhaustive enumeration of Sirepo models through the real importer, compared with an independent expansion")

prop("C16", "The Warp file describes the same beamline with the right strengths", """
Running the Python file written for Warp builds the beamline's elements in order, each defined once: drifts, bends,
quadrupoles and sextupoles of all supported types with their length, bending radius length/angle and field gradient
-k times the magnetic rigidity of the central momentum; all other element types become drifts of the same length.
This holds whatever the elements and lines are called, for repeated elements and nested lines (different elements of one name in different lines included) and for every file one writer writes; an elegant file without
run_setup is a ValueError.""",
     ["inputs", "histories"], "all pairs of 18 element types with one (thorough: three) deviations of line structure, "
     "momentum and number form; all sequences of three (four) add/repeat/edit/write operations on one writer; all names of two characters",
     "There is no test; Sirepo, which the exporter needs, is not installed.",
     ["rsbeams/rslattice/formatted_writer.py", "rsbeams/pkcli/lattice.py"],
     [("WarpWriter.write_file", "rsbeams/rslattice/formatted_writer.py"),
      ("elegant_to_warp, _parameter_conversions, _get_gradient", "rsbeams/pkcli/lattice.py")],
     "bounded exhaustive enumeration of models and writer histories; the written file is executed against a recording "
     "stand-in and compared with the physics")

prop("C17", "The nonlinear insert follows the elliptic scheme for its current settings", """
The slices of a nonlinear insert lie at the centres of equal parts of its length; the beta function there is that of a
drift with the given phase advance, the aperture of each slice is c*sqrt(beta) and its strength t*ds*c^2/beta. This holds
for all lengths, phase advances, strengths, apertures and slice numbers, also after any of them was changed and the
sequence generated again; the MAD-X elements list exactly these values in order, and a negative aperture is rejected.""",
     ["inputs", "histories"], "the full grid of 1200 parameter combinations; all histories of two (thorough: three) changes "
     "of any parameter from any start within one (two) deviations", "There is no test.",
     ["rsbeams/rslattice/nonlinear.py"], [("NonlinearInsert", "rsbeams/rslattice/nonlinear.py")],
     "exhaustive enumeration of parameter combinations and change histories on the real object, compared with the optics "
     "of a drift")

prop("C18", "TraceWin and Trace3D lattices are read completely and in SI units", """
A TraceWin file (drifts, quadrupoles, frequency, DTL cells, 2-pi mode NCELLS, synchronous phase markers) and a Trace3D
file (drifts, quadrupoles, bends, edges, gaps) give one element or group of elements per line, in order (those of Trace3D named by their number), with every
value read exactly (sign and exponent included) and converted to SI units; cavities get the frequency set before them.
Comments, blank lines, blanks and upper or lower case do not matter, and merging the edges into bends or giving cavities
the neighbouring drifts keeps each value with its own element. A parser that is called again gives the same line again.""",
     ["inputs", "histories"], "all files of one or two elements of every kind (a third one as deviation), with one (thorough: two) "
     "deviations of values and layout; all post-processing orders on one to three cells; all spellings of numbers of five (seven) signs",
     "There is no test.", ["rsbeams/rslattice/trace3d_parser.py"],
     [("TraceWin, Trace3d", "rsbeams/rslattice/trace3d_parser.py")],
     "bounded exhaustive enumeration of files from an independent encoder, parsed by the real parser and compared with "
     "the encoder's input")

prop("C19", "Kinematic conversions are right for every input, unit, mass and call", """
The converter turns any one of momentum, velocity, energy, kinetic energy, beta*gamma, B*rho, beta or gamma, in eV or SI
units, for a mass in eV or kg (electron by default), into all the others in the requested units, as accurately as the
input determines them, from particles at rest to beta*gamma of 1e12. The report repeats input and mass as given with the
right units. It can be called any number of times, from Python or the command line, without its results, other
converters or the caller's data changing; anything but exactly one quantity, or an unknown unit, is refused.""",
     ["inputs", "histories"], "all 8 inputs x 10 magnitudes x 3 masses x 8 unit combinations; all call histories of three "
     "(thorough: four) steps within three (four) deviations; all subsets of four given quantities x units x interface",
     "The tests convert two particles at one energy once each; they never look at the reported input and mass, call twice, "
     "use the command line or reach high or low energies.",
     ["rsbeams/rsstats/kinematic.py"], [("Converter", "rsbeams/rsstats/kinematic.py"), ("main", "rsbeams/rsstats/kinematic.py")],
     "exhaustive enumeration of inputs, units, magnitudes and call histories on the real converter against 50-digit "
     "arithmetic with a condition-based error bound")

prop("C20", "6D statistics are exact and leave the particles as they were", """
Averages, variances, rms values, extremes and correlations of a 6D distribution are those of its particles (sums divided
by their number), and computing them changes nothing. Subtracting the average, normalising to unit rms and removing
correlations change the particles exactly so: the last is an orthogonal change of coordinates after which none are
correlated. This holds for any number and layout of particles and any sequence of these operations; the eigensolver
diagonalises every symmetric matrix, and rounding keeps the requested significant digits.""",
     ["inputs", "histories"], "all sequences of three (thorough: four) of nine operations on ten distributions, one (two) "
     "deviations of particle number and memory layout; all sparse symmetric matrices of six diagonals with two (three) "
     "off-diagonal entries; all mantissa/exponent/digit combinations",
     "The only test compares the averages of one array.",
     ["rsbeams/rsstats/stats6d.py"], [("stats6d", "rsbeams/rsstats/stats6d.py")],
     "exhaustive enumeration of operation sequences on the real functions, compared after every step with extended "
     "precision statistics of a mirrored array")

prop("C21", "A generated 6D beam has exactly the requested properties", """
Whatever random numbers are drawn, a beam with more than six particles has zero average, exactly the requested alpha,
beta and emittance in each plane and no correlation between planes; uniform beams fill one ball of positions and one of
momenta, Gaussian ones have normal coordinates that are cut; momentum, charge, relativistic factors and peak
current follow from the arguments, and offsets and factors act on the chosen coordinate only. Unsupported distributions,
sizes and indices are refused, as is measuring a plane without emittance. A phase space knows its number of particles after any sequence of setting, writing and
reading, and a written array is read back exactly.""",
     ["inputs", "schedules", "histories"], "all alpha x beta combinations and distributions with one (thorough: two) "
     "deviations of emittance, plane, sizes, momentum, operations and adversarial random draws; all sequences of three "
     "(four) storage operations; four distributions of up to 1500 (6000) particles from two (three) streams",
     "The tests generate one random uniform and one Gaussian beam and check rounded rms values; numbers drawn are not "
     "controlled.",
     ["rsbeams/rsptcls/RsPtclBeam6D.py", "rsbeams/rsptcls/RsDistrib6D.py", "rsbeams/rsptcls/RsPhaseSpace6D.py",
      "rsbeams/rsptcls/RsTwiss2D.py"],
     [("make_twiss_dist_6d", "rsbeams/rsptcls/RsDistrib6D.py"), ("RsPtclBeam6D", "rsbeams/rsptcls/RsPtclBeam6D.py"),
      ("RsPhaseSpace6D", "rsbeams/rsptcls/RsPhaseSpace6D.py")],
     "exhaustive enumeration of requests, random draws (owned by the explorer) and operation sequences on the real "
     "classes, compared with the requested covariance")

prop("C22", "A matched bunch lies on the requested distribution, whatever is drawn", """
Every particle of a KV bunch has the requested Hamiltonian (linear: four times the emittance; nonlinear insert: the
emittance), waterbag particles have at most the total emittance and truncated Gaussian ones at most cutoff times it, all
in the coordinates normalised with the bunch's own alpha and beta; linear Gaussian coordinates are independent normal
numbers times the rms sizes. Quiet bunches come in groups of four with zero centroid. One seed gives one bunch.
Transverse and longitudinal coordinates, and different bunches, do not affect each other; assigned or passed parameters
are used from then on whatever was generated before, negative ones are refused, and the potential is the Danilov-Nagaitsev one everywhere.""",
     ["inputs", "schedules", "histories"], "all distributions x histories of two (thorough: three) operations with two "
     "(three) deviations of parameters, particle numbers and adversarial draws; the full grid of positions x strengths for "
     "the potential; every class x distribution x seed",
     "There is no test.",
     ["rsbeams/rsptcls/bunch.py"],
     [("StandardBunch", "rsbeams/rsptcls/bunch.py"), ("NonlinearBunch", "rsbeams/rsptcls/bunch.py")],
     "exhaustive enumeration of parameters, random draws (owned by the explorer) and operation histories on the real "
     "classes; every particle's invariant recomputed independently")

prop("C23", "Samples follow the given distribution for every draw", """
sample.sample returns for each uniform draw the inverse of the normalised cumulative distribution of the given function
on the given range, up to the resolution of the grid, for any function, arguments, number of samples, grid and draw (0
and the neighbours of 0 and 1 included): inside of the range, one sample per draw, growing with the draw, on the grid
with numeric inversion and never where there is no probability. Halton samples are reproducible and fill every dyadic part of the probability. Unknown methods
or functions are refused.""",
     ["inputs", "schedules"], "11 distributions x inversions x methods with two (thorough: three) deviations of grid, "
     "sample number and up to three adversarial draws; all cdf grids; all sample numbers of the Halton sequence listed",
     "There is no test; an example plots one sampled Gaussian.",
     ["rsbeams/rsstats/sample.py"], [("sample", "rsbeams/rsstats/sample.py"), ("cdf_on_grid", "rsbeams/rsstats/sample.py")],
     "exhaustive enumeration of distributions and of the answers of the random number generator on the real sampler, "
     "against analytic cumulative distributions")

prop("C24", "Decoherence and tunes are those of the given motion", """
The centroid after n turns is the average of Z cos(2 pi n nu) over the distributed amplitudes, for any tune shift
coefficients (zero and negative ones included) and any order: the first order and second order formulas, the numerical
integral and the multi-process list of all turns agree with it. phase_advance returns the rotation between any two
points in the requested sense within 0 to 2 pi, and tune_fft the tune of the chosen turns only, changing nothing.""",
     ["inputs", "histories"], "all tunes x kicks x coefficient lists up to fourth order x turns with one (thorough: two) "
     "deviations; all pairs of angles on a grid x amplitudes x senses; all spectral lines x windows x phases; "
     "tunes between the lines, second lines and kinds of data within two (three) deviations",
     "There is no test; a notebook plots the formulas for positive coefficients.",
     ["rsbeams/rsphysics/decoherence.py", "rsbeams/rsptcls/phases.py"],
     [("CentroidPosition", "rsbeams/rsphysics/decoherence.py"), ("phase_advance", "rsbeams/rsptcls/phases.py"),
      ("tune_fft", "rsbeams/rsptcls/phases.py")],
     "bounded exhaustive enumeration of parameters and call histories on the real functions against Gauss-Legendre "
     "quadrature of the defining integral and constructed rotations and tones")

prop("C25", "Profiles, symbols and currents for plots are drawn to scale", """
plot_profile draws one rectangle for every magnet or cavity of a known type, from the end of the preceding element to
its own end, in the given scale and height, one colour per kind, and nothing else leaves the axis, for text and binary
SDDS columns. format_symbol turns every SDDS symbol of letters, greek and special characters and indices into a formula
that matplotlib can draw, with just these characters at the right level. Histogram points are counts at the centers of
equal bins, and the current from times and a charge integrates to that charge and is centered on the average time.""",
     ["inputs"], "all lines of up to three elements of 21 types; all symbols of three (thorough: four) parts; all data sets "
     "of up to four (five) values and all bin numbers listed; two (three) deviations of unit, offset and charge",
     "There is no test.", ["rsbeams/rsplot/util.py"],
     [("plot_profile", "rsbeams/rsplot/util.py"), ("format_symbol", "rsbeams/rsplot/util.py"),
      ("get_current_from_t", "rsbeams/rsplot/util.py")],
     "exhaustive enumeration of beamlines, symbols and data sets on the real functions; the artists and the glyphs "
     "typeset from the formula are compared with the enumerated input")

prop("C26", "Figures show the particles and quantities they were asked for", """
The phase space plots show the density of the particles of the chosen page in the units of their labels, with profiles
that are the histograms of the coordinate along which they lie; the current is in amperes for the given or stored charge
and normalised if there is none, also in files without parameters. beamline_profile draws the chosen quantities over the
magnets, labelled with symbol and unit. RsScatterPS6D draws every particle where it is, in its own figure with its own
labels, in symmetric limits that contain all. scatter_contour and its levels lose no particle and work for any number.""",
     ["inputs", "histories"], "all functions x pages x charges x coordinates with one (thorough: two) deviations of file "
     "layout, options and sizes; all histories of three (four) steps of two plot objects within two (three) deviations; all "
     "styles x scales x distributions",
     "The only test saves three pictures and compares their file sizes.",
     ["rsbeams/rsplot/beam_plots.py", "rsbeams/rsplot/RsScatterPS6D.py", "rsbeams/rsplot/plot_ptcls.py"],
     [("longitudinal_phase_space", "rsbeams/rsplot/beam_plots.py"), ("RsScatterPS6D", "rsbeams/rsplot/RsScatterPS6D.py"),
      ("scatter_contour", "rsbeams/rsplot/plot_ptcls.py")],
     "exhaustive enumeration of files, options and operation histories on the real plotting functions; the drawn artists "
     "are compared with the enumerated data")

prop("C27", "Every written file is complete, or its writer says that it is not", """
When the disk fills up at any byte while a beamline, a Warp, elegant, OPAL or Genesis file, a particle array or an SDDS
file is written, the write raises; it never returns normally with an incomplete file. The object written stays as it
was, and the next write to the same file, of the same or another object, gives exactly the file that is written without
a failure, also if the error of the first one is still held. Something that cannot be written at all (a parameter without
a YAML form, an element without a parameter that Warp needs, a species that is not registered, a missing folder) is an
error that leaves an existing file untouched and creates none.""",
     ["crash_points", "fault_sequences", "histories"], """a write error at every byte of the files of eight writers (files
below 700 bytes, thorough 2500; otherwise the ends, every buffer boundary and 40 places in between) x sizes x existing or new
target x what is written next; all refused writes of the alphabet""",
     "The tests only check that files exist after a write that succeeds; no test injects write errors.",
     ["rsbeams/rslattice/Beamline.py", "rsbeams/rslattice/formatted_writer.py", "rsbeams/rsdata/switchyard.py",
      "rsbeams/rsptcls/RsPhaseSpace6D.py", "rsbeams/rsdata/SDDS.py"],
     [("StructuredBeamline.save_beamline", "rsbeams/rslattice/Beamline.py"), ("WarpWriter.write_file", "rsbeams/rslattice/formatted_writer.py"),
      ("Switchyard.write", "rsbeams/rsdata/switchyard.py"), ("RsPhaseSpace6D.write_array", "rsbeams/rsptcls/RsPhaseSpace6D.py"),
      ("writeSDDS.save_sdds", "rsbeams/rsdata/SDDS.py")],
     "fault enumeration on the real code: a file size limit placed at every byte of the file being written, followed by every next write")

prop("C28", "A file that cannot be read is an error that changes nothing", """
An OPAL, elegant, particle array, beamline or Sirepo file that is cut off, damaged, of another kind, missing or
incomplete (a coordinate, charge, array, name, line or element is not there) makes the reader raise. It is never taken for
complete (a cut beamline file gives at most a first part of the beamline), and registered species, the particle array
and the still empty beamline stay as they were, so that reading the right file afterwards gives exactly its contents.""",
     ["crash_points", "fault_sequences", "inputs"], """the files of five kinds cut at every byte (long OPAL files: the ends and 500
places in between; thorough: all) x sizes; every byte of an array file changed in three (eight) ways; all readers x all
other kinds of files; all incomplete contents of the alphabet, each read twice before the right file""",
     "The tests read complete files only, apart from one with an unknown format name.",
     ["rsbeams/rsdata/switchyard.py", "rsbeams/rsptcls/RsPhaseSpace6D.py", "rsbeams/rslattice/Beamline.py",
      "rsbeams/rslattice/templates/lattice_importer.py", "rsbeams/rslattice/lte_parser.py"],
     [("Switchyard.read", "rsbeams/rsdata/switchyard.py"), ("RsPhaseSpace6D.read_array", "rsbeams/rsptcls/RsPhaseSpace6D.py"),
      ("StructuredBeamline.load_beamline", "rsbeams/rslattice/Beamline.py"), ("parse_json", "rsbeams/rslattice/templates/lattice_importer.py")],
     "fault enumeration on the real code: every cut, damage and confusion of the input files, state compared before and after")
