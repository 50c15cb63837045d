#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
p('C01','Opening a file obeys one error contract in every format',
  "For every registered file format, reading a path that does not exist raises the standard file-not-found error, reading a zero-byte file raises the library's EmptyFileError, and reading with no file name at all raises an exception; in all three cases nothing is parsed. In every other case the format's parser runs, on exactly the file that was named, and the object remembers that name.",
  ['inputs','configurations'],'every registered format class x every path (absent, empty, non-empty) x name given at construction, at read() or not at all',
  'Tests read existing, non-empty example files only; no test opens a missing or empty file, and each format overrides the opening code separately.',
  ['weio/file.py','weio/mannbox_file.py','weio/turbsim_file.py','weio/tecplot_file.py','weio/bladed_out_file.py','weio/fast_input_file.py','weio/hawc2_pc_file.py','weio/hawc2_ae_file.py','weio/rosco_performance_file.py','weio/raawmat_file.py','weio/bmodes_out_file.py','weio/vtk_file.py','weio/cactus_file.py'],
  [('File.read guard sequence','weio/file.py File.read'),('per-format copies of the guard sequence','read() overrides')],
  observe=['exception type raised by Format(filename) and Format().read(filename)'])
p('C02','Format detection picks the first matching format and skips only wrong ones',
  "weio.read and weio.detectFormat try the registered formats in order of increasing priority (registration order among equals), consider only formats whose extensions match the file's extension regardless of case (exactly, or by wildcard), and return the first one whose reader accepts the file together with the very object that reader produced. A format is passed over only when its reader reports a wrong format; any other error surfaces unchanged, and FormatNotDetectedError is raised when no format accepts. Reader options given by the caller reach the reader, also when the format is given explicitly, in which case no detection takes place.",
  ['inputs','configurations'],'every list of formats and priorities (incl. user formats) x every file name x every accept / wrong-format / other-error behaviour of the readers',
  'Tests exercise the built-in list on well-formed example files; none checks order, error propagation, option forwarding or the no-match case.',
  ['weio/__init__.py','weio/file_formats.py'],
  [('detection loop','weio/__init__.py detectFormat'),('reader trial','weio/file_formats.py isRightFormat'),('priority sort','weio/__init__.py fileFormats'),('dispatch','weio/__init__.py read')],
  state=[('_FORMATS','cached sorted format list','weio/__init__.py')])
p('C03','OpenFAST binary output files are decoded exactly as their header says',
  "Reading an OpenFAST binary output file (any of the four file identifiers) of any number of channels and time steps returns, for every time step and channel, (stored value - channel offset)/channel slope, with the time vector in the first column (from packed times, or start time plus multiples of the increment) and the channel names and units in file order, stripped. The buffered and unbuffered readers agree. A file shorter than its header announces is rejected, never partially returned.",
  ['inputs'],'every file identifier x every channel/time-step count, including tables larger than one read buffer x every stored value, slope, offset, name and unit x every truncation point',
  'Tests read two small example files (one buffer) and check two numbers; multi-buffer tables, identifiers 1 and 3, the unbuffered path and truncation are never reached.',
  ['weio/fast_output_file.py'],
  [('header and channel decoding','load_binary_output'),('buffered table reader','freadRowOrderTableBuffered'),('array slices per buffer','data[nLinesRead:...]')],
  observe=['load_binary_output(filename)','FASTOutputFile(filename).toDataFrame()'])
p('C04','OpenFAST binary output is written without losing channels, names or range',
  "Writing a table whose first column is Time to an OpenFAST binary file and reading it back gives the same number of rows and columns, the same channel names (up to 10 characters) and units (up to 8), the same start time and time step, and every channel value within one 1/65535 step of that channel's range, up to single-precision rounding of its magnitude (constant channels within 1/65535 absolute). When a data frame is written, each column is stored with its own name and its own unit, taken from the trailing [unit] or (unit) of its label. A table whose first column is not Time is refused.",
  ['inputs'],'every table of at least 2 rows and 1 channel, every value range (zero, or above 1e-30), every column label with or without unit',
  'Tests write back one example file and compare loosely; unit-less labels, constant or large-offset channels and other table shapes are not sampled.',
  ['weio/fast_output_file.py'],
  [('scaling and packing','writeBinary'),('label splitting','writeDataFrame'),('object write','FASTOutputFile._write')])
p('C05','TurbSim full-field files round-trip: layout, axes and values',
  "Writing a TurbSim box and reading it back gives the same number of time steps, y, z and tower points, the same grid spacing, time step and bottom height, and every velocity component at every (time, y, z) and tower point within one 1/65535 step of that component's range up to single-precision rounding (constant components within 0.005), for any box with at least 2 points per direction, with or without tower points. The bytes on disk follow the published layout: little-endian header, then per time step the grid with component fastest, then y, then z, then the tower points. Writing does not change the velocities held in memory, and a truncated file is rejected.",
  ['inputs'],'every box size, every velocity field (incl. constant or nearly constant components), with and without tower points, every truncation point',
  'Tests round-trip two small example boxes and compare to 5 decimals; nearly constant fields, tower layouts and other sizes are not reached.',
  ['weio/turbsim_file.py'],
  [('reader','TurbSimFile.read'),('scaling, packing and layout','TurbSimFile.write')])
p('C06','Mann turbulence boxes round-trip exactly, with y reversed on disk',
  "Writing a Mann box and reading it back with the same dimensions returns a field of the same shape that is bit-identical in single precision, for any dimensions. On disk the values are little-endian 32-bit floats with z fastest, then y in decreasing order, then x; dimensions may be given or are taken from the last three integers of the file name. A file with too few values for its dimensions is rejected.",
  ['inputs'],'all dimensions nx, ny, nz >= 1, all float32 fields, all file names carrying dimensions, all truncation points',
  'No test in the suite writes or reads a Mann box.',
  ['weio/mannbox_file.py'],
  [('reader','MannBoxFile.read/_read_buffered'),('writer','MannBoxFile.write')])
p('C07','Turbulence-box axes, point queries and conversions agree with the field',
  "For Mann boxes the y, z and time axes always have exactly as many points as the field has along that dimension, evenly spaced by the given spacing from the given start (or centred when none is given). For Mann and TurbSim boxes a point query returns the series at the grid point nearest to the requested location. Converting between the two box types keeps every value at its (time, y, z) index apart from the requested mean removal or addition; making a TurbSim box periodic appends the reversed interior and leaves the original steps unchanged.",
  ['inputs'],'every box size and spacing, start and centre option, every query point, every conversion option',
  'The suite calls these on at most one example box and asserts nothing about the results.',
  ['weio/mannbox_file.py','weio/turbsim_file.py'],
  [('axes','MannBoxFile.y, z, t'),('queries','valuesAt, closestPoint'),('conversions','fromMannBox, toMannBox, fromTurbSim'),('periodicity','makePeriodic')])
p('C08','FLEX and HAWC2 binary results decode to stored value times sensor scale',
  "Reading a FLEX result file (all supported versions) or a HAWC2 binary result returns, for every time step and sensor, the stored 16-bit value times that sensor's own scale factor, taken from the position the format prescribes (sensor-major or time-major). The FLEX time vector starts at the file's start time and has exactly one entry per sample, spaced by the file's time step. A FLEX file whose number of stored values is not a multiple of its number of sensors, and a HAWC2 data file shorter than announced, are rejected.",
  ['inputs'],'every number of sensors and samples, every scale factor, stored value, start time and step, both storage orders, every truncation point',
  'Tests read one small example per format and compare a few sums.',
  ['weio/flex_out_file.py','weio/wetb/hawc2/Hawc2io.py'],
  [('FLEX decoding','read_flex_res'),('FLEX time vector','FLEXOutFile._read'),('HAWC2 decoding','ReadHawc2.ReadBinary')])
p('C09','Asking a file object for data never changes the object',
  "For every registered format, converting an object to data frames, printing it, and (for turbulence boxes) extracting points, lines, planes, profiles, correlations or spectra leaves the data held by the object exactly as it was. Consequently calling any of them twice gives the same answer, and writing the file afterwards writes the same content as before.",
  ['histories','inputs'],'every sequence of query calls on every readable object of every format',
  'Tests call toDataFrame once and look at its result; none compares the object before and after, or the results of two calls.',
  ['weio/turbsim_file.py','weio/mannbox_file.py','weio/hawc2_dat_file.py','weio/fast_input_file.py','weio/fast_output_file.py','weio/csv_file.py','weio/bladed_out_file.py','weio/flex_out_file.py'],
  [('query methods','toDataFrame/_toDataFrame/__repr__ of every format class'),('line and plane extraction','TurbSimFile._longiline, _latline, _vertline, horizontalPlane, verticalPlane')])
p('C10','An OpenFAST input file behaves as a case-insensitive ordered dictionary',
  "On an OpenFAST input file object, reading a key returns the value of the first entry with that label ignoring case and raises KeyError if there is none; setting a key changes the value of exactly the entries with that label, and raises KeyError if there is none. Adding a key updates the existing entry of that name or appends one at the end, leaving every other entry untouched. Iterating visits every entry exactly once in file order and then stops; the key list is the labels of the non-comment entries in file order.",
  ['inputs','histories'],'every list of entries (labels, values, comments, duplicates) and every sequence of get/set/add/iterate operations',
  'Tests get and set a few existing keys of example files; missing keys, duplicate labels, case variants and iteration are never exercised.',
  ['weio/fast_input_file.py'],
  [('lookup','getID, getIDs, getIDSafe'),('access','__getitem__, __setitem__, addKeyVal, keys'),('iteration','__iter__, __next__')],
  state=[('data','ordered list of entries {label,value,isComment,...}','FASTInputFileBase.data')])
p('C11','OpenFAST input lines and tables survive a write/read cycle',
  "A line written for an entry with an integer, floating-point, boolean, word (without blanks, commas and quotes) or double-quoted text value (without consecutive blanks), or a list of at least two numbers or booleans, and a label that is one word without commas and neither a number nor a boolean, is parsed back to the same value, type and label. A numeric table written with its column names and units is parsed back with the same shape, names and units and with every value equal to nine significant digits (integers below 1e15 exactly, unless the table header is a comment). Non-empty output lists of up to 200 entries are parsed back with the same entries in the same order.",
  ['inputs'],'every value of each kind, every label and description, every table size and finite content',
  'Tests re-read a dozen example files; arbitrary values, labels, table sizes and edge values are not covered.',
  ['weio/fast_input_file.py'],
  [('line parser','parseFASTInputLine'),('table parser','parseFASTNumTable'),('printer','FASTInputFileBase.toString'),('list parser','parseFASTOutList')])
p('C12','HAWC2 ae/pc and ROSCO performance tables survive a write/read cycle',
  "Writing a HAWC2 aerodynamic-geometry file and reading it back gives the same sets under the same numbers with bit-identical radius, chord and thickness and the same integer set identifiers; writing a HAWC2 profile-coefficient file and reading it back gives the same number of sets, profiles per set and rows per profile, the coefficients to 15 significant digits and the thicknesses to 8 decimals, in the same order. Writing a ROSCO performance file and reading it back gives every power, thrust and torque coefficient at the same (tip-speed ratio, pitch) position to 6 decimals and the axes to their 4 printed digits. This holds for any number of sets, profiles, rows, pitch angles and ratios.",
  ['inputs'],'every number and size of sets, profiles, rows and axes, every finite table content',
  'Tests re-read one example of each; other set counts, sizes and values are not reached.',
  ['weio/wetb/hawc2/ae_file.py','weio/wetb/hawc2/pc_file.py','weio/rosco_performance_file.py'],
  [('ae printer/parser','AEFile.__str__/_read_file'),('pc printer/parser','PCFile.__str__/_parse_lines'),('performance printer/parser','write_rotor_performance/load_from_txt')])
p('C13','Bladed sections and channels land in the column that names them',
  "Reading a three-dimensional Bladed result gives one column per (section, channel) pair, whose label names that section and channel and whose values are exactly the stored series of that pair, sections varying slowest, with that channel's unit; two-dimensional results are returned as stored. When the result has a time axis, the first column is start + step times the sample index. Several files of equal length are merged by appending columns without altering or reordering any existing one.",
  ['inputs'],'every number of sections, channels and samples, every content',
  'Tests read three example sets and check a few shapes and values.',
  ['weio/bladed_out_file.py'],
  [('flattening','OrgData'),('reshape','read_bladed_output'),('merging','BladedFile._read')])
p('C14','Derived data-frame columns of OpenFAST input files are computed right',
  "For ElastoDyn blade and tower files the mode-shape columns equal the polynomial sum of coefficient(k)*x**k, k = 2..6, of the mode they are named after, at every station; for airfoil polars the normal-force columns equal Cl cos(alpha) + Cd sin(alpha) (with and without the zero-lift drag); for BeamDyn files each Kij / Mij column holds entry (i,j) of the stiffness / mass matrix at each span. All stored table columns appear unchanged under their own name and unit.",
  ['inputs'],'every number of stations and every coefficient, table and matrix content',
  'Tests compare a couple of derived numbers on one example file each.',
  ['weio/fast_input_file.py'],
  [('generic frame','FASTInputFileBase._toDataFrame'),('blade modes','EDBladeFile._toDataFrame'),('polar columns','ADPolarFile._toDataFrame')])
p('C15','Delimited text tables keep their names, rows and values',
  "Reading a comma, semicolon, tab or blank separated table returns every data row once and in order, with the column names of its name line (joined with the unit line when there is one) and none of the comment, name or unit lines among the data. Writing a table and reading it back preserves the number of rows, the column names in order and every value, whether or not the file has comment header lines.",
  ['inputs'],'every table size, separator, number of comment lines, with and without name and unit lines',
  'Tests read a dozen examples and check column names and a few sizes; no test writes a file with comment lines back.',
  ['weio/csv_file.py'],
  [('header, name and separator detection','CSVFile._read'),('writer','CSVFile._write')])
p('C16','OpenFAST ASCII output files keep rows, channels, names and units',
  "Reading an OpenFAST ASCII output file, whatever header lines precede the line of names that starts with Time, returns one row per data line and one column per name, in file order, with every number as printed, and each column carries its own name and its own unit (the text between the parentheses of the unit line). A file without a Time line is rejected as not of this format and one without data lines as empty. Writing such an output and reading it back preserves the numbers of rows and columns, the names and the units, the times to four decimals and every other value to four significant digits. In element outputs (.elm) exactly one line, which does not begin with an integer, precedes the names.",
  ['inputs'],'every number of header lines, time steps (also one) and channels, every finite value, names and units without blanks',
  'Tests read a few example files and check a handful of values; no test writes an ASCII output of another size back.',
  ['weio/fast_output_file.py'],
  [('text reader','load_ascii_output'),('object','FASTOutputFile._read'),('writer','FASTOutputFile._write'),('table','FASTOutputFile._toDataFrame')])
p('C17','Linearization, HAWC2 st and TurbSim time-series files keep every value in its place',
  "Reading an OpenFAST linearization file returns every matrix A, B, C, D, dUdu, dUdy (and the ElastoDyn mass matrix M) that the file contains, each with the dimensions given by the numbers of states, inputs and outputs, every entry at its row and column as printed, and for each of the four operating points the value (the first one of an orientation triple), rotating-frame flag, derivative order (-1 if the file has none) and description of each row in file order; the tables carry the same values under the short descriptions. A HAWC2 st file written and read back has the same main sets and sets in the same order, each with all its stations and 19 or 30 properties to the eight significant digits written, and its tables name each property's column. A TurbSim time-series file written and read back has the same header, components, reference point, and every point coordinate and sample to nine significant digits at the same position. All this for every finite value, also very small and very large ones.",
  ['inputs'],'every number of states, inputs, outputs, stations, sets, points and times, every finite value',
  'Tests read three linearization and st examples and compare one matrix entry or a size; no test writes an st or time-series file of other sizes or extreme values back.',
  ['weio/fast_linearization_file.py','weio/hawc2_st_file.py','weio/wetb/hawc2/st_file.py','weio/turbsim_ts_file.py'],
  [('linearization reader','FASTLinearizationFile._read'),('st reader','StFile.__init__'),('st writer','StFile.save'),('time series reader and writer','TurbSimTSFile._read')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
