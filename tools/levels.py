TECHS = dict(proof='contract-based deductive verification: contracts on the real functions, obligations generated from the re-parsed /repo source, z3',
  exploration='run-time checked contracts on the real code (bounded stand-in for the deductive check)')
_T = ' Trusted: the symbolic semantics and library models of pyvc (differentially tested by the run-time contracts of the same property), z3, exact real arithmetic instead of rounding except where single precision is stated. Run-time contracts on generated inputs run beside the proof and are bounded.'
_P = lambda s: ('proof', s+_T)
_B = lambda s: ('exploration', s)
LEVELS = {('C%02d' % i): _B('bounded: the contracts of this property are evaluated on generated inputs of the real code') for i in range(1, 18)}
LEVELS.update(
 C01=_P('Every registered class: __init__, read, File.__init__ under contract for missing, empty and remembered names; the format specific _read/_write bodies are replaced by their contracts.'),
 C02=_P('detectFormat, isRightFormat, read, fileFormats and the extension match under contract, for any number of registered formats and any outcome of each reader (readers replaced by their contracts).'),
 C03=_P('The binary readers load_binary_output (buffered, unbuffered, time encodings 1-4) under contract for every number of channels, samples and header values; text reader bounded.'),
 C05=_P('TurbSimFile.read and write, scaling, times, tower points under contract for every grid size and value.'),
 C06=_P('MannBoxFile.read, write, their composition and the dimensions from the file name under contract for every box size and value.'),
 C07=_P('Mann and TurbSim axes, closestPoint, valuesAt, fromTurbSim, fromMannBox, toMannBox, makePeriodic under contract for every box size, spacing and option; the means subtracted are uninterpreted.'),
 C10=_P('getID, getIDs, getIDSafe, keys, __getitem__, __setitem__, __iter__, __next__, addKeyVal, addValKey, addComment, addTable under contract, directly and through FASTInputFile, for every list of entries.'),
 C04=_P('writeBinary (layout, header, names, units, scaling, one-step accuracy, frame; refusal of tables without time) under contract for every number of rows, channels and values; writeDataFrame (name and unit from the label) for any number of columns of eight label forms in one table; other labels are bounded (run-time contracts).'),
 C08=_P('FLEXOutFile / read_flex_res (versions 0, 2, 3) and HAWC2 binary readers (ReadHawc2 binary, channel selection, sensor scale factors, HAWC2DatFile) under contract for every number of sensors, samples and values; names in the sensor file are bounded.'),
 C14=_P('toDataFrame of the generic reader, EDBladeFile, ADPolarFile, ADBladeFile (stored columns) and BeamDyn tables under contract for every number of stations, columns, values and surrounding entries, one or two tables per file; item access by the contract of C10; frame (the object is unchanged).'),
 C13=_P('OrgData, read_bladed_output (binary and text data, two and three dimensions), BladedFile._read (one to three files in one project) and toDataFrame under contract for every number of sections, channels, samples, names and values; the parser of the sensor file is replaced by its result and bounded (run-time contracts).'),
 C12=_P('AEFile, PCFile and ROSCO performance file: write composed with read, as structured text, under contract for any number of sets, profiles and rows, pitch angles and ratios, with and without wind speeds.'),
 C11=_P('toString composed with parseFASTInputLine (one line of every kind of value), parseFASTOutList, parseFASTNumTable (names with and without units, commented header, mixed tables) and readBeamDynProps, as structured text, for any label, description, value, number of rows, columns and entries (up to 200 in an output list, as stated). A whole deck (title, entries, a table, entries, an output list) through write, open, and _read, at least three rows and four columns. Lists of 2 to 6 elements and quoted texts of up to 4 words are proved for any values but only these lengths; tables without header and the other special sections of _read are bounded (run-time contracts).'),
 C15=_P('CSVFile.__init__, _read and _write (the latter composed with a second _read) under contract as structured text, for any number of rows and columns, any names, units and values, the four separators, with and without names, units, comments and names in the comments; 0 to 3 comment lines; pandas.read_csv and to_csv replaced by their contracts. Reader options and files pandas has to interpret are bounded (run-time contracts).'),
 C17=_P('FASTLinearizationFile._read for any number of states, inputs and outputs; HAWC2StFile._write and StFile.save composed with HAWC2StFile._read, StFile.__init__ and toDataFrame for any number of stations (four combinations of sets, 19 and 30 properties); TurbSimTSFile._write composed with _read for any number of points and times, one to three components; all as structured text.'),
 C16=_P('load_ascii_output, load_output, FASTOutputFile._read, _toDataFrame and _write (composed with a second _read) under contract as structured text, for any number of time steps (also one) and channels, any names, units and values; headers of up to 8 lines in 8 arrangements of blank lines and text, three kinds of separation; rejection of texts without names or data; numpy.loadtxt replaced by its contract.'),
 C09=_P('Frame contract "assigns nothing that existed before the call" for toDataFrame, __repr__, __str__ of every registered class and the specialised OpenFAST classes, and all point, line, plane, profile, correlation, spectrum and conversion queries of TurbSimFile and MannBoxFile, decided store by store by the ownership checker pyvc/frames.py (no solver needed); the view built by FASTInputFile.fixedfile by z3 obligations. Library functions assumed not to write to their arguments except where listed.'),
)
