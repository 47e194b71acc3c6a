"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []


def p(pid, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        anchors['observe_at'] = observe
    if state:
        anchors['state'] = state
    anchors['hook_needed'] = None
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': anchors})


B = 'parsevasp/base.py'
U = 'parsevasp/utils.py'

p('C01', 'Reading an INCAR yields exactly the assignments the text makes',
  'Reading INCAR content yields one entry per assigned tag (tag name case-insensitive, the last assignment wins), with the value '
  'the text gives it: integer, float, Fortran logical (.TRUE./.FALSE./.t./.f. in the usual spellings), string, or a list of these when several '
  'blank-separated items are given; SYSTEM, MAGMOM and M_CONSTR keep their text. Anything from # to the end of the line, blank lines and the '
  'layout (blanks around =, several assignments on a line separated by ;, a trailing ;) never change, add or drop an assignment.',
  ['inputs'], 'all INCAR texts of the modelled line grammar (tags, value kinds, lists, comments, ; groups, blanks, duplicates) up to the bound on lines and on '
  'simultaneous unusual features',
  'tests/test_incar.py reads one sample INCAR plus a few literals; combinations of comments, ;-groups, duplicates, value kinds and layout are unsampled.',
  ['parsevasp/incar.py', U], [('Incar._from_list', 'parsevasp/incar.py'), ('IncarItem._clean_entry', 'parsevasp/incar.py'), ('test_string_content', U)],
  ['Incar.get_dict', 'Incar.get', 'Incar.entries'])

p('C02', 'An INCAR object behaves as a last-writer-wins map of tags under any edits',
  'After any sequence of set and delete operations on an INCAR object, whatever it was created from, reading a tag back (value, and comment on '
  'request) returns what was last stored for it, deleted or never-set tags read as absent, and the dictionary view holds exactly the live tags; tags are matched regardless of case. '
  'Edits never change another tag, another object, or the dictionary the caller supplied.',
  ['histories'], 'all operation sequences (set/delete/get/export over a small tag and value alphabet, two live objects) up to the depth bound, from every initial source',
  'tests perform one or two edits on one sample; no test covers interleavings of edits, repeated edits of one tag or isolation between objects.',
  ['parsevasp/incar.py'], [('Incar.modify/delete/get/get_dict', 'parsevasp/incar.py')], ['Incar.get', 'Incar.get_dict', 'Incar.get_string'])

p('C03', 'Written INCAR text is canonical and reads back to the same assignments',
  'The text an INCAR object writes has one "TAG = value" line per live tag, tags upper-case and alphabetically ordered, logicals spelled .TRUE./.FALSE. (also inside lists), '
  'with " # comment" appended only when comments are requested, and is the same as string, to a path and to a handler. '
  'Reading that text back gives the same tags and values (and comments when written) as the object that wrote it, and writing again reproduces the text.',
  ['inputs', 'histories'], 'all objects reachable from the modelled texts, dictionaries and edit histories within the bound, times every output route and comment option',
  'tests write one sample and compare it to itself; value kinds × lists × comments × routes are not covered.',
  ['parsevasp/incar.py', B], [('Incar._write', 'parsevasp/incar.py'), ('Incar._convert_value_to_string', 'parsevasp/incar.py'), ('BaseParser.write', B)],
  ['Incar.write', 'Incar.get_string'])

p('C04', 'Reading a KPOINTS file yields the grid, points or lines it describes',
  'Reading KPOINTS content yields the mode (automatic grid, explicit list, or line mode), the comment, and exactly the data the file gives: divisions, centering (Gamma or Monkhorst-Pack), shifts and generating vectors '
  'for grids; for lists and lines every k-point in order with its coordinates, its weight (lists), its direct/cartesian flag, the declared number of points, and any tetrahedron data. '
  'Trailing blank lines, surrounding blanks, line-ending style, keyword case and whether the text arrives as string, path or handler do not change the result.',
  ['inputs'], 'all KPOINTS texts of the modelled grammar (3 modes, number of points, keywords and case, weights, shifts, tetrahedra, blank lines, endings, source) within the bound',
  'tests read one sample per mode with default layout.',
  ['parsevasp/kpoints.py', U], [('Kpoints._from_list', 'parsevasp/kpoints.py')], ['Kpoints.get_dict', 'Kpoints.entries'])

p('C05', 'KPOINTS objects survive edits and write/read round trips',
  'After any sequence of supported edits (setting an entry, deleting a point) a KPOINTS object reports exactly the edited content, and the declared number of points of an explicit list always equals the number of points it holds. '
  'Writing it and reading the text back yields the same mode, points with weights and flags, divisions, centering, shifts, generators and tetrahedra to the written precision; edits of one object never affect another or the caller\'s data.',
  ['histories', 'inputs'], 'all edit histories up to the depth bound from every initial mode and source, with a write/read round trip in every reached state',
  'tests delete or change one point of one sample and never re-read the edited file.',
  ['parsevasp/kpoints.py'], [('Kpoints.modify/delete_point/_write*', 'parsevasp/kpoints.py'), ('remove_newline', U)], ['Kpoints.get_dict', 'Kpoints.get_string', 'Kpoints.write'])

p('C06', 'Reading a POSCAR yields the lattice and sites the file describes',
  'Reading POSCAR content yields the lattice vectors multiplied by the scaling factor and one site per atom, in file order, with the species of its group, its position in direct coordinates (cartesian input converted with the scaled cell), '
  'its selective-dynamics flags (all free when not given), and its velocity and predictor data when present. Keyword case and abbreviation (a first letter C, c, K or k alone means cartesian), comment text after coordinates, blanks around numbers, trailing blank lines, line-ending style and '
  'the input route do not change the result.',
  ['inputs'], 'all POSCAR texts of the modelled grammar (scaling, cell, species groups and counts, selective dynamics, direct/cartesian, velocities, predictors, layout, route) within the bound',
  'tests read three samples; selective × cartesian × scaling × velocity × predictor combinations are not sampled.',
  ['parsevasp/poscar.py'], [('Poscar._from_list', 'parsevasp/poscar.py'), ('Site', 'parsevasp/poscar.py')], ['Poscar.get_dict', 'Poscar.entries'])

p('C07', 'Writing a POSCAR preserves the structure and reading it back restores it',
  'Writing a structure, as direct or cartesian coordinates and with or without conserving the order, produces a file that reads back to the same lattice, the same set of sites (species, position, selective flags, velocities, predictors) and comment. '
  'With order conserved the sites keep their order; otherwise sites of one species are contiguous and keep their relative order, so species and counts always match the positions listed.',
  ['inputs'], 'all structures with up to the bounded number of sites, species sequences, flags, optional velocity/predictor blocks, from text or dictionary, times write options and routes',
  'tests write one two-species sample in file order.',
  ['parsevasp/poscar.py'], [('Poscar._write', 'parsevasp/poscar.py'), ('Poscar._sort_and_group_sites', 'parsevasp/poscar.py')], ['Poscar.write', 'Poscar.get_string'])

p('C08', 'POSCAR edit histories touch exactly the addressed site or entry',
  'After any sequence of edits (replace an entry, replace or delete a site) a POSCAR object lists exactly the edited structure, everything not addressed being unchanged, and its written text reads back to that structure. '
  'Other live objects and the lattice, site or dictionary data the caller supplied are never altered by parsing, editing, exporting or writing.',
  ['histories'], 'all edit sequences up to the depth bound over a small site alphabet and two live objects, with dictionary export and write/read round trip in each state',
  'tests do a single add or delete on one sample.',
  ['parsevasp/poscar.py'], [('Poscar.modify/add_site/delete_site/get_dict', 'parsevasp/poscar.py')], ['Poscar.get_dict', 'Poscar.entries', 'Poscar.get_string'])

p('C09', 'Invalid input is refused with its documented error, never half-accepted',
  'Every editable-file parser (INCAR, KPOINTS, POSCAR) accepts exactly one input source and terminates with the documented exit status for none or several sources, a missing file, unsupported tags, and any malformed or inconsistent content that is documented with an exit status, instead of returning an object or raising an unrelated error. '
  'A write refused for its arguments or for invalid content terminates with its documented status and leaves an already existing target file untouched; the read-only parsers refuse a missing source or file and every write, and leave the target untouched.',
  ['inputs', 'fault_sequences'], 'all subsets of sources for each parser, and every single malformation of the catalogue at every position of the base documents and objects',
  'tests never check the refusal paths apart from a handful of pytest.raises.',
  ['parsevasp/incar.py', 'parsevasp/kpoints.py', 'parsevasp/poscar.py', B], [('constructors and _check_* methods', 'parsevasp/{incar,kpoints,poscar}.py'), ('BaseParser.write', B)], ['SystemExit code', 'target file content'])

p('C10', 'Stream monitoring reports exactly the configured conditions that occur',
  'For every standard-output text, the reported entries are exactly the configured triggers whose text or regular expression occurs on a line (and, for inverse triggers, those that occur on no line), each with its configured message, kind and status; '
  'with history on they are reported in order of occurrence with every repetition, with history off once each. User overrides replace or add triggers as documented for that parser only, and never affect other instances.',
  ['inputs', 'histories', 'configurations'], 'all line sequences up to the length bound over an alphabet with a line for every configured trigger and near misses, times history on/off and a set of override configurations, in all orders of construction',
  'tests use three sample outputs with fixed content and a few overrides.',
  ['parsevasp/stream.py', 'parsevasp/stream.yml'], [('Stream._from_list/_set_streams', 'parsevasp/stream.py')], ['Stream.entries', 'Stream.has_entries', 'len(Stream)'])

p('C11', 'OUTCAR run status tells truthfully how far the calculation got',
  'For every sequence of ionic and electronic iterations an OUTCAR records, cut off at any line, the run status states whether it finished, the last ionic and electronic iteration reached, the NSW/NELM/NBANDS settings, whether the electronic loop converged, whether ionic relaxation converged '
  '(undefined for static runs), and whether some or all of the ionic steps used up the electronic step limit. A run that never started an iteration is refused.',
  ['crash_points', 'histories'], 'all iteration histories up to the bound (ionic steps × electronic steps × limits × convergence messages) and every line at which the file may be cut',
  'tests hold six sample OUTCARs; no test cuts a run at arbitrary points or varies limits against counts.',
  ['parsevasp/outcar.py', U], [('Outcar._from_list run_status part', 'parsevasp/outcar.py'), ('match_integer_param', U)], ['Outcar.get_run_status'])

p('C12', 'OUTCAR symmetry, elastic, magnetization and timing results are the ones printed',
  'The symmetry data (per ionic configuration: number of space-group operations, static and dynamic site-symmetry/cell types), the elastic tensors by kind, the site and full-cell magnetization by direction, and the final memory and timing statistics are exactly the numbers printed in the OUTCAR, '
  'the last completely printed table winning, for any number of atoms and any combination of sections; sections not printed are reported as absent.',
  ['inputs'], 'all OUTCARs composed of the modelled sections (presence, repetition, order, atom count, directions, statistics lines) within the bound',
  'tests check three fixed files.',
  ['parsevasp/outcar.py'], [('Outcar._from_list', 'parsevasp/outcar.py')], ['Outcar.get_symmetry', 'Outcar.get_elastic_moduli', 'Outcar.get_magnetization', 'Outcar.get_run_stats'])

p('C13', 'POTCAR metadata reports what the header states',
  'For the header of the first dataset of a POTCAR, every recognised keyword is reported once with the value printed (the last one if the header repeats the keyword), in its type (text, logical, integer, float, or list), and element, symbol, functional and functional class are derived from it; unknown keywords are ignored and input route, order and layout make no difference.',
  ['inputs'], 'all headers of the modelled grammar: every keyword × value form × position × order × element symbol/functional combination within the bound',
  'tests check one file.',
  ['parsevasp/potcar.py'], [('Potcar metadata and properties', 'parsevasp/potcar.py')], ['Potcar.metadata', 'Potcar.symbol', 'Potcar.element', 'Potcar.functional'])

p('C14', 'CHGCAR densities are placed on the grid point they belong to',
  'The charge density (and magnetization density for collinear and non-collinear files) is returned as an array over the grid, x fastest in the file, each value divided by the cell volume and at the grid point it was written for, for any grid shape, number of values per line, cell and number of atoms; '
  'augmentation data and values never leak into or shift a density.',
  ['inputs'], 'all grids with edges up to the bound × values-per-line × spin layout × augmentation presence × cells × site blocks',
  'tests check three files with cubic grids.',
  ['parsevasp/chgcar.py'], [('Chgcar._from_file', 'parsevasp/chgcar.py')], ['Chgcar.charge_density', 'Chgcar.magnetization_density'])

p('C15', 'DOSCAR columns end up under their own energy, spin, atom and orbital',
  'For every DOSCAR layout (non-spin, spin-polarised, non-collinear; with or without projections; s-p-d or s-p-d-f, summed or lm-resolved) the header data, the total densities of states and each projected density are returned for the energy, spin channel or magnetization component, atom and orbital that the file\'s column order assigns (orbital outermost, spin innermost).',
  ['inputs'], 'all layouts × number of atoms × number of energy points within the bound, with every printed number distinct',
  'tests check four files, some only at single values.',
  ['parsevasp/doscar.py'], [('Doscar._from_file', 'parsevasp/doscar.py'), ('DTYPES tables', 'parsevasp/doscar.py')], ['Doscar.get_metadata', 'Doscar.get_dos', 'Doscar.get_pdos'])

p('C16', 'EIGENVAL bands and k-points are the printed ones',
  'For every number of k-points, bands and spin channels, the header data, each k-point with its weight, and each eigenvalue (spin, k-point, band) are returned exactly and at their own index, whatever the blank-line layout; occupancy columns, where printed, never get mixed up with the eigenvalues.',
  ['inputs'], 'all sizes × spin × occupancy columns × blank-line layouts within the bound, with every number distinct',
  'tests check one file.',
  ['parsevasp/eigenval.py'], [('Eigenval._from_file', 'parsevasp/eigenval.py')], ['Eigenval.get_eigenvalues', 'Eigenval.get_kpoints', 'Eigenval.get_metadata'])

p('C17', 'vasprun structures and parameters are those of the requested step',
  'For a vasprun.xml with any number of ionic steps and atoms, the parameters, species, k-points, and the unit cell, positions, forces, and stress of the first, the last or all steps are exactly the ones the file records for that step; quantities not recorded are absent. (A file with a single step may list that step twice when all steps are asked for.)',
  ['inputs', 'histories'], 'all step histories up to the bound × atom counts × species × missing blocks × extraction options × both reading strategies',
  'tests use a handful of fixed samples, mostly single-step.',
  ['parsevasp/vasprun.py'], [('Xml._fetch_upfsw', 'parsevasp/vasprun.py'), ('Xml._parsee', 'parsevasp/vasprun.py')], ['Xml.get_unitcell/positions/forces/stress/species/kpoints/parameters'])

p('C18', 'vasprun total energies are attributed to the right ionic and electronic step',
  'For every history of ionic and electronic steps, the total energies by type are returned for the first, last or all ionic steps, with or without the intermediate electronic steps, in order and with the count of electronic steps per ionic step that lets the staggered series be rebuilt, the final value of each ionic step being the one recorded for the completed step.',
  ['histories'], 'all histories up to the bound on ionic and electronic steps × energy types requested × status × electronic on/off × both reading strategies',
  'tests check the energies of two samples.',
  ['parsevasp/vasprun.py'], [('Xml._fetch_totensw/_get_energies', 'parsevasp/vasprun.py')], ['Xml.get_energies'])

p('C19', 'vasprun electronic structure lands on the right spin, k-point, band and orbital',
  'Eigenvalues, occupancies, projections, densities of states (total, integrated, partial), the Fermi level, and their finer-mesh counterparts are returned exactly as printed, each number under its spin channel, k-point, band, atom, orbital and energy, for spin-polarised and unpolarised files of any size. A number printed as asterisks refuses the file with its exit status or is not used; contradicting or missing dimensions are refused with their exit status.',
  ['inputs'], 'all sizes (k-points, bands, atoms, energy points) × spin × presence of each block within the bound × both reading strategies, every number distinct',
  'tests compare selected numbers of fixed samples.',
  ['parsevasp/vasprun.py'], [('Xml._extract_eigenvalues/_extract_projectors/_extract_dos', 'parsevasp/vasprun.py')], ['Xml.get_eigenvalues/occupancies/projectors/dos/fermi_level and *_specific'])

p('C20', 'vasprun response tensors are returned complete and correctly shaped',
  'Dielectric functions, static dielectric tensors (electronic and ionic), Born effective charges, force constants and phonon eigenvalues/eigenvectors are returned exactly as printed, with the shape that atoms and energies imply, and are absent when the file does not contain them.',
  ['inputs'], 'all presence combinations × atom counts × energy points within the bound × both reading strategies',
  'tests check three samples.',
  ['parsevasp/vasprun.py'], [('Xml._fetch_dielectricsw/_fetch_bornw/_fetch_hessian/_fetch_dynmatw', 'parsevasp/vasprun.py')], ['Xml.get_dielectrics/epsilon/epsilon_ion/born/hessian/dynmat'])

p('C21', 'Both vasprun reading strategies agree on every file',
  'The whole-document and the event-driven reading of the same complete vasprun.xml return the same results from every accessor, whatever blocks, ionic steps and file size it has and whichever input route (path or handler) is used.',
  ['inputs'], 'all modelled documents (blocks present, steps, atoms, spin, padding that shifts parser chunk boundaries) within the bound, plus the sample files',
  'the two test modules assert overlapping but not equal facts, on small files.',
  ['parsevasp/vasprun.py'], [('Xml._parsew', 'parsevasp/vasprun.py'), ('Xml._parsee', 'parsevasp/vasprun.py')], ['all Xml.get_*'])

p('C22', 'A vasprun.xml cut off at any point is flagged and never yields wrong data',
  'Cutting a vasprun.xml at any byte before its closing tag makes the parser flag it as truncated, and every quantity still returned equals the one the file records completely before the cut, or is absent (a half-printed record is never used), or the file is refused (always with the event-driven strategy, and before the root element starts); a complete file is never flagged.',
  ['crash_points'], 'every byte offset (thorough) or every element and text boundary (quick) of the modelled multi-step documents, both reading strategies and input routes',
  'one partial sample is tested.',
  ['parsevasp/vasprun.py'], [('Xml._set_xml_truncated', 'parsevasp/vasprun.py'), ('recover parsing', 'parsevasp/vasprun.py')], ['Xml.truncated', 'all Xml.get_*'])

p('C23', 'A parse result depends only on its own input, not on earlier parses',
  'In any sequence of parser constructions, edits and failures in one process, across all file types, each parser returns exactly what it returns for the same input in a fresh process, leaves its input files and arguments unchanged, and results obtained earlier stay unchanged; asking an accessor twice gives the same.',
  ['histories'], 'all sequences up to the depth bound over an alphabet of parse jobs covering every parser (several inputs each, including failing ones)',
  'tests construct each parser in isolation through fixtures and never compare orders.',
  ['parsevasp/base.py', 'parsevasp/*.py'], [('class-level tables and instance state', 'parsevasp/*.py')], ['every get_* accessor'])

p('C24', 'Every parser reads the same from a path, an open handler or in-memory content',
  'For every file type, parsing by path, by an open file handler and by an in-memory handler (and by string where offered) of the same content gives identical results, and a handler supplied by the caller stays open and usable for the caller; a path without a file is refused with the file-not-found status. LF or CRLF line ends and a missing final newline make no difference. Writing to a path and to a handler gives the same content.',
  ['configurations', 'inputs'], 'all file types × routes × a document alphabet per type (samples and generated, LF and CRLF, with and without final newline)',
  'tests exercise a handler for some types on the sample only.',
  ['parsevasp/utils.py', 'parsevasp/base.py', 'parsevasp/*.py'], [('read_from_file', U), ('open_close_file_handler', B)], ['every get_* accessor'])

p('C25', 'Every refusal is explained on the caller\'s logger, and success is not',
  'Whenever a parser refuses its arguments, a file, an edit or a write with an exit status, at least one ERROR record that states the reason belonging to that status (for a missing file, with the path) is logged, on the logger the caller supplied (or on the default logger of that parser), '
  'and neither the logger of another object nor the root logger or the standard error receives it. Arguments, files, edits and writes that are accepted log no error.',
  ['inputs', 'configurations'], 'every accepted and refused case of the refusal space of C09 (argument subsets, faulty texts, dictionaries, edits, writes), all parsers × missing or empty sources × loggers, every document of the job alphabet × routes',
  'the tests assert the exit status of a handful of refusals, never where and whether the reason is reported.',
  ['parsevasp/*.py'], [('ERROR_MESSAGES and self._logger.error', 'parsevasp/*.py'), ('BaseParser._check_file', B), ('read_from_file', U)], ['logger given to the constructor', 'exit status'])

p('C26', 'A cut-off table or unreadable number is refused, not passed off as data',
  'An EIGENVAL, DOSCAR, CHGCAR, POSCAR, KPOINTS or POTCAR that ends at any earlier byte is either refused or yields exactly the tables that are complete up to there (for example the total density of states without the projected one); '
  'values that are not in the file are never made up and a component that has begun but not ended is never returned. A number that the parser uses and that is unreadable (Fortran asterisks, letters) makes it refuse the file.',
  ['crash_points', 'inputs'], 'every byte offset of every modelled document at which the file can end, and every number of every document replaced by each kind of unreadable text',
  'tests read complete samples only; no test cuts a file or damages a number of these types.',
  ['parsevasp/eigenval.py', 'parsevasp/doscar.py', 'parsevasp/chgcar.py', 'parsevasp/poscar.py', 'parsevasp/kpoints.py', 'parsevasp/potcar.py'],
  [('Eigenval._from_list', 'parsevasp/eigenval.py'), ('Doscar._from_list', 'parsevasp/doscar.py'), ('Chgcar._from_file', 'parsevasp/chgcar.py'), ('Poscar._from_list', 'parsevasp/poscar.py'), ('Kpoints._from_list', 'parsevasp/kpoints.py')],
  ['all get_* accessors', 'exit status'])

p('C27', 'The shared text, file and coordinate helpers answer as documented for all inputs',
  'For every text, is_number(s) accepts exactly the words that spell a decimal number and test_string_content names them int or float and everything else (also words such as nan) string; line_to_type converts every item of one line in order, a single item as itself, '
  'reads Fortran exponents printed without E, and consumes exactly that line of a file; match_integer_param sets exactly the named parameter of an indented "NAME = value" line and no other. read_from_file returns the whole text, all lines, or exactly the lines that contain one of the given words, in order; '
  'remove_newline removes only the given number of line ends at the end; file_exists tells whether the path is there. dir_to_cart and cart_to_dir are linear, follow the row convention of the lattice and are inverse to each other; lat_to_reclat returns vectors b with a_i.b_j = 2 pi delta_ij. No helper changes its arguments.',
  ['inputs'], 'all short strings over a number alphabet, all short lines x input kinds, all small integer lattices and skewed, large and small ones x vectors, all short files x filters x input kinds',
  'no test addresses the helpers; they are only run on what the sample files happen to contain.',
  [U], [('test_string_content, is_number, is_numbers', U), ('line_to_type, match_integer_param', U), ('dir_to_cart, cart_to_dir, lat_to_reclat', U), ('read_from_file, remove_newline, file_exists', U)],
  ['return values of parsevasp.utils'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as fh:
    for entry in P:
        fh.write(json.dumps(entry) + '\n')
print(len(P))
for e in P:
    assert len(e['title']) <= 80, e['id']
