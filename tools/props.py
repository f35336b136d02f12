"""Properties and how they are decided (source of properties.jsonl and MANIFEST.json)."""

PBT = 'property-based testing (hypothesis): '
RCX = 'klayout_pex/rcx25/'

PROPS = [
 dict(id='P01', title='2.5D plate capacitance is directly facing area times coefficient',
  statement='''For every layout, the plate part of the extracted 2.5D capacitance between two nets (or a net and the
  substrate) equals the area over which a shape of one directly faces a shape of the other, times the table coefficient
  of that pair of layers, summed over the layer pairs. Area covered by any conductor in between, of a third net or of
  either net itself, does not count, and shapes of one net have no capacitance among each other.''',
  text='all layouts (rectangles and polygons, any number of layers, nets, hierarchy, database unit) and both shipped technologies',
  why='tests compare a handful of two- or three-shape patterns with stored numbers; whether shielding and layer pairing hold needs arbitrary stacks and nets',
  files=[RCX + 'c/overlap_extractor.py', RCX + 'extractor.py'],
  mech=[('vertical polygon neighbourhood with shielding by the layers in between', RCX + 'c/overlap_extractor.py'),
        ('substrate plane', RCX + 'extractor.py')],
  technique=PBT + 'independent 2.5D reference model over generated layouts',
  note='Generated rectilinear layouts against an independent reference on scanline geometry, generated polygons against whole-net region algebra; both PDKs. Trusts KLayout booleans.'),
 dict(id='P02', title='2.5D sidewall capacitance follows facing length over spacing within the halo',
  statement='''For every layout, the sidewall part of the extracted 2.5D capacitance between two nets on a layer is, summed
  over the parts of their edges which directly face each other within the halo, length divided by (spacing + offset) times
  the layer's coefficient. A conductor in between blocks it, and each facing pair counts once.''',
  text='all layouts and halos, both shipped technologies',
  why='tests hold a few parallel-wire patterns; edge facing, halo limits and blocking depend on arbitrary edge arrangements',
  files=[RCX + 'c/sidewall_and_fringe_extractor.py'],
  mech=[('edge neighbourhood visitor', RCX + 'c/sidewall_and_fringe_extractor.py')],
  technique=PBT + 'independent 2.5D reference model over generated layouts',
  note='Independent reference; the self-shielding finding S1 (see known_findings.jsonl) is excluded by construction and counted.'),
 dict(id='P03', title='2.5D fringe capacitance: halo, shielding and scaling',
  statement='''For every layout, the fringe part of the extracted capacitance from each edge to every shape on another layer, and
  to the substrate, equals the table coefficient times edge length times the arctangent share of the lateral window in which
  that shape is the nearest visible one. Windows end at the halo and at the nearest same-layer neighbour, scaling to the halo is
  applied only when asked for, and the reported total is the sum of plate, sidewall and fringe.''',
  text='all layouts, halos, scaling settings, both shipped technologies',
  why='tests hold a few fixed patterns; shielding in the fringe window depends on arbitrary arrangements over many layers',
  files=[RCX + 'c/sidewall_and_fringe_extractor.py', RCX + 'c/geometry_restorer.py'],
  mech=[('fringe window and share computation', RCX + 'c/sidewall_and_fringe_extractor.py')],
  technique=PBT + 'independent 2.5D reference model over generated layouts',
  note='Independent reference for fringe alone and for the total with scrambled tables.'),
 dict(id='P04', title='2.5D capacitances depend on relative geometry only',
  statement='''Moving, rotating by quarter turns or mirroring a layout, reordering its shapes, renaming nets, cutting shapes into
  abutting parts, or putting shapes into subcells leaves every extracted capacitance unchanged. A copy of the layout farther away than the halo
  neither changes nor adds capacitances except its own.''',
  text='all layouts (Manhattan and 45 degrees) and all of these transformations',
  why='no test extracts the same layout twice in different guises',
  files=[RCX + 'c/overlap_extractor.py', RCX + 'c/sidewall_and_fringe_extractor.py', RCX + 'c/geometry_restorer.py', RCX + 'c/polygon_utils.py'],
  mech=[('edge-local coordinate frames', RCX + 'c/geometry_restorer.py')],
  technique=PBT + 'metamorphic relations',
  note='Exact (1e-6) for Manhattan layouts, 2% for 45-degree layouts (grid snapping).'),
 dict(id='P05', title='The extraction summary loses, duplicates and misattributes nothing',
  statement='''For any content of the extraction tables, the summary lists for each unordered pair of nets the sum of all
  capacitance entries between them (plate, sidewall and fringe, both orders, all cells), and for resistors the parallel
  combination of those between the same two nodes. No pair appears twice and none is invented.''',
  text='all tables over any net names, entry orders, cells and resistor networks',
  why='tests summarise one or two fixed tables; pair normalisation and merging must hold for every combination of names and tables',
  files=[RCX + 'extraction_results.py'],
  mech=[('pair normalisation and merge', RCX + 'extraction_results.py')],
  technique=PBT + 'reference model of the aggregation',
  note='Tables are generated directly, compared with an independent aggregation.'),
 dict(id='P06', title='kpex --2.5D writes what the engine extracted with the settings the options mean',
  statement='''A 2.5D run of the command line program writes a CSV table, a SPICE netlist and a report database which
  hold exactly the parasitics that the extraction of this LVS database yields with the mode, halo, scaling and blackbox settings
  given by the options (documented defaults otherwise). Each table row and netlist device carries the right nets,
  value and unit.''',
  text='all LVS databases and all values of these options, in any order on the command line',
  why='the CLI is not covered by the unit tests at all except for argument parsing; outputs depend on layout, options and names',
  files=['klayout_pex/kpex_cli.py', RCX + 'netlist_expander.py', 'klayout_pex/klayout/netlist_csv.py'],
  mech=[('run_kpex_2_5d_engine', 'klayout_pex/kpex_cli.py')],
  technique=PBT + 'differential (program output against engine API)',
  note='The program runs in a forked child per generated case; outputs parsed back (CSV by hand, SPICE by KLayout).'),
 dict(id='P07', title='The expanded 2.5D netlist is the LVS netlist plus exactly the parasitics',
  statement='''Expanding an LVS netlist keeps all its circuits, nets, pins, subcircuits and devices, except capacitor devices when
  whitebox extraction replaces them, leaves the input netlist untouched, and adds to the top circuit
  exactly one capacitor (in Farad) or resistor (in Ohm) per extracted pair, connected to the nets of these names. Nets are created only for
  names that do not exist yet.''',
  text='all netlists (device kinds, unnamed nets, floating terminals, subcircuits) and extraction results, black and white box',
  why='tests have no netlist expansion at all; which devices survive depends on the mix of device classes',
  files=[RCX + 'netlist_expander.py'],
  mech=[('RCX25NetlistExpander.expand', RCX + 'netlist_expander.py')],
  technique=PBT + 'structural reference model over generated netlists',
  note='Structural fingerprints of generated netlists before and after.'),
 dict(id='P08', title='Extracted resistor networks carry the resistance of the drawn wiring',
  statement='''For every net, the effective resistance between any two of its ports (pins and device terminals) equals that of
  the circuit of its drawn wires (sheet resistance times length over width), contacts and vias (table resistance
  times specified area over drawn area). It follows the technology tables, is independent of placement and other nets, and ports
  are connected exactly if the layout connects them.''',
  text='all straight-wire trees and meshes over all metals, vias of any size, MOS rows; metamorphic for arbitrary Manhattan polygons',
  why='tests check two or three fixed structures on one metal; tables, layer pairing, via areas and port placement need all metals and shapes',
  files=[RCX + 'r/r_extractor.py', 'klayout_pex/klayout/rex_core.py', 'klayout_pex/tech_info.py', 'klayout_pex/klayout/shapes_pb2_converter.py',
         'klayout_pex/klayout/lvsdb_extractor.py', 'cxx/gen_tech_pb/pdk/sky130A.cpp', 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'],
  mech=[('technology for the R extractor', RCX + 'r/r_extractor.py'), ('units', 'klayout_pex/tech_info.py')],
  technique=PBT + 'independent circuit model (Laplacian effective resistance) over generated wiring',
  note='Exact to 1e-6 for wires, meshes and MOS rows; bent polygons only by metamorphic relations since their value is defined by klayout.pex.'),
 dict(id='P09', title='Resistor networks stay within their nets and have every pin as a port',
  statement='''Each net has at most one resistor network. Every label inside a pin shape and every connected device terminal is a port node of its
  net on its layer, and there are no other ports. Node names of different nets are never shared, so neither the networks nor the
  summary connect two nets by a resistor.''',
  text='all layouts with pins, labels, unnamed nets, several labels per net, MOS devices; R and RC modes',
  why='a name clash or lost port depends on the combination of nets, pins and devices in a layout; tests have one pin layout',
  files=[RCX + 'r/r_extractor.py', 'klayout_pex/klayout/lvsdb_extractor.py', RCX + 'extraction_results.py'],
  mech=[('net requests and node naming', RCX + 'r/r_extractor.py'), ('pins and devices', 'klayout_pex/klayout/lvsdb_extractor.py')],
  technique=PBT + 'invariants and an independent port model over generated layouts',
  note='Nets local to subcells are excluded (finding H1 of P11).'),
 dict(id='P10', title='A PEX mode extracts exactly what it names',
  statement='''CC mode yields capacitances only, R mode resistances only, and RC mode yields both, each exactly
  equal to what the single mode yields for the same LVS database and settings. Extractions that share one prepared context do not
  influence each other.''',
  text='all layouts, halo and scale settings, black and white box',
  why='no test compares modes; side effects between the extractors depend on the layers and nets present',
  files=[RCX + 'extractor.py', RCX + 'pex_mode.py'],
  mech=[('mode gating', RCX + 'extractor.py')],
  technique=PBT + 'differential between modes',
  note='Same generators as P08 and P09.'),
 dict(id='P11', title='The extraction context holds the shapes, nets and devices the LVS run found',
  statement='''For every LVS database, each layer of the extraction context holds exactly the drawn shapes of the LVS layers which map to it,
  each tagged with its net, and shapes of blackboxed capacitor layers are left out exactly when blackboxing is asked for. The shapes of a net
  are exactly those tagged with it, unnamed nets included. Every device is listed with its class, parameters, terminal nets and terminal shapes.''',
  text='all LVS databases of both technologies: layers, nets, hierarchy, database units, read from file or from memory',
  why='tests read two or three stored databases; losing or mixing nets depends on the layers, unnamed nets and hierarchy in a layout',
  files=['klayout_pex/klayout/lvsdb_extractor.py'],
  mech=[('KLayoutExtractionContext', 'klayout_pex/klayout/lvsdb_extractor.py')],
  technique=PBT + 'invariants against the drawn shapes',
  note='Compared as point sets with the shapes which were drawn; nets local to subcells are finding H1.'),
 dict(id='P12', title='Technology definitions reach the extraction unchanged',
  statement='''What the C++ technology builders are given comes out unchanged in the technology file, in each of its formats and
  through every conversion between them. Each lookup of TechInfo (layers by name and GDS pair, process stack, contacts, resistance
  and capacitance tables) answers exactly what the technology file says, for every technology.''',
  text='all technology messages, all builder calls and arguments, all file format chains',
  why='tests use the two shipped technologies only, and no test reads a technology file in another format',
  files=['klayout_pex/tech_info.py', 'cxx/gen_tech_pb/protobuf.cpp'],
  mech=[('builders, reader and writer', 'cxx/gen_tech_pb/protobuf.cpp'), ('lookups', 'klayout_pex/tech_info.py')],
  technique=PBT + 'round trip through a compiled driver of the C++ code, and a model of the lookups',
  note='The driver is compiled from the current C++ sources; capacitance tables are float in C++ (1e-6).'),
 dict(id='P14', title='The 3D model has exactly the surfaces between the materials put in',
  statement='''For every set of conductors and dielectrics, however they overlap, the generated FasterCap model has a surface exactly
  where two different materials meet, with the right materials on its two sides and the right orientation. Conductors win over dielectrics, dielectrics in the
  order of their definition, and nothing overlaps, is lost or is invented.''',
  text='all sets of extruded shapes (rectangles, polygons with holes, skew edges), z ranges, dielectric orders, database units, mesh sizes',
  why='the two unit tests build one small model each; lost or duplicate surfaces depend on how z ranges and outlines of several materials combine',
  files=['klayout_pex/fastercap/fastercap_model_generator.py'],
  mech=[('slicing, legalization and surface generation', 'klayout_pex/fastercap/fastercap_model_generator.py')],
  technique=PBT + 'independent voxel oracle over generated models',
  note='Area and first and second moments per interface plane; skew shapes by volume and total area.'),
 dict(id='P15', title='FasterCap and STL files describe exactly the model',
  statement='''The list and geometry files written for a model, read back, give exactly its surfaces: every triangle once, under the
  conductor or the pair of dielectrics it belongs to, with permittivities and reference point on the right side. Distinct nets keep distinct files and names, whatever they are called.''',
  text='all models and all net names without white space',
  why='tests write one model with short names; collisions and wrong sides depend on names and interfaces',
  files=['klayout_pex/fastercap/fastercap_model_generator.py'],
  mech=[('FasterCapModelGenerator.write_fastcap', 'klayout_pex/fastercap/fastercap_model_generator.py')],
  technique=PBT + 'round trip through an independent parser of the written files',
  note='White space in net names is excluded, the list format is separated by it.'),
 dict(id='P16', title='The FasterCap model of a layout stacks materials as the process stack says',
  statement='''For every extracted layout, at every place, the vertical sequence of materials of the FasterCap model is the one the technology's process stack
  gives for that place: each metal, contact, via and diffusion of every net at its height and thickness, with its sidewall and conformal
  dielectrics around it, simple dielectrics elsewhere, substrate below and air above. The dielectric filter takes away exactly the named dielectrics.''',
  text='all layouts on all layers, both shipped stacks and generated chains of sidewall and conformal dielectrics, database units, filters',
  why='no test builds a model from a layout and looks at it; heights, rings and stacked dielectrics depend on what surrounds each point',
  files=['klayout_pex/fastercap/fastercap_input_builder.py'],
  mech=[('FasterCapInputBuilder.build', 'klayout_pex/fastercap/fastercap_input_builder.py')],
  technique=PBT + 'independent vertical profiles at sample points of generated layouts',
  note='Sample points in every kind of place, not all points; surfaces of the model are P14.'),
 dict(id='P17', title='The capacitance matrix is exactly what the field solver printed last',
  statement='''For every FasterCap or FastCap2 log, the parsed matrix has the names and values the solver printed in its last iteration, in its order and
  in the right unit, whatever the number of conductors, their names and the noise around. Written as CSV and read back it is the same matrix, and averaging
  of off-diagonals makes it symmetric and keeps the diagonal.''',
  text='all logs of any number of iterations, conductors, names, units',
  why='tests parse two stored logs; column formats change with matrix size, name length and unit',
  files=['klayout_pex/fastercap/fastercap_runner.py', 'klayout_pex/fastcap/fastcap_runner.py', 'klayout_pex/common/capacitance_matrix.py'],
  mech=[('fastercap_parse_capacitance_matrix', 'klayout_pex/fastercap/fastercap_runner.py'), ('fastcap_parse_capacitance_matrix', 'klayout_pex/fastcap/fastcap_runner.py'),
        ('CapacitanceMatrix', 'klayout_pex/common/capacitance_matrix.py')],
  technique=PBT + 'generated logs with known matrices and round trips',
  note='Log formats as the stored logs and solver sources show them; the solvers themselves are not installed.'),
 dict(id='P19', title='The netlist of a field solver run realises its Maxwell matrix between the nets',
  statement='''For every layout netlist and Maxwell matrix, the expanded netlist keeps all devices, pins and subcircuits and adds between each two nets exactly the
  capacitance the matrix says, each pair once, with each net's capacitance to the substrate as the row sum. The netlist CSV lists the same
  capacitances in femtofarads.''',
  text='all netlists, all matrices (zero, negative, unsymmetric entries), all names of nets and conductors, FasterCap and FastCap2 naming',
  why='the one test expands one stored matrix; wrong pairs or row sums appear with other orders, names and several conductors of one net',
  files=['klayout_pex/klayout/netlist_expander.py', 'klayout_pex/klayout/netlist_csv.py'],
  mech=[('NetlistExpander.expand', 'klayout_pex/klayout/netlist_expander.py'), ('NetlistCSVWriter', 'klayout_pex/klayout/netlist_csv.py')],
  technique=PBT + 'pairwise capacitance oracle over generated netlists and matrices',
  note='Nets tied to ground by 0 Ohm are taken as one.'),
 dict(id='P20', title='Netlist reduction only merges parallel elements and drops tiny capacitors',
  statement='''For every netlist, the reduced one has between each two nets the same capacitance and conductance, except that combined capacitors below the threshold
  are gone, none of them remains, and none at or above it is lost. Pins, transistors, subcircuits and the input netlist stay as they were.''',
  text='all netlists of capacitors of several classes, resistors, transistors and subcircuits, all thresholds',
  why='the two tests only run the reducer on stored netlists; merging errors need parallel and mixed devices',
  files=['klayout_pex/klayout/netlist_reducer.py'],
  mech=[('NetlistReducer.reduce', 'klayout_pex/klayout/netlist_reducer.py')],
  technique=PBT + 'pairwise capacitance and conductance invariants over generated netlists',
  note='Only the top circuit is reduced by threshold, as the code says.'),
 dict(id='P22', title='Field solver runs use the layout and options given, and end in its netlists',
  statement='''For every layout and command line, kpex --fastercap and --fastcap give the solver a model whose conductors are the substrate and exactly the nets, with
  exactly the options asked for, and write the printed matrix, its average and the netlists with those capacitances into the output directory, wherever
  that is. A solver that fails or prints no matrix makes kpex fail; results of an earlier run are never taken for new ones.''',
  text='all layouts, options, relative and absolute paths, engine combinations, solver failures, repeated runs',
  why='no test runs an engine end to end; the solvers are not part of the test environment',
  files=['klayout_pex/kpex_cli.py', 'klayout_pex/fastercap/fastercap_runner.py', 'klayout_pex/fastcap/fastcap_runner.py'],
  mech=[('run_fastercap_extraction, run_fastcap_extraction', 'klayout_pex/kpex_cli.py'), ('run_fastercap', 'klayout_pex/fastercap/fastercap_runner.py'), ('run_fastcap', 'klayout_pex/fastcap/fastcap_runner.py')],
  technique=PBT + 'end to end runs with model solvers which print a known function of the conductors',
  note='Solvers are stand-ins that read the written model and print matrices in the formats of the stored logs.'),
 dict(id='P25', title='Shapes keep their area, holes and nets in messages and R extraction requests',
  statement='''Every polygon, region, box and point converted to a message and back covers the same area with the same net, holes included. For every LVS database, the R extraction
  request has for each net and layer exactly the drawn shapes of that net, and drawing them with holes or in pieces yields the same resistances. The extractor is set up with exactly the conductors, vias and parameters of the request's technology.''',
  text='all polygons of any angle with holes, coordinates, nets; all layouts of them',
  why='the one test converts a single rectangle; filled holes short rings only where nets have such shapes',
  files=['klayout_pex/klayout/shapes_pb2_converter.py', 'klayout_pex/rcx25/r/r_extractor.py', 'klayout_pex/klayout/lvsdb_extractor.py'],
  mech=[('ShapesConverter', 'klayout_pex/klayout/shapes_pb2_converter.py'), ('RExtractor.prepare_request', 'klayout_pex/rcx25/r/r_extractor.py'),
        ('shapes_of_net', 'klayout_pex/klayout/lvsdb_extractor.py')],
  technique=PBT + 'round trip compared as point sets per net, the same layout drawn without holes',
  note='Within one database unit where holes are cut at slanted edges.'),
 dict(id='P26', title='The marker report shows every extracted element with its value and place',
  statement='''For every layout, the report database loads and has one entry for each extracted capacitance and resistor with its layers, nets
  and value, with markers that lie on the shapes and edges it stems from, and the pins, devices, shapes and sheet resistances that resistances are extracted from. Repairing a report from which categories got lost brings back every marker under its category.''',
  text='all layouts, and all report files with any category names and any categories missing',
  why='tests never look into a report; wrong counts, places or lost categories depend on nets, names and layouts',
  files=[RCX + 'extraction_reporter.py', 'klayout_pex/klayout/repair_rdb.py'],
  mech=[('ExtractionReporter', RCX + 'extraction_reporter.py'), ('GeometryRestorer', RCX + 'c/geometry_restorer.py'), ('repair_rdb', 'klayout_pex/klayout/repair_rdb.py')],
  technique=PBT + 'multiset comparison of read back reports with results and drawn shapes',
  note='Titles are read in the format of the reporter.'),
 dict(id='P27', title='Magic extraction files are read completely and shown at the right places',
  statement='''For every Magic run directory, each port, node, device, resistor node and resistor of each cell's .ext and .res.ext files is read with its name and numbers, in order
  and nothing else. The marker report has one marker for each, at its place in micrometers.''',
  text='all run directories with any names, numbers and mixtures of lines',
  why='no test covers the parser or analyzer; names like a_n51_100# or out[0] are usual in Magic but not in small examples',
  files=['klayout_pex/magic/magic_ext_file_parser.py', 'klayout_pex/magic/magic_log_analyzer.py'],
  mech=[('parse_magic_pex_run', 'klayout_pex/magic/magic_ext_file_parser.py'), ('MagicLogAnalyzer', 'klayout_pex/magic/magic_log_analyzer.py')],
  technique=PBT + 'generated files with known records, markers compared as multisets',
  note='File formats from the Magic documentation; Magic is not installed.'),
 dict(id='P32', title='kpex --magic extracts exactly the chosen cell as asked, or fails',
  statement='''For every GDS, cell and Magic options, the script which Magic gets is valid Tcl that loads that cell, flattens it and extracts it with exactly those options into the
  output directory. The netlist, log and report are those of this run, and a Magic that fails or writes nothing makes kpex fail.''',
  text='all cells and names, option combinations, paths, Magic failures, repeated runs',
  why='no test runs Magic; quoting, order of commands and stale results only show with other names, options and failures',
  files=['klayout_pex/magic/magic_runner.py', 'klayout_pex/kpex_cli.py'],
  mech=[('prepare_magic_script, run_magic', 'klayout_pex/magic/magic_runner.py'), ('run_magic_extraction', 'klayout_pex/kpex_cli.py')],
  technique=PBT + 'model of the Magic commands over generated command lines, runs with a stand-in',
  note='Magic is a stand-in which records what it is told; meaning of commands from its documentation.'),
 dict(id='P13', title='Every layer the LVS decks extract is coped with and counts as what it is',
  statement='''For every layout over all layers that the LVS decks of both PDKs extract (wells, implants, taps, contacts, capacitor parts and plates, unknown ones),
  the 2.5D extraction runs through in every mode, black- and whitebox, and so does the FasterCap model. Capacitances are those of the metals alone: capacitor
  parts of a metal count as that metal in whitebox and not at all in blackbox extraction, and shapes on the other layers change nothing.''',
  text='all combinations of LVS layers, modes and boxes, for both PDKs',
  why='the tests extract a few layouts without most of these layers; an unhandled layer shows only when it is drawn',
  files=['klayout_pex/rcx25/extractor.py', 'klayout_pex/rcx25/r/r_extractor.py', 'klayout_pex/rcx25/c/overlap_extractor.py',
         'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py'],
  mech=[('extract_cell', 'klayout_pex/rcx25/extractor.py'), ('prepare_r_extractor_tech_pb', 'klayout_pex/rcx25/r/r_extractor.py')],
  technique=PBT + 'metamorphic relation to the extraction of the metals alone',
  note='With plates of MIM capacitors in whitebox extraction only that it runs and reports nothing for them.'),
 dict(id='P23', title='Command line options mean what the help says, all else is rejected',
  statement='''For every command line, kpex accepts each option in all documented spellings, finds programs by environment variable or PATH and writes its results and logs
  to <input>__<cell> below the output directory. Missing, unreadable or ambiguous input, unknown choices, bad values and a missing engine end in an error status
  before any program runs or result is written.''',
  text='all combinations of options, spellings, inputs and mistakes',
  why='the tests run one valid command line; mistakes and other spellings are not tested',
  files=['klayout_pex/kpex_cli.py', 'klayout_pex/env.py', 'klayout_pex/util/argparse_helpers.py', 'klayout_pex/log/logger.py'],
  mech=[('parse_args, validate_args, setup_logging', 'klayout_pex/kpex_cli.py'), ('true_or_false', 'klayout_pex/util/argparse_helpers.py')],
  technique=PBT + 'model of valid command lines, runs with stand-ins',
  note='What options do to the engines is decided by P06, P22 and P32.'),
 dict(id='P24', title='LVS results are reused only while they belong to the same input',
  statement='''In every history of runs, edits, failures and crashes, each kpex run extracts the LVS result of the GDS file as it is now, of its cell and PDK, or fails.
  A result in the cache is used instead of running LVS again as long as the GDS has not been modified since. A failed, killed or interrupted run never
  leaves anything that a later run would take for a result.''',
  over=['histories', 'crash_points'],
  text='all histories of runs, edits of the GDS (also during LVS), LVS failures, full disks and kills while caching',
  why='no test runs LVS or uses the cache; stale results need a history of several runs',
  files=['klayout_pex/kpex_cli.py', 'klayout_pex/klayout/lvs_runner.py'],
  mech=[('create_lvsdb', 'klayout_pex/kpex_cli.py'), ('run_klayout_lvs', 'klayout_pex/klayout/lvs_runner.py')],
  technique=PBT + 'stateful, against a model of the cache, with injected faults',
  note='KLayout is a stand-in; an LVS which reports a mismatch by its status still yields a result, as the sky130A deck does.'),
 dict(id='P28', title='Netlist diagrams show every element, connected as in the SPICE netlist',
  statement='''For every SPICE netlist, the diagram of the chosen circuit (the only top circuit, or the one of --cell) has one port per pin, one element per subcircuit instance, capacitor
  and resistor with its value, and ground symbols at the ground nets; two pins share a bit if and only if they share a net. Unknown cells, several tops without a choice,
  wrong log levels and a failing netlistsvg end in an error.''',
  text='all netlists, cells and options of the netlist program',
  why='the one test has a single circuit without repeated instances; lost elements or merged nets only show with other netlists',
  files=['klayout_pex/netlistsvg/netlist_json.py', 'klayout_pex/netlist/netlist_cli.py', 'klayout_pex/netlistsvg/netlistsvg_runner.py'],
  mech=[('NetlistJSONWriter', 'klayout_pex/netlistsvg/netlist_json.py'), ('NetlistCLI.run_netlistsvg', 'klayout_pex/netlist/netlist_cli.py'),
        ('run_netlistsvg', 'klayout_pex/netlistsvg/netlistsvg_runner.py')],
  technique=PBT + 'generated netlists compared with the JSON by a bijection of nets and bits, runs with a stand-in for netlistsvg',
  note='netlistsvg is a stand-in which records what it is given.'),
 dict(id='P29', title='Node elimination keeps the resistances between the remaining nodes',
  statement='''For every resistor network and every sequence of eliminations and contractions, the conductances between the remaining nodes are those of the electrically equivalent
  network (star-mesh transformation), the bookkeeping stays consistent, and exactly the precious nodes keep resistors after eliminating all. A triangle is split at the foot of the
  height on its obtuse corner, into two parts that cover it, and not at all if it has none.''',
  text='all networks and operation sequences, all triangles',
  why='no test covers the module; wrong transformations depend on parallel resistors, star sizes, orders and the orientation of triangles',
  files=['klayout_pex/rcx25/r/resistor_network.py', 'klayout_pex/rcx25/r/conductance.py'],
  mech=[('ResistorNetwork', 'klayout_pex/rcx25/r/resistor_network.py'), ('Conductance', 'klayout_pex/rcx25/r/conductance.py')],
  over='histories',
  technique=PBT + 'stateful model (Laplacian matrix with Schur complements) over operation histories',
  note='Nodes without any resistor are outside of the property; the module is not used by the program kpex.'),
 dict(id='P33', title='Messages and program output reach console and log files unchanged',
  statement='''Every message at or above the log level reaches the console and every log file open at that time, once, in order and with its text unchanged whatever
  characters it holds; messages below the level reach neither. The result directory of each run holds its kpex.log and kpex_plain.log with the same messages, and the LVS log
  holds exactly what LVS printed. Logs of earlier runs in the same directory are kept.''',
  over=['inputs', 'histories'],
  text='all message texts, levels and log files; histories of succeeding and failing runs into one output directory',
  why='no test looks at messages; names with brackets, log levels and repeated runs are histories and inputs that no test samples',
  files=['klayout_pex/log/logger.py', 'klayout_pex/kpex_cli.py', 'klayout_pex/klayout/lvs_runner.py'],
  mech=[('configure_logger, set_log_level, register_additional_handler', 'klayout_pex/log/logger.py'), ('setup_logging', 'klayout_pex/kpex_cli.py'), ('run_klayout_lvs', 'klayout_pex/klayout/lvs_runner.py')],
  technique=PBT + 'the messages themselves, filtered by level, against console and log files; histories of runs',
  note='White space is not compared on the console, as it may wrap; runs into one directory are at least a second apart.'),
 dict(id='P34', title='The layout files of a run show the layers and nets that are extracted',
  statement='''For every LVS database, the layout files which kpex writes hold exactly the shapes that are extracted: l2n_extracted all visible layers under their GDS
  numbers with each shape tagged with its net, l2n_internal the layout of the database as it is, nonempty_LVS_layers every layer with shapes, unnamed_LVS_layers those unknown to the
  technology. Blackboxed devices are left out, the database unit and cell are kept.''',
  text='all layouts over the LVS layers of both PDKs, hierarchies, unnamed nets, black and white box',
  why='no test reads these files; layers sharing GDS numbers, unknown layers and hierarchy only show with generated layouts',
  files=['klayout_pex/kpex_cli.py', 'klayout_pex/klayout/lvsdb_extractor.py'],
  mech=[('main (dump_layers)', 'klayout_pex/kpex_cli.py'), ('KLayoutExtractionContext.prepare_extraction', 'klayout_pex/klayout/lvsdb_extractor.py')],
  technique=PBT + 'differential, the drawn shapes against the files read back',
  note='Shapes are compared as point sets; the reader is KLayout.'),
 dict(id='P35', title='Results follow from inputs and options, not from the surroundings of a run',
  statement='''For every input and command line, kpex succeeds with the same result files whatever the hash seed, working directory, locale, encoding and width of the
  terminal, time zone and umask, however inputs and directories are spelled (relative or absolute), and when repeated. Runs of different inputs at the same time
  in one output directory, in any interleaving, end with the results and logs they have alone.''',
  text='all layouts, engines and surroundings; interleavings of up to four runs in one output directory', over=['inputs', 'configurations', 'schedules'],
  why='tests run one process in one locale at a time; iteration order, encodings and shared files only matter between processes',
  files=['klayout_pex/kpex_cli.py', 'klayout_pex/log/logger.py', 'klayout_pex/fastercap/fastercap_model_generator.py', 'klayout_pex/klayout/lvsdb_extractor.py'],
  mech=[('main', 'klayout_pex/kpex_cli.py'), ('setup_logging', 'klayout_pex/kpex_cli.py'), ('tolerate_console_encoding', 'klayout_pex/log/logger.py')],
  technique=PBT + 'metamorphic, runs in fresh processes in different surroundings and interleavings against each other',
  note='External programs are stand-ins; 8 bit locales are represented by the C locale with coercion switched off.'),
 dict(id='P30', title='The dielectric filter keeps exactly the dielectrics its pattern names',
  statement='''A pattern of all with exclusions keeps every dielectric but those named, a pattern of none with inclusions keeps only those named,
  regardless of case, spaces and order, and contradictory patterns are rejected. Every place which uses dielectrics (constants,
  sidewall chains, dielectric above a metal) sees the same filtered set.''',
  text='all patterns over all names, and over the dielectrics of both technologies',
  why='no test covers the filter; its effect depends on pattern and stack',
  files=['klayout_pex/util/multiple_choice.py', 'klayout_pex/tech_info.py'],
  mech=[('MultipleChoicePattern', 'klayout_pex/util/multiple_choice.py'), ('filtered_dielectric_layers', 'klayout_pex/tech_info.py')],
  technique=PBT + 'reference model',
  note='Patterns that name neither all nor none are unspecified and left out.'),
 dict(id='P31', title='The shipped technologies agree with their LVS decks and with themselves',
  statement='''In the technology files of both PDKs, every layer has the GDS numbers of the PDK layer map, every LVS layer exists in the LVS deck and
  belongs to the layer it is derived from, and contacts and vias bridge exactly between the layers which the deck connects. The parasitics tables
  are complete for all metals and agree with the process stack: plate coefficients with distance and dielectrics, fringe coefficients fall with distance.''',
  text='every record of both technology files',
  why='tests touch a few layers only; a wrong number in a table compiles and silently corrupts every extraction that meets it',
  files=['cxx/gen_tech_pb/pdk/sky130A.cpp', 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp', 'pdk/sky130A/libs.tech/kpex/sky130.lvs', 'pdk/ihp_sg13g2/libs.tech/kpex/sg13g2.lvs'],
  mech=[('buildTech', 'cxx/gen_tech_pb/pdk/sky130A.cpp')],
  technique=PBT + 'cross-consistency oracles over all records',
  note='Records are enumerated, not only sampled; numbers which nothing else in the repository determines are only range checked.'),
]

NOT_APPLICABLE = []
