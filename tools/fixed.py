"""Keeps the 'fixed' lines of known_findings.jsonl (run by hand): property, commit, what failed."""
import json
import os

FIXED = [
 ('P01', '6c457fb', 'shapes of the same net did not shield the layers above them from what lies below'),
 ('P13', 'd24664a', '2.5D extraction aborted on layers without entries in the parasitics tables'),
 ('P12', '3109287', 'sky130A LVS label layers of met1..met5 carried the names of the pin layers'),
 ('P08', 'dc1e257', 'sky130A: the via between met1 and met2 had no resistance (wrong original layer name)'),
 ('P07', '8e81e23', 'whitebox netlist expansion removed devices while iterating over them'),
 ('P07', '313f3df', 'capacitances in the expanded 2.5D netlist were a factor 1e15 too large (fF taken as F)'),
 ('P07', 'aea5919', 'expanded netlists got a second net VSUBS / FC_GND if the layout had one'),
 ('P19', 'f554468', 'FasterCap/FastCap2 whitebox netlist expansion removed transistors, diodes and resistors'),
 ('P09', 'c19edf1', 'internal nodes of different nets shared one name, which shorted these nets in the netlist'),
 ('P05', '49c45fd', 'resistors between the same two nets were added as if in series'),
 ('P11', '5db5882', 'shapes of unnamed nets were lost in the 3D model and mixed up in the R extraction'),
 ('P10', '449ba6e', 'R extraction aborted on floating device terminals and terminals on blackboxed layers'),
 ('P24', '2b1edab', 'an LVS cache hit read the LVSDB of an earlier run in the output directory instead of the cached one'),
 ('P24', 'a488682', 'a failing LVS run reused (and cached) the LVSDB of an earlier run'),
 ('P24', '6a5528c', 'an interrupted run left a truncated LVSDB in the cache, which later runs used'),
 ('P23', '87eeb51', 'an unknown --cell ended in a traceback instead of an argument error'),
 ('P23', 'c02ecae', 'PDKPATH without PDK in the environment crashed the argument parser'),
 ('P23', 'f2c3fc5', 'boolean arguments 1 and 0 were rejected'),
 ('P21', 'a360f2e', 'the CSV netlist had empty names for unnamed nets'),
 ('P17', 'c0ba5a7', 'the unit of the FastCap2 capacitance matrix was ignored'),
 ('P09', '74ec988', 'R extraction aborted if a cell of the layout has no connection to its parent'),
 ('P12', '5e1f822', 'the side overlap lookup raised KeyError for a layer without substrate capacitance'),
 ('P30', '314f197', 'the dielectric filter never matched names with capital letters'),
 ('P31', 'ba222dd', 'sky130A: the label layer of diff was that of tap'),
 ('P31', 'e6d4986', 'sky130A: the vias on MIM capacitors reached 20 nm into the metal above'),
 ('P14', '8117ba3', 'the model of a single conductor without dielectrics had no sides and no top'),
 ('P14', '8903931', 'vertical surfaces of skew edges had wrong lengths and positions'),
 ('P14', 'f425215', 'dielectrics appeared below conductors that start where a dielectric of higher priority ends'),
 ('P15', '428858b', 'net names with path separators or too many bytes made writing of FasterCap input and STL files fail'),
 ('P16', '5377fe5', 'stacked conformal dielectrics counted the metal thickness again and lay inside each other where no metal is'),
 ('P17', 'e29871f', 'FastCap2 matrices with names of different lengths or ten and more conductors were read wrongly'),
 ('P19', '3fdcf7c', 'FastCap2 results could not be expanded into a netlist (conductor names, several conductors of one net)'),
 ('P20', '3ccb5c6', 'netlist reduction mixed up devices of different classes (KLayout combine_devices on a copied netlist)'),
 ('P26', 'e7eaa31', 'repair of marker databases failed for category names with non-ASCII characters, backslashes or quotes'),
 ('P27', '0412f8b', 'nodes, ports and resistors of Magic with names like a_n51_100# or out[0] or fractional values were ignored'),
 ('P27', '1d6771e', 'Magic markers were off by one database unit, default output path of the log analyzer was not used'),
 ('P32', '6bee80b', 'Magic scripts were broken Tcl for cell names with $ and paths with spaces or brackets'),
 ('P32', '584d6f7', 'when Magic failed without exit status, netlist and markers of an earlier run were reported'),
 ('P22', '59d89a1', 'FastCap2 engine failed with a relative output directory'),
 ('P24', '2946f45', 'an incomplete LVSDB of a killed LVS run was cached, so that all later runs failed'),
 ('P24', 'ecaf9c3', 'when the GDS was modified during LVS, the outdated LVSDB was cached as if it were newer'),
 ('P13', 'a2007c4', 'R extraction aborted on contacts and vias to a layer without any shapes'),
 ('P23', 'c5575ae', 'a contradictory --diel filter ended in a traceback instead of an argument error'),
 ('P23', '5f22ed9', '--log_level all hid everything below warnings'),
 ('P28', '7d4ca18', 'only one of all instances of a subcircuit was in the netlist diagram'),
 ('P28', '9a41f80', 'the --cell argument of the netlist program was ignored'),
 ('P28', 'd110050', 'no log level was accepted by the netlist program'),
 ('P25', '3eff1b7', 'holes of polygons were filled in R extraction requests, which shorted rings'),
 ('P29', 'e7102d9', 'obtuse triangles were split at the wrong corner'),
 ('P33', '91435d6', 'the last line a program prints loses its last character in logs and log files if it does not end with a newline'),
 ('P33', '90ff247', 'messages with brackets lose text on the console, [draft] is swallowed, or end the run with a MarkupError, [/b]'),
 ('P33', '3e8a091', 'the titles between the steps of a run are printed at every log level, against their documentation'),
 ('P06', 'd077502', '`--halo 0` (or a zero overlap capacitance) ended with a division by zero when fringe ratios are scaled'),
 ('P24', '5f1167d', 'around the end of daylight saving time a cached LVS database older than the GDS was taken for newer, and extracted'),
 ('P33', '65f87b3', 'output of LVS, FasterCap, FastCap and Magic that is not UTF-8 ended the run with a UnicodeDecodeError'),
 ('P16', '4c5f54e', 'sidewall dielectrics are a database unit narrower than their width says, e.g. 42 nm for 0.043 µm'),
 ('P35', 'c81c373', 'every 2.5D run on a console that cannot show Ω or µ (8 bit locale, redirected on Windows) ended with a UnicodeEncodeError'),
 ('P35', 'a4d7940', 'in a locale which is not UTF-8 files written as UTF-8 were read in its encoding, and messages lost in log files'),
 ('P35', '8d4823a', 'of two runs at the same time in one output directory one ended with a FileNotFoundError for its log, or wrote into the log of the other'),
 ('P33', '8d4823a', 'the log of a run with missing input was continued and taken along by the next run, logs of runs within one second were lost'),
    ('P26', '696620a', 'the marker report showed the sheet resistances of conductors and those of vias in Ohm, but under the unit milliohm (poly: 48.2 instead of 48200)'),
    ('P34', '2380fa6', 'a run whose LVS database has no unknown layers left the unnamed_LVS_layers file of an earlier run in place'),
    ('P27', 'e166bce', 'the ext files of cells whose names go on after ".ext" (lib.extra, a.ext) were taken as those of a cell with the name in front of it (and lost if both are there)'),
    ('P12', '8332e43', 'TechInfo.pin_layer_mapping_for_drw_gds_pair, process_stack_layer_by_gds_pair and contact_above_metal_layer_name raised for every technology (AttributeError, TypeError)'),
    ('P22', '6a064c6', '`--geo_check` did not end for meshes in which a long edge lies along many short ones'),
]


def main():
    path = os.path.join(os.path.dirname(__file__), '..', 'known_findings.jsonl')
    with open(path) as fh:
        keep = [l.rstrip('\n') for l in fh if l.strip() and json.loads(l)['status'] != 'fixed']
    with open(path, 'w') as fh:
        for l in keep:
            fh.write(l + '\n')
        for i, (p, c, what) in enumerate(FIXED):
            fh.write(json.dumps({'property': p, 'id': f'F{i + 1}', 'status': 'fixed', 'commit': c, 'summary': what,
                                 'line': f'fixed: property={p} {c} {what}'}) + '\n')


main()
