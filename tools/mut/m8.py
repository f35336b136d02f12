SF='klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py'; TI='klayout_pex/tech_info.py'; LD='klayout_pex/klayout/lvsdb_extractor.py'; MG='klayout_pex/fastercap/fastercap_model_generator.py'
B='            if computed_layer_info and blackbox_devices:\n'
MUTS=[
 ('b36','P04',SF,"            if net1 == net2:\n                return\n","            if net1.upper() == net2.upper():\n                return\n"),
 ('b37','P08',TI,"        return milliohm / 1000.0\n","        return int(milliohm) / 1000.0\n"),
 ('b38','P12',TI,"ohm_by_square = via_resistance.resistance / 1000.0 * contact.width ** 2\n","ohm_by_square = via_resistance.resistance / 1000.0 * contact.width * contact.spacing\n"),
 ('b40','P15',MG,"'%.12g %.12g %.12g' % (self.x, self.y, self.z)","'%.6g %.6g %.6g' % (self.x, self.y, self.z)"),
 ('s1','P02 P03 P04',SF,"if edge_interval_length <= 1:","if edge_interval_length <= 10:"),
 ('s2','P03',SF,"                    if distance_far == distance_near:\n                        return\n","                    if distance_far - distance_near <= 5:\n                        return\n"),
 ('s3','P03',SF,"cap_femto > 0.0001:","cap_femto > 0.001:"),
 ('s4','P02',SF,"(self.side_halo + 10) / self.dbu","(self.side_halo + 10) * 1000"),
 ('s5','P02 P03',SF,"side_halo_dbu = int(side_halo_um / self.dbu) + 1","side_halo_dbu = int(side_halo_um / 0.001) + 1"),
]
