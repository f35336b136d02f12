K='klayout_pex/kpex_cli.py'
MUTS=[
 ('u1','P23',K,'''dest="geometry_check",
                                     type=true_or_false, default=False''','''dest="geometry_check",
                                     type=true_or_false, default=True'''),
 ('u2','P25','klayout_pex/klayout/rex_core.py','kly_v.merge_distance = pb_v.merge_distance','kly_v.merge_distance = pb_v.merge_distance or 0.1'),
 ('u3','P25','klayout_pex/klayout/rex_core.py','kly_c.triangulation_min_b = pb_c.triangulation_min_b','kly_c.triangulation_min_b = min(pb_c.triangulation_min_b, 1)'),
 ('u4','P22','klayout_pex/kpex_cli.py','        if args.geometry_check:\n','        if args.geometry_check is None:\n'),
]
