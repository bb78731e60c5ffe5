"""Property -> the family of scenarios that exercises it and the clauses of the specification that state it."""
X = ['crash', 'undefined']
PROPS = {
    'S01': {'family': 'fam_sap', 'clauses': ['S01.*', 'S02.after'] + X},
    'S02': {'family': 'fam_sap', 'clauses': ['S02.*'] + X},
    'S03': {'family': 'fam_sap', 'clauses': ['S03.*'] + X},
}
for p in ('M01', 'M02', 'M03', 'M04', 'M05', 'M06', 'T01', 'T02', 'T03', 'C01', 'C02', 'H01', 'O01', 'O02', 'M07'):
    PROPS[p] = {'family': 'fam_plasma', 'clauses': [p + '.*'] + X}
for p, more in (('M01', ['M06.kept']), ('M06', ['M01.lost']), ('M04', ['M06.kept']), ('M05', ['M03.cell']), ('T01', ['T02.*']), ('T02', ['T01.*', 'T03.data'])):
    PROPS[p]['clauses'] += more
for p in ('K01', 'E01', 'H02'):
    PROPS[p] = {'family': 'fam_setup', 'clauses': [p + '.*'] + X}
for p in ('G01', 'G02', 'G03', 'R01', 'F02', 'D01', 'C03', 'C04', 'F01', 'G04'):
    PROPS[p] = {'family': 'fam_mesh', 'clauses': [p + '.*'] + X}
PROPS['P01'] = {'family': 'fam_pic', 'clauses': ['P01.*'] + X}
PROPS['N01'] = {'family': 'fam_pic', 'clauses': ['N01.*'] + X}
PROPS['N02'] = {'family': 'fam_duo', 'clauses': ['N02.*'] + X}
