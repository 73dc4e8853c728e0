prop = 'C19'
needs = 'an angle given by points in clockwise order'
what = "the extension lines start at each other's points when the directions are put in order"
edits = [('stl-to-ps.cc', '    swap(to_dir, from_dir);\n    swap(to_point, from_point);\n', '    swap(to_dir, from_dir);\n')]
demo = r'''
m = {'m.stl': stl(((0, 0, 1), (-1, -1, 0), (1, -1, 0), (0, 2, 0)))}
A = 'load m="m.stl"; page { draw m { @[0,0]; angle(at=[3,3,0], apex=[0,0,0], from_point=[%s], to_point=[%s]); } }'
r1 = run(A % ('1,0,0', '0,1,0'), m); r2 = run(A % ('0,1,0', '1,0,0'), m)
check(r1.rc == 0 and r2.rc == 0, 'taken')
key = lambda r: sorted(tuple(round(x, 2) for x in l) for l in r.lines)
check(key(r1) == key(r2), 'the same drawing whichever is named first')
'''
