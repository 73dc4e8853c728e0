prop = 'C13'
needs = 'a facet facing away that is the last one left to look at: particular file orders'
what = 'the last facet left is not looked at, and drawn even if it faces away'
edits = [('stl.cc', 'for (; i < j; i++) {', 'for (; i < j - 1; i++) {')]
demo = '''
t = [((0, 0, 1), (0, 0, 0), (4, 0, 0), (0, 4, 0))]
for k in range(9): t.append(((0, 0, -1), (k, 10, 0), (k, 11, 0), (k + 1, 11, 0)))
r = run('load m="m.stl"; page { draw m { @[0,0]; } }', {'m.stl': stl(*t)})
check(r.rc == 0 and len(r.lines) == 5, 'only the facet facing the reader is drawn: %d lines' % len(r.lines))
'''
