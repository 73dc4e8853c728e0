prop = 'C11'
needs = 'a facet whose corners run the wrong way round for its normal and whose normal is level (z = 0), seen from the side'
what = 'the outside of a level facet is taken from the corner order instead of from the normal'
edits = [('stl.cc', 'if (n.dot(norm) < 0) {', 'if (n.z() * norm.z() + n.y() * norm.y() < 0) {')]
demo = '''
ok = stl(((1, 0, 0), (0, 0, 0), (0, 0, 2), (0, 1, 0)))   # clockwise as seen from its outside
r = run('load m="m.stl"; page { draw m { view="X+"; @[0,0]; } }', {'m.stl': ok})
check(r.rc == 0, 'taken')
check(len(r.lines) == 5, 'facet faces the reader: %d lines' % len(r.lines))
r = run('load m="m.stl"; page { draw m { view="X-"; @[0,0]; } }', {'m.stl': ok})
check(len(r.lines) == 2, 'facet faces away: %d lines' % len(r.lines))
'''
