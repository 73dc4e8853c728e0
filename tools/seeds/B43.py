prop = 'C12'
needs = 'a view by angles with a negative tip (or one beyond 180 degrees)'
what = 'the tip is taken without its sign'
edits = [('stl-to-ps.cc' if 0 else 'ast.cc', 'geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180)', 'geo::Rotate(a.x() * geo::PI / 180,\n                     std::acos(std::cos(a.y() * geo::PI / 180)))')]
demo = r'''
import math
# a facet facing both the reader at [0,0] and at [0,+-60]
m = stl(((0, 0, 1), (0, 0, 0), (1, 0, 0), (0, 1, .4)))
def w(t):
    r = run('load m="m.stl"; page { draw m { @[0,0]; view=[0,%d]; } }' % t, {'m.stl': m})
    check(r.rc == 0, 'taken')
    y = [v for l in r.lines[:3] for v in (l[1], l[3])]
    return round((max(y) - min(y)) / 72, 2)
a, b = w(40), w(-40)
h = lambda s: round(abs(math.cos(math.radians(40)) + s * .4 * math.sin(math.radians(40))), 2)
check({a, b} == {h(1), h(-1)}, (a, b, h(1), h(-1)))
'''
