prop = 'C20'
needs = 'a radius of a feature away from the origin of the model'
what = 'the leader of a radius ends where it would for a feature at the origin'
edits = [('stl-to-ps.cc', '''  // TODO, Do a better job here.
  Eigen::RowVector2d direct = at - center;''', '''  // TODO, Do a better job here.
  Eigen::RowVector2d direct = at;''')]
demo = r'''
def go(x):
    c = [(x, 1), (x - 1, 0), (x, -1), (x + 1, 0)]
    m = stl(((0, 0, 1), *[p + (0,) for p in c[:3]]), ((0, 0, 1), *[c[i] + (0,) for i in (0, 2, 3)]))
    r = run('load m="m.stl"; page { draw m { @[0,0]; rad(at=[%g,2.5,0], dir=[.8,.6,0], center=[%g,0,0]); } }' % (x + 2, x), {'m.stl': m})
    check(r.rc == 0, 'taken')
    return [tuple(round(v, 1) for v in l) for l in r.lines]
check(go(0) == go(10), 'the drawing depends on where in the model the feature is')
'''
