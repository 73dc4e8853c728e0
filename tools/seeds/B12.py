prop = 'C12'
needs = 'a view given by angles with a tip other than a multiple of 180 degrees'
what = 'views by angles with a tip are mirror images'
edits = [('geo.cc', 'Eigen::RowVector3d{+0, -azm_sin, +azm_cos})', 'Eigen::RowVector3d{+0, +azm_sin, +azm_cos})')]
demo = '''
import math
p = [(0, 0, 0), (2, 0, 0.25), (0, 1, 0.5)]
m = stl(((-0.25, -0.5, 2), *p))
for t in (0, 30, -20, 180 - 360):
    r = run('load m="m.stl"; page { draw m { @[0,0]; view=[0,%g]; } }' % t, {'m.stl': m})
    if t == -180: continue
    a = math.radians(t)
    q = [(x, y * math.cos(a) + z * math.sin(a)) for x, y, z in p]
    cx = (min(x for x, y in q) + max(x for x, y in q)) / 2; cy = (min(y for x, y in q) + max(y for x, y in q)) / 2
    q = [(396 + 72 * (x - cx), 306 + 72 * (y - cy)) for x, y in q]
    for i in range(3): check(has_line(r, *q[i], *q[i - 1]), 'tipped by %g: %s' % (t, r.lines))
'''
