prop = 'C20'
needs = 'a feature with more corners than three, seen with the rough centre away from the middle'
what = 'the circle is taken from the three closest corners only'
edits = [('stl-to-ps.cc', '  near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), center);\n\n  // Find the center of the "circle" this (preumably) larger set of points form.\n  if (!FindCircle(near, &center, &rad)) {\n    SYM_ERROR(dia) << "Failed to find center";  // TODO\n    return false;\n  }\n\n  *ret_at', '  near = point_impl::Between(points, rad * (1 - del), rad * (1 + del), target);\n\n  // Find the center of the "circle" this (preumably) larger set of points form.\n  if (!FindCircle(near, &center, &rad)) {\n    SYM_ERROR(dia) << "Failed to find center";  // TODO\n    return false;\n  }\n\n  *ret_at')]
demo = r'''
import math
N = 16
pt = lambda i, r=1: (r * math.cos(2 * math.pi * i / N), r * math.sin(2 * math.pi * i / N), 0)
t = []
for i in range(N):
    a, b, c, d = pt(i), pt(i + 1), pt(i, 1.3), pt(i + 1, 1.3)
    t += [((0, 0, 1), a, c, d), ((0, 0, 1), a, d, b)]
for cx in (0, .3):
    r = run('load m="m.stl"; page { draw m { @[0,0]; dia(at=[1,1,0], dir=[1,0,0], center=[%g,0,0]); } }' % cx, {'m.stl': stl(*t)}, flags=['numbers=0'])
    check(r.rc == 0, 'taken')
    check(any('2.000' in x[2] for x in r.texts), (cx, r.texts))
'''
