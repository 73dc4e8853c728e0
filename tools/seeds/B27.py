prop = 'C21'
needs = 'more corners than wanted, the last of them equally far from the rough centre'
what = 'throwing out the last corner throws out all that are as far'
edits = [('ast.cc', 'c.erase(--c.end());', 'c.erase(c.rbegin()->first);')]
demo = r'''
import math
# A square hole; the rough centre is its centre, so all corners are equally far.
q = [(1, 1), (-1, 1), (-1, -1), (1, -1)]
t = []
for i in range(4):
    a, b = q[i], q[(i + 1) % 4]
    t += [((0, 0, 1), (a[0], a[1], 0), (4 * a[0], 4 * a[1], 0), (4 * b[0], 4 * b[1], 0)), ((0, 0, 1), (a[0], a[1], 0), (4 * b[0], 4 * b[1], 0), (b[0], b[1], 0))]
r = run('load m="m.stl"; page { draw m { @[0,0]; scale=1:2; dim(at=[0,2,0], dir=[1,0,0], from=[3,0,0], to=center([0,0,0])); } }', {'m.stl': stl(*t)})
check(r.rc == 0, 'taken')
check(any(x[2] == '3.000' for x in r.texts), r.texts)
'''
