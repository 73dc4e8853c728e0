prop = 'C16'
needs = 'an edge with one hidden stretch nested inside a longer one that starts nearer its start'
what = 'the end of the hidden stretch moves back to the end of the nested one, so hidden parts of the edge are drawn'
edits = [('stl.cc', '''      if (d < n) {
        d = n;
        from = hid.second;
      }''', '''      d = n;
      from = hid.second;''')]
demo = '''
def quad(x0, x1, y0, y1, z):
    a, b, c, d = (x0, y0, z), (x1, y0, z), (x1, y1, z), (x0, y1, z)
    n = (0, 0, 1)
    return [(n, a, b, c), (n, a, c, d)]
# A far line (edge of a thin triangle at z=0) behind a wide sheet, which has a narrow one on top.
t = [((0, 0, 1), (0, 0, 0), (10, 0, 0), (5, -1, 0))] + quad(2, 8, -3, 3, 2) + quad(3, 4, -3.5, 3.5, 4)
r = run('load m="m.stl"; page { draw m { @[0,0]; scale=1:2; } }', {'m.stl': stl(*t)})
check(r.rc == 0, 'taken')
ys = [l for l in r.lines if abs(l[1] - l[3]) < 1e-3 and abs(l[1] - 306) < 1]
tot = sum(abs(l[0] - l[2]) for l in ys)
check(abs(tot - 4 * 36) < 1, 'visible part of the edge is 4 of 10, drawn %g' % (tot / 36))
'''
