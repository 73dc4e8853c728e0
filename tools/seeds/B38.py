prop = 'C16'
needs = 'two hidden stretches of an edge with a short visible one between them'
what = 'short visible stretches far from the start of the edge are lost'
edits = [('stl.cc', '''      if (d < hid_d) {''', '''      if (d + .1 < hid_d) {''')]
demo = r'''
def quad(x0, x1, y0, y1, z):
    a, b, c, d = (x0, y0, z), (x1, y0, z), (x1, y1, z), (x0, y1, z)
    n = (0, 0, 1)
    return [(n, a, b, c), (n, a, c, d)]
t = [((0, 0, 1), (0, 0, 0), (2, 0, 0), (1, -1, 0))] + quad(.5, 1, -3, 3, 2) + quad(1.04, 1.5, -3, 3, 3)
r = run('load m="m.stl"; page { draw m { @[0,0]; } }', {'m.stl': stl(*t)})
ys = [l for l in r.lines if abs(l[1] - l[3]) < 1e-3 and abs(l[1] - 306) < 1]
tot = sum(abs(l[0] - l[2]) for l in ys)
check(r.rc == 0 and abs(tot - 1.04 * 72) < .5, 'visible part is 1.04, drawn %g' % (tot / 72))
'''
