prop = 'C15'
needs = 'an edge that starts below a facet and ends beyond its third side'
what = 'the far end of an edge counts as covered by a facet when it is within only two of its sides'
edits = [('stl.cc', '        if ((x0 >= 0) && (x1 >= 0) && (x2 >= 0)) {\n          hidden_points[idx++] = {ev.second,', '        if ((x0 >= 0) && (x1 >= 0)) {\n          hidden_points[idx++] = {ev.second,')]
demo = r'''
# A cover with its corners in every order, and an edge below it, out over each of its sides.
c = [(0, 0, 2), (4, 0, 2), (0, 4, 2)]
for k in range(3):
    cover = ((0, 0, 1), c[k], c[(k + 1) % 3], c[(k + 2) % 3])
    for a, b, vis in [((1, 1), (-5, 1), 5), ((1, 1), (1, -5), 5), ((1, 1), (6, 6), (4 ** 2 * 2) ** .5)]:
        far = (b[0] * 2, b[1] * 2)
        low = ((0, 0, 1), a + (0,), b + (0,), (b[0] + .3, b[1] + .5, 0) if (b[0] - a[0]) * .5 - (b[1] - a[1]) * .3 > 0 else (b[0] - .3, b[1] - .5, 0))
        r = run('load m="m.stl"; page { draw m { @[0,0]; scale=1:4; } }', {'m.stl': stl(cover, low)}, flags=['numbers=0'])
        check(r.rc == 0, 'taken')
        d = (b[0] - a[0], b[1] - a[1]); L = (d[0] ** 2 + d[1] ** 2) ** .5
        # lines in the direction of a-b
        n = sum(((l[2] - l[0]) ** 2 + (l[3] - l[1]) ** 2) ** .5 for l in r.lines[:-2]
                if ((l[2] - l[0]) ** 2 + (l[3] - l[1]) ** 2) ** .5 > 0 and abs((l[2] - l[0]) * d[1] - (l[3] - l[1]) * d[0]) / L < 1e-2) / 18
        # the cover's own sides along the axes count too
        side = 4 if (d[0] == 0 or d[1] == 0) else 0
        check(abs(n - side - vis) < .02, (k, b, n - side, vis))
'''
