prop = 'C15'
needs = 'a facet in front whose corners run the wrong way round for its normal'
what = 'a facet whose corners run the wrong way round hides nothing'
edits = [('stl.cc', '''    swap(edge[0], edge[2]);
''', '')]
demo = r'''
def go(order):
    q = [(-1, -1, 1), (1, -1, 1), (0, 2, 1)]
    t = [((0, 0, 1), (0, .2, 0), (3, 0, 0), (3, 1, 0)), ((0, 0, 1), *[q[i] for i in order])]
    r = run('load m="m.stl"; page { draw m { @[0,0]; } }', {'m.stl': stl(*t)})
    check(r.rc == 0, 'taken')
    return sorted(tuple(round(x, 2) for x in min(l, l[2:] + l[:2])) for l in r.lines)
check(go((0, 1, 2)) == go((2, 1, 0)), 'what is hidden depends on the order of corners')
'''
