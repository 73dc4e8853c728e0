prop = 'C17'
needs = 'a model whose bounding box does not reach around the origin'
what = 'the bounding box always takes in the origin, so such models are not centred where placed'
edits = [('stl.cc', 'Eigen::RowVector3d minp = facets[0].edge[0];', 'Eigen::RowVector3d minp = geo::point::zero;')]
demo = '''
m = stl(((0, 0, 1), (5, 6, 0), (7, 6, 0), (5, 7, 0)))
r = run('load m="m.stl"; page { draw m { @[1,-1]; } }', {'m.stl': m})
xs = [x for l in r.lines[:3] for x in (l[0], l[2])]; ys = [x for l in r.lines[:3] for x in (l[1], l[3])]
check(near(((max(xs) + min(xs)) / 2, (max(ys) + min(ys)) / 2), (396 + 72, 306 - 72)), 'centred where placed')
'''
