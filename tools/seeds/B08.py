prop = 'C08'
needs = 'a faulty annotation followed by a right one in the same drawing'
what = 'only the last annotation of a drawing decides whether the drawing is right'
edits = [('stl-to-ps.cc', 'for (const auto& dim : dims) ok &= dim->VisitNode(this);', 'for (const auto& dim : dims) ok = dim->VisitNode(this);')]
demo = '''
m = stl(((0, 0, 1), (0, 0, 0), (2, 0, 0), (0, 1, 0)))
good = 'dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=[2,0,0]);'
bad = 'dim(at=[0,0,0],dir=[0,0,0],from=[0,0,0],to=[2,0,0]);'
for a, b, want in ((good, good, 0), (good, bad, 1), (bad, good, 1)):
    r = run('load m="m.stl"; page { draw m { @[0,0]; %s %s } }' % (a, b), {'m.stl': m})
    check(r.rc == want and (want == 0) == bool(r.out), 'rc %d wanted %d' % (r.rc, want))
'''
