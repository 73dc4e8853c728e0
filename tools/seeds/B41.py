prop = 'C13'
needs = 'a model (of one side only) none of whose facets faces the reader'
what = 'when every facet faces away, all are drawn'
edits = [('stl.cc', '  facets.resize(j);', '  if (j > 0) facets.resize(j);')]
demo = r'''
m = stl(((0, 0, -1), (0, 0, 0), (1, 0, 0), (0, 1, 0)))
r = run('load m="m.stl"; page { draw m { @[0,0]; } }', {'m.stl': m})
check(r.rc == 0 and len(r.lines) == 2, 'nothing but the page')
'''
