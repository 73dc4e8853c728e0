prop = 'C14'
needs = 'two or more flat seams, placed so that the last edge of the model is a seam too'
what = 'the edge moved down in place of an invisible seam is not examined, so some flat seams are drawn'
edits = [('stl.cc', 'const int ea = i--, eb = --unseen;', 'const int ea = i, eb = --unseen;')]
demo = '''
import itertools
n = (0, 0, 1)
a, b, c, d, e = (0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 0), (2, 2, 0)
t = [(n, a, b, e), (n, b, c, e), (n, c, d, e), (n, d, a, e)]
for p in itertools.permutations(t):
    for rot in range(3):
        q = [(x[0],) + x[1 + rot:] + x[1:1 + rot] for x in p]
        r = run('load m="m.stl"; page { draw m { @[0,0]; } }', {'m.stl': stl(*q)})
        check(r.rc == 0 and len(r.lines) == 6, 'a flat sheet is its outline: %d lines' % len(r.lines))
'''
