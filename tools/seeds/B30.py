prop = 'C24'
needs = 'a drawing without a scale after one with'
what = 'a drawing without a scale takes that of the one before it'
edits = [('stl-to-ps.cc', '  std::pair<int, int> scales = {1, 1};', '  static std::pair<int, int> scales = {1, 1};')]
demo = r'''
m = {'m.stl': stl(((0, 0, 1), (-1, -1, 0), (1, -1, 0), (0, 2, 0)))}
r = run('load m="m.stl"; page { draw m { @[0,0]; scale=2:1; } } page { draw m { @[0,0]; } }', m)
check(r.rc == 0, 'taken')
a, b = [[tuple(map(float, x)) for x in re.findall(r'^newpath (\S+) (\S+) moveto (\S+) (\S+) lineto stroke', p, re.M)] for p in r.out.split('Start of page')[1:]]
w = lambda ls: max(x for l in ls[:3] for x in l[::2]) - min(x for l in ls[:3] for x in l[::2])
check(abs(w(a) - 288) < 1 and abs(w(b) - 144) < 1, (w(a), w(b)))
'''
