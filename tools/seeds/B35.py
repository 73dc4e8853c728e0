prop = 'C24'
needs = 'two drawings with annotations by near() or center(), of which the second shows a model within the space of the first'
what = 'the corners of earlier drawings stay among those near() and center() choose from'
edits = [('stl-to-ps.cc', '  points_ = file.Points();', '  for (const auto& p : file.Points()) points_.insert(p);')]
demo = r'''
def sized(w): return stl(((0, 0, 1), (0, 0, 0), (w, 0, 0), (0, w, 0)))
f = {'m.stl': sized(1), 'b.stl': sized(4)}
ld = 'load m="m.stl"; load b="b.stl"; page { '
d = 'draw m { @[0,0]; dim(at=[0,0,0], dir=[1,0,0], from=near([-.1,0,0]), to=near([3,0,0])); } '
a = run(ld + d + '}', f)
b = run(ld + 'draw b { @[2,0]; dim(at=[0,0,0], dir=[1,0,0], from=[0,0,0], to=[1,0,0]); } ' + d + '}', f)
check(a.rc == 0 and b.rc == 0, 'taken')
v = lambda r: [t[2] for t in r.texts if t[3] == 'CenterText show']
check(v(a) == ['1.000'] and v(b) == ['1.000', '1.000'], (v(a), v(b)))
'''
