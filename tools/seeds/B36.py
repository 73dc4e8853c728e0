prop = 'C18'
needs = 'a dimension whose text is longer than six characters and only just fits'
what = 'the width of the text is taken as that of six characters at most, so the lines run through longer texts'
edits = [('stl-to-ps.cc', '  double width = ps::kFontSize * 0.3 * t.str.length() + 1;', '  double width =\n      ps::kFontSize * 0.3 * std::min<size_t>(t.str.length(), 6) + 1;')]
demo = r'''
m = stl(((0, 0, 1), (0, 0, 0), (2, 0, 0), (0, 2, 0)))
r = run('load m="m.stl"; page { draw m { @[0,0]; dim(at=[1,3,0], dir=[1,0,0], from=[0,0,0], to=[2,0,0], fmt="%.9f"); } }', {'m.stl': m})
check(r.rc == 0, 'taken')
x, y, s, c = [t for t in r.texts if t[3] == 'CenterText show'][0]
half = len(s) * 8 * .3
for a, b, p, q in r.lines:
    if abs(b - y) < 1e-3 and abs(q - y) < 1e-3:
        check(min(a, p) > x + half - .01 or max(a, p) < x - half + .01, 'a line through the text')
'''
