prop = 'C18'
needs = 'a dimension drawn at a scale other than 1:1 with a length between the fits of the two scales'
what = 'whether the text fits between the arrows is decided as if the scale were 1:1'
edits = [('stl-to-ps.cc', 'if (gap * 2 < dim_value * proj.scale) {', 'if (gap * 2 < dim_value * 72) {')]
demo = '''
m = stl(((0, 0, 1), (0, 0, 0), (2, 0, 0), (0, 1, 0)))
def outer(scale, length):
    r = run('load m="m.stl"; page { draw m { @[0,0]; scale=%s; dim(at=[%g,3,0],dir=[1,0,0],from=[0,0,0],to=[%g,0,0]); } }' % (scale, length / 2, length), {'m.stl': m})
    ls = [l for l in r.lines[3:5]]
    xs = [x for l in ls for x in (l[0], l[2])]
    k = 72 * eval(scale.replace(':', '/'))
    return max(xs) - min(xs) > length * k + 1
for s in ('1:1', '1:8', '1:40', '9:1'):
    k = 72 * eval(s.replace(':', '/'))
    check(outer(s, 20 / k), 'short one from outside at ' + s)
    check(not outer(s, 60 / k), 'long one with the text between at ' + s)
'''
