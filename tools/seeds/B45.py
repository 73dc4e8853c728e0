prop = 'C18'
needs = 'a dimension along a direction that the view shows from aslant'
what = 'the length shown is the one on the page, not the one in the model'
edits = [('stl-to-ps.cc', 'double dim_value = length.norm();', 'double dim_value = length.head<2>().norm();')]
demo = r'''
m = stl(((0, 0, 1), (0, 0, 0), (2, 0, 0), (0, 2, 0)))
for v in ['"Z+"', '[30,40]', '[-120,20]']:
    r = run('load m="m.stl"; page { draw m { @[0,0]; view=%s; dim(at=[1,3,0], dir=[.6,0,.8], from=[0,0,0], to=[3,0,1]); } }' % v, {'m.stl': m})
    check(r.rc == 0 and '2.600' in [t[2] for t in r.texts], 'the distance in the model')
'''
