prop = 'C07'
needs = 'a drawing with an annotation which has two properties of one name'
what = 'a repeated property of an angle is reported but the run goes on'
edits = [('stl-to-ps.cc', '  bool ok = true;\n\n  std::map<std::string, Meta*> seen;\n  ok &= Flatten("angle", dim.meta_list, &seen);', '  bool ok = true;\n\n  std::map<std::string, Meta*> seen;\n  Flatten("angle", dim.meta_list, &seen);')]
demo = r'''
m = {'m.stl': stl(((0, 0, 1), (-1, -1, 0), (1, -1, 0), (0, 2, 0)))}
A = 'load m="m.stl"; page { draw m { @[0,0]; angle(at=[1,1,0], apex=[0,0,0], from_dir=[1,0,0], to_dir=[0,1,0]%s); } }'
r = run(A % '', m)
check(r.rc == 0 and r.out, 'taken')
r = run(A % ', fmt="%.2f", fmt="%.3f"', m)
check(r.rc != 0 and not r.out, 'a property twice')
'''
