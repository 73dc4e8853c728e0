prop = 'C25'
needs = 'a radius whose format has no conversion'
what = 'a format that shows no value is taken for a radius'
edits = [('stl-to-ps.cc', '    auto user_fmt = absl::ParsedFormat<\'f\'>::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt) << "Invalid fmt argument for rad: must be a \'%f\' type";', '    auto user_fmt = absl::ParsedFormat<\'f\'>::NewAllowIgnored(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt) << "Invalid fmt argument for rad: must be a \'%f\' type";')]
demo = r'''
m = {'m.stl': stl(((0, 0, 1), (-1, -1, 0), (1, -1, 0), (0, 2, 0)))}
A = 'load m="m.stl"; page { draw m { @[0,0]; rad(at=[2,2,0], dir=[1,0,0], center=[0,0,0], fmt="%s"); } }'
r = run(A % 'a %.2f', m)
check(r.rc == 0 and any(x[2].startswith('Ra 1') for x in r.texts), r.texts)
for f in ('', 'wide', '100%%'):
    r = run(A % f, m)
    check(r.rc != 0 and not r.out, f)
'''
