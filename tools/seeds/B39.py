prop = 'C09'
needs = 'a model named with a directory, found only in a load path entry'
what = 'names with a directory in them are not looked up in the load path'
edits = [('stl-to-ps.cc', "if (file.find('/') == 0) {", "if (file.find('/') != std::string::npos) {")]
demo = r'''
m = stl(((0, 0, 1), (0, 0, 0), (1, 0, 0), (0, 1, 0)))
r = run('load m="s/m.stl"; page { draw m { @[0,0]; } }', {'a/s/m.stl': m}, ['load_path=a'])
check(r.rc == 0 and len(r.lines) == 5, 'found')
'''
