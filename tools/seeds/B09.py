prop = 'C09'
needs = 'a file of the same name both in the current directory and in a load path entry'
what = 'the current directory is searched last instead of first'
edits = [('stl-to-ps.cc', 'r.insert(r.begin(), ".");', 'r.push_back(".");')]
demo = '''
def sized(w): return stl(((0, 0, 1), (0, 0, 0), (w, 0, 0), (0, 1, 0)))
f = {'m.stl': sized(1), 'a/m.stl': sized(2)}
r = run('load m="m.stl"; page { draw m { @[0,0]; } }', f, ['load_path=a'])
xs = [x for l in r.lines[:3] for x in (l[0], l[2])]
check(r.rc == 0 and abs(max(xs) - min(xs) - 72) < 1e-2, 'read from the current directory')
'''
