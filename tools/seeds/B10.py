prop = 'C10'
needs = 'a facet with a zero normal followed by a right one'
what = 'the corners of a left out facet are counted to the next one'
edits = [('stl.cc', '''      norm = {x, y, z};
      points.clear();
      continue;''', '''      norm = {x, y, z};
      continue;''')]
demo = '''
m = stl(((0, 0, 0), (5, 0, 0), (7, 0, 0), (5, 1, 0)), ((0, 0, 1), (0, 0, 0), (2, 0, 0), (0, 1, 0)))
r = run('load m="m.stl"; page { draw m { @[0,0]; } }', {'m.stl': m})
check(r.rc == 0 and len(r.lines) == 5, 'the right facet is drawn')
'''
