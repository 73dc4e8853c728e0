prop = 'C26'
needs = 'an output file that exists already and is longer than the new document'
what = 'what was in the output file before is kept behind the document'
edits = [('stl-to-ps-main.cc', '(std::ios::out | std::ios::trunc)', '(std::ios::out | std::ios::app)')]
demo = r'''
S = 'page { text["a"] { @[0,0]; } }'
rc, a = prog(S)
check(rc == 0 and 'showpage' in a, 'written')
rc, b = prog(S, before='x' * 10000)
check(rc == 0 and len(a) == len(b) and 'xxx' not in b, 'only the document is in the file')
'''
