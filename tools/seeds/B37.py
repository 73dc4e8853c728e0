prop = 'C02'
needs = 'adjacent literals of which a later one has a NUL byte in it'
what = 'a joined literal is cut short at a NUL byte'
edits = [('parser.y', '*($$ = $1) += *$2; delete $2;', '($$ = $1)->append($2->c_str()); delete $2;')]
demo = r'''
r = run(b'page { text["a" "b\0c"] { @[0,0]; } }', flags=['numbers=0'])
check(r.rc == 0 and '(ab\0c)' in r.out, 'the whole literal')
'''
