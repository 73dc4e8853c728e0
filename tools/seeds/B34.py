prop = 'C05'
needs = 'a comment with a carriage return within it'
what = 'a comment ends at a carriage return, so the rest of it is read as script'
edits = [('lexer.l', r'''\/\/.*      ;''', r'''\/\/[^\r\n]*      ;''')]
demo = r'''
a = run(b'page { // one\n text["a"] { @[0,0]; } }')
b = run(b'page { // one\rtwo\n text["a"] { @[0,0]; } }')
check(a.rc == 0 and b.rc == 0 and a.texts == b.texts, 'a comment is a comment')
'''
