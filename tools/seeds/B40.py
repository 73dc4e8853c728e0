prop = 'C08'
needs = 'a page with a property twice, drawings that are right, and a later right page'
what = 'a faulty page is forgotten when a later one is right'
edits = [('stl-to-ps.cc', '    ok &= Flatten("page", doc_page.meta, &seen);', '    ok = Flatten("page", doc_page.meta, &seen);')]
demo = r'''
r = run('page { name="a"; name="b"; } page { name="c"; }')
check(r.rc != 0 and r.out == '', 'refused')
r = run('page { name="a"; } page { name="b"; name="c"; }')
check(r.rc != 0 and r.out == '', 'refused')
'''
