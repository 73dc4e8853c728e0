prop = 'C23'
needs = 'a document with more than one page'
what = 'pages are labelled as if each were the last'
edits = [('stl-to-ps.cc', 'ps::PageHeader(++page_number, pages.size(), out);', 'ps::PageHeader(++page_number, std::max<int>(page_number, pages.size() - 1), out);')]
demo = r'''
r = run('page { text["a"] { @[0,0]; } } page { text["b"] { @[0,0]; } } page { text["c"] { @[0,0]; } }')
check([x[2] for x in r.texts if 'page' in x[2]] == ['page %d of 3' % i for i in (1, 2, 3)], r.texts)
'''
