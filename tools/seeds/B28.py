prop = 'C22'
needs = 'a text with an empty line within'
what = 'empty lines take no room'
edits = [('stl-to-ps.cc', '      current_page->text.push_back(t);\n    }\n    t.at.y() -= 12;', '      current_page->text.push_back(t);\n      t.at.y() -= 12;\n    }')]
demo = r'''
r = run('page { text["a\\n\\nb"] { @[1,2]; } }', flags=['numbers=0'])
check([x[:3] for x in r.texts][-2:] == [(468, 450, 'a'), (468, 426, 'b')] or [x[:3] for x in r.texts][:2] == [(468, 450, 'a'), (468, 426, 'b')], r.texts)
'''
