prop = 'C02'
needs = 'a literal that ends in an escape'
what = 'an escape is only decoded when more follows it in the literal'
edits = [('ast.cc', "    if (ret[f] != '\\\\') {", "    if (ret[f] != '\\\\' || f + 2 >= ret.length() - 1) {")]
demo = r'''
r = run('page { text["ab\\n\\"c\\\\d"] { @[0,0]; } }')
check([t[2] for t in r.texts if t[0] == 396] == ['ab', '"c\\\\d'], r.texts)
r = run('page { text["end\\\\"] { @[0,0]; } }')
check([t[2] for t in r.texts if t[0] == 396] == ['end\\\\'], r.texts)
r = run('page { text["end\\n" "more"] { @[0,0]; } }')
check([t[2] for t in r.texts if t[0] == 396] == ['end', 'more'], r.texts)
'''
