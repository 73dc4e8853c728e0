prop = 'C03'
needs = 'a text with parentheses in which some closing one has an opening one before it'
what = 'parentheses that look balanced are not escaped, but pairs are counted in the wrong order: ")(" goes out bare'
edits = [('ps.cc', '      for (char c : t.str) {\n', "      const bool paired = std::count(t.str.begin(), t.str.end(), '(') ==\n                          std::count(t.str.begin(), t.str.end(), ')');\n      for (char c : t.str) {\n"), ('ps.cc', "          case '(':\n          case ')':\n          case '\\\\':\n            s.push_back('\\\\');\n            s.push_back(c);", "          case '(':\n          case ')':\n          case '\\\\':\n            if (c == '\\\\' || !paired) s.push_back('\\\\');\n            s.push_back(c);")]
demo = r'''
def read(s):
    "The string objects of a PostScript text"
    out, i = [], 0
    while i < len(s):
        if s[i] == '%':
            while i < len(s) and s[i] != '\n': i += 1
        elif s[i] == '(':
            d, t, i = 1, '', i + 1
            while i < len(s):
                c = s[i]
                if c == '\\':
                    i += 1; t += s[i]
                elif c == '(': d += 1; t += c
                elif c == ')':
                    d -= 1
                    if d == 0: break
                    t += c
                else: t += c
                i += 1
            out.append(t)
        i += 1
    return out
for t in ['plain', 'f(x)', 'a)b(c', '(()', 'x\\\\']:
    r = run('page { text["%s"] { @[0,0]; } }' % t, flags=['numbers=0'])
    check(r.rc == 0 and t.replace('\\\\', '\\') in read(r.out) and len(read(r.out)) == 2, (t, read(r.out)))
'''
