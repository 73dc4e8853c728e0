prop = 'C06'
needs = 'a script of more than 4096 bytes'
what = 'only the first 4096 bytes of a script are parsed, so what follows is neither drawn nor checked'
edits = [('parser.cc', 'stl2ps_scan_bytes(file.data(), file.size(), scanner)', 'stl2ps_scan_bytes(file.data(), file.size() < 4096 ? file.size() : 4096, scanner)')]
demo = r'''
s = 'page { text["a"] { @[0,0]; } }\n'
r = run(s * 300)
check(r.rc == 0 and len(r.texts) == 900, 'all pages')
r = run(s * 300 + 'junk')
check(r.rc != 0 and r.out == '', 'junk at the end')
'''
