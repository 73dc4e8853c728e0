prop = 'C27'
needs = 'a script whose reading fails (here: a directory)'
what = 'the script is copied through a stream that swallows read errors, so what was read before the failure is drawn'
edits = [('stl-to-ps.cc', '''  std::string file_string(std::istreambuf_iterator<char>(in_orig), {});
''', '''  std::ostringstream buffer;
  buffer << in_orig.rdbuf();
  const std::string file_string = buffer.str();
''')]
demo = r'''
rc, a = prog('page { text["a"] { @[0,0]; } }')
check(rc == 0 and 'showpage' in a, 'written')
rc, a = prog(None, {'d/x': ''}, name='d')
check(rc != 0 and not a, 'a directory for a script')
'''
