prop = 'C01'
needs = 'an error whose message is longer than 60 bytes and which spans one line'
what = 'the message of a single line error is cut off'
edits = [('parser_support.cc', 'fprintf(stderr, "error %s:%d:[%d,%d]: %s\\n",  //', 'fprintf(stderr, "error %s:%d:[%d,%d]: %.60s\\n",  //')]
demo = r'''
# Call the reporting function itself.
import subprocess
open(W + '/e.cc', 'w').write(r"""
#include <string>
#include "stl-to-ps/parser_support.h"
int main() { std::string f = "a.txt"; stl2ps::error(&f, 3, 1, 3, 9, std::string(100, 'x') + "!"); stl2ps::error(&f, 3, 1, 4, 9, "y"); }
""")
subprocess.check_call(['g++', '-std=c++17', '-w', '-I' + os.path.dirname(os.path.abspath(__file__)) + '/kit/shim', '-I' + os.getcwd(), '-isystem', '/usr/include/eigen3', W + '/e.cc', W + '/parser_support.o', '-o', W + '/e'])
r = subprocess.run([W + '/e'], stderr=subprocess.PIPE).stderr.decode()
check(r == 'error a.txt:3:[1,9]: ' + 'x' * 100 + '!\nerror a.txt:3:1 to 4:9: y\n', r)
'''
