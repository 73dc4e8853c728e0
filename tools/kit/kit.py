import os, re, subprocess, sys
W = sys.argv[1]
class R: pass
def run(script, files={}, flags=[], name='in.txt'):
    d = W + '/run'
    subprocess.run(['rm', '-rf', d]); os.makedirs(d)
    for n, t in files.items():
        os.makedirs(os.path.dirname(d + '/' + n), exist_ok=True)
        open(d + '/' + n, 'wb').write(t if isinstance(t, bytes) else t.encode())
    open(d + '/' + name, 'wb').write(script if isinstance(script, bytes) else script.encode())
    p = subprocess.run([W + '/demo', name, 'out.ps'] + flags, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    r = R(); r.rc = p.returncode; r.err = p.stderr.decode('latin1')
    r.out = open(d + '/out.ps', 'rb').read().decode('latin1') if os.path.exists(d + '/out.ps') else ''
    r.lines = [tuple(map(float, m)) for m in re.findall(r'^newpath (\S+) (\S+) moveto (\S+) (\S+) lineto stroke', r.out, re.M)]
    r.arcs = [tuple(map(float, m)) for m in re.findall(r'^newpath (\S+) (\S+) (\S+) (\S+) (\S+) arc stroke', r.out, re.M)]
    r.texts = [(float(a), float(b), s, c) for a, b, s, c in re.findall(r'^newpath (\S+) (\S+) moveto \(((?:[^\\()]|\\.|\([^()]*\))*)\) (show|CenterText show)', r.out, re.M | re.S)]
    return r
def prog(script, files={}, out='out.ps', before=None, name='in.txt', flags=[]):
    "The program itself: (exit status, what is in the output file)"
    d = W + '/run'
    subprocess.run(['rm', '-rf', d]); os.makedirs(d)
    for n, t in files.items():
        os.makedirs(os.path.dirname(d + '/' + n), exist_ok=True)
        open(d + '/' + n, 'wb').write(t if isinstance(t, bytes) else t.encode())
    if script is not None: open(d + '/' + name, 'wb').write(script.encode('latin1'))
    if before is not None: open(d + '/' + out, 'w').write(before)
    p = subprocess.run([W + '/prog', name, out] + flags, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    t = None
    if os.path.isfile(os.path.join(d, out)): t = open(os.path.join(d, out), 'rb').read().decode('latin1')
    return p.returncode, t
def stl(*tris):
    "tris: (normal, a, b, c)"
    s = 'solid m\n'
    for n, *v in tris:
        s += 'facet normal %g %g %g\nouter loop\n' % n + ''.join('vertex %g %g %g\n' % p for p in v) + 'endloop\nendfacet\n'
    return s + 'endsolid m\n'
def near(a, b, e=2e-3): return len(a) == len(b) and all(abs(x - y) <= e for x, y in zip(a, b))
def has_line(r, *l):
    return any(near(x, l) or near(x[2:] + x[:2], l) for x in r.lines)
def check(c, what):
    if not c: print('WRONG:', what); sys.exit(1)
