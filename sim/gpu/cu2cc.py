"""Turns CUDA C++ into C++: launches and shared memory become calls of the simulated GPU."""
import re, sys
OPEN = {')': '(', '>': '<', ']': '['}
def blank(s):
    """comments and literals replaced by spaces of the same length"""
    def f(m): return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', f, s, flags=re.S)
def back(b, i):
    """start of the callee expression that ends before position i"""
    while b[i-1].isspace(): i -= 1
    if b[i-1] in ')>':
        c = b[i-1]; o = OPEN[c]; d = 0; j = i-1
        while True:
            if b[j] == c: d += 1
            elif b[j] == o:
                d -= 1
                if d == 0: break
            j -= 1
        i = j
        if c == ')': return i
    while b[i-1].isspace(): i -= 1
    while re.match(r'[\w:]', b[i-1]): i -= 1
    return i
def match(b, i):
    """position after the bracket that closes the one at i"""
    d = 0
    while True:
        if b[i] == '(': d += 1
        elif b[i] == ')':
            d -= 1
            if d == 0: return i+1
        i += 1
def transform(s):
    while True:
        b = blank(s); i = b.find('<<<')
        if i < 0: break
        a = back(b, i); j = b.index('>>>', i); k = b.index('(', j); e = match(b, k)
        callee, cfg, args = s[a:i].strip(), s[i+3:j], s[k+1:e-1]
        name = re.sub(r'\W+', ' ', callee).strip()
        s = s[:a] + 'simgpu_go(%s, "%s", simgpu_bind([](auto... simgpu_a) { %s(simgpu_a...); }%s))' % (cfg, name, callee, ', ' + args if args.strip() else '') + s[e:]
    n = [0]
    def ext(m): return '#define %s ((%s*)simgpu_dynamic())\n' % (m.group(2), m.group(1).strip())
    b = blank(s)
    for m in reversed(list(re.finditer(r'extern\s+__shared__\s+([\w:\s]+?)\s*\b(\w+)\s*\[\s*\]\s*;', b))):
        s = s[:m.start()] + '\n' + ext(m) + s[m.end():]
    b = blank(s)
    for m in reversed(list(re.finditer(r'((?:\b(?:volatile|static|const)\s+)*)__shared__\s+([^;]*);', b))):
        t = (m.group(1).replace('static', '') + ' ' + m.group(2)).strip()
        parts = t.split(',')
        q = re.match(r'((?:volatile\s+|const\s+|unsigned\s+)*[\w:]+(?:\s*<[^>]*>)?)\s+(.*)$', parts[0], re.S)
        base = q.group(1); ds = [q.group(2)] + parts[1:]; o = ''
        for d in ds:
            v = re.match(r'\s*(\w+)\s*((?:\[[^\]]*\]\s*)*)$', d, re.S)
            o += 'static char simgpu_k_%s; typedef %s simgpu_t_%s%s; auto &%s = *simgpu_sh<simgpu_t_%s>(&simgpu_k_%s); ' % (v.group(1), base, v.group(1), v.group(2), v.group(1), v.group(1), v.group(1))
        s = s[:m.start()] + o + s[m.end():]
    return s
if __name__ == '__main__':
    src, dst = sys.argv[1:3]
    open(dst, 'w').write('#line 1 "%s"\n' % src + transform(open(src).read()))
