"""mechanical extraction of the functions of a .pyx file to Python text: declarations of C types, casts, decorators and the memory
management (malloc/free) are dropped, everything else is kept as it is written.  What is lost: C integers and doubles are treated as
integers and reals; bounds are those of the proof obligations of the extracted text"""
import re, types, os

def _decl(line):
    """`cdef T a = e, b = f` -> assignments"""
    ind = re.match(r'\s*', line).group()
    s = line.strip()[4:].strip()
    s = re.sub(r'^(unsigned\s+|signed\s+|const\s+|long\s+)*', '', s)
    s = re.sub(r'^(np\.ndarray\s*\[[^\]]*\]|[A-Za-z_][\w.]*)', '', s, count=1).strip()
    parts = []; depth = 0; cur = ''
    for ch in s:
        if ch in '([{': depth += 1
        if ch in ')]}': depth -= 1
        if ch == ',' and depth == 0: parts.append(cur); cur = ''
        else: cur += ch
    parts.append(cur)
    out = []
    for p in parts:
        p = p.strip().lstrip('*').strip()
        if '=' in p: out.append('%s%s = %s' % (ind, p.split('=', 1)[0].strip(), p.split('=', 1)[1].strip()))
    return out or [ind + 'pass']
CAST = re.compile(r'<\s*(?:unsigned\s+)?[A-Za-z_]\w*\s*\**\s*>\s*')
def to_python(src):
    out = []; skip = None
    for line in src.split('\n'):
        st = line.strip()
        if skip is not None:
            if st and len(line) - len(line.lstrip()) > skip: continue
            skip = None
        if st.startswith('cdef extern'): skip = len(line) - len(line.lstrip()); continue
        if st.startswith('ctypedef') or re.match(r'(from\s+\S+\s+)?cimport\b', st) or st.startswith('@cython') or st.startswith('free('):
            out.append(re.match(r'\s*', line).group() + 'pass' if st.startswith('free(') else ''); continue
        code = line if st.startswith('#') else CAST.sub('', line)
        code = re.sub(r'\bmalloc\((.*?)\s*\*\s*sizeof\([^)]*\)\)', r'malloc(\1)', code)
        code = re.sub(r'\bfor (\w+) from 0 <= \1 < (.+?):', r'for \1 in range(\2):', code)
        code = re.sub(r'\bfor (\w+) from (.+?) > \1 >= (.+?):', r'for \1 in range((\2) - 1, (\3) - 1, -1):', code)
        if st.startswith('cdef ') and not st.rstrip().endswith(':'): out.extend(_decl(code)); continue
        code = re.sub(r'np\.ndarray\s*\[[^\]]*\]\s*(\w+)', r'\1', code)
        code = re.sub(r'\b(\w+) not None\b', r'\1', code)
        out.append(code)
    return '\n'.join(out)
CACHE = {}
def load(rel, **names):
    from . import loader
    """module of the extracted functions, run under the shim"""
    loader.install()
    p = os.path.join(loader.REPO, rel)
    if p not in CACHE:
        with open(p) as f: CACHE[p] = loader.transform(to_python(f.read()), p)
    m = types.ModuleType('pyx_' + os.path.basename(rel).split('.')[0])
    m.__dict__['__builtins__'] = loader.BUILTINS; m.__file__ = p
    exec(CACHE[p], m.__dict__)
    m.__dict__.update(names)
    return m
