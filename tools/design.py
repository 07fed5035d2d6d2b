"""writes the generated part of DESIGN.md: one section per property from the contracts, the drivers, meta.py and seeded/"""
import ast, glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPS
from meta import META
def first(d): return ' '.join((d or '').split())
def contracts(pid):
    t = ast.parse(open(os.path.join(H, 'contracts', pid.lower() + '.py')).read()); out = []
    for f in ast.walk(t):
        if not isinstance(f, ast.FunctionDef): continue
        for d in f.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'contract':
                name = next((ast.literal_eval(k.value) for k in d.keywords if k.arg == 'name' and isinstance(k.value, ast.Constant)), f.name)
                out.append((f.lineno, name, first(ast.get_docstring(f))))
    return sorted(out)
def checks(pid):
    t = ast.parse(open(os.path.join(H, 'concrete', pid.lower() + '.py')).read())
    return [f.name for f in t.body if isinstance(f, ast.FunctionDef) and any(isinstance(d, ast.Attribute) and d.attr == 'check' for d in f.decorator_list)]
seeds = {}
for p in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(p)); seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(p)), m))
o = []
for q in PROPS:
    i = q['id']
    o.append('### %s  %s' % (i, q['title']))
    if i not in META: o += ['Not applicable: ' + (q['na'] or ''), '']; continue
    o += [q['statement'], '', 'Contracts (`contracts/%s.py`; every obligation for all inputs unless the text says bounded):' % i.lower()]
    o += ['- `%s`%s' % (n, ': ' + d if d else '') for _, n, d in contracts(i)]
    o += ['', 'Bounded evaluation of the same contracts on the running code (`concrete/%s.py`): %s.' % (i.lower(), ', '.join(checks(i)))]
    if META[i]['assumptions']: o += ['', 'Assumed or bounded:'] + ['- ' + a for a in META[i]['assumptions']]
    if i in seeds: o += ['', 'Planted bugs caught by this check: ' + '; '.join('`%s` (%s)' % (n, m['needs']) for n, m in seeds[i]) + '.']
    o.append('')
p = os.path.join(H, 'DESIGN.md'); s = open(p).read(); a, b = '<!-- generated: tools/design.py -->\n', '<!-- end -->\n'
s = s[:s.index(a)] + a + '\n'.join(o) + b + s[s.index(b) + len(b):]
open(p, 'w').write(s); print(len(o), 'lines')
