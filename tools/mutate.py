#!/usr/bin/env python3
"""Development helper: mutation testing of the checks.
  mutate.py list                      number of mutants per file
  mutate.py run WORKER OF [FILE...]   runs every OF-th mutant (run it inside of ns.sh: it edits /repo)
Results go to /tmp/mut/results.jsonl; mutants already there are skipped."""
import sys, re, os, subprocess, json, time, hashlib, random
REPO = '/repo'
SKIP = ('tests/', 'lester/build.rs', 'lester/tests', 'proc-macros/src/generic.rs', 'tagged_union', 'lester/src/lib.rs', 'victor/src/lib.rs')
ALL_LAYOUT = ['C20', 'C16', 'C17', 'C18', 'C19', 'C21', 'C22', 'C01']
CSS = ['C15', 'C13', 'C12', 'C01', 'C16']
MAP = [
  (r'lester/src/(poppler|convert)', ['C25', 'C26', 'C23', 'C24']),
  (r'lester/src/(cairo|errors)', ['C23', 'C24', 'C25', 'C27']),
  (r'victor/src/dom/html', ['C09', 'C20', 'C14', 'C10', 'C13', 'C01']),
  (r'victor/src/dom/xml', ['C11', 'C14', 'C10']),
  (r'victor/src/dom/mod', ['C09', 'C10', 'C11', 'C13', 'C14', 'C20', 'C22', 'C01']),
  (r'victor/src/fonts', ['C05', 'C06', 'C04', 'C07', 'C08', 'C18']),
  (r'victor/src/layout|victor/src/geom|victor/src/paint', ALL_LAYOUT),
  (r'victor/src/main', ['C27']),
  (r'victor/src/pdf', ['C02', 'C03', 'C04', 'C27', 'C01', 'C25']),
  (r'victor/src/primitives', ['C03', 'C08', 'C25']),
  (r'victor/src/style/selectors', ['C14', 'C12', 'C01']),
  (r'victor/src/style/(cascade|rules)', ['C13', 'C12', 'C14', 'C01']),
  (r'victor/src/style|proc-macros', CSS + ALL_LAYOUT[:5]),
  (r'victor/src/text_plain', ['C08', 'C07']),
  (r'victor/src/text', ['C07', 'C08', 'C18']),
]
SWAPS = [('inline', 'block'), ('start', 'end'), ('top', 'bottom'), ('left', 'right'), ('first', 'last'),
         ('next', 'previous'), ('width', 'height'), ('max', 'min'), ('x', 'y'), ('push', 'insert_nothing')]

def files():
    out = subprocess.run(['git', 'ls-files', '*.rs'], cwd=REPO, capture_output=True, text=True).stdout.split()
    return [f for f in out if not any(f.startswith(s) or s in f for s in SKIP)]

def code_spans(line):
    """the line with comments and string contents blanked"""
    s = re.sub(r'b?"(\\.|[^"\\])*"', lambda m: '"' + '_' * (len(m.group()) - 2) + '"', line)
    s = re.sub(r"b?'(\\.|[^'\\])'", lambda m: '_' * len(m.group()), s)
    i = s.find('//')
    return s[:i] if i >= 0 else s

def mutants(path):
    lines = open(os.path.join(REPO, path)).read().split('\n')
    out = []
    in_test = False
    for n, line in enumerate(lines):
        if '#[cfg(test)]' in line: in_test = True
        if in_test: continue
        s = code_spans(line)
        st = s.strip()
        if not st or st.startswith(('use ', 'pub use', '#', 'extern', 'mod ', 'pub mod', '*', '/*')): continue
        def sub(a, b, text, kind):
            new = line[:a] + text + line[b:]
            if new != line: out.append((n, kind, new))
        for m in re.finditer(r' (<|>|<=|>=|==|!=|&&|\|\||\+|-|\*|/|%|\+=|-=|<<|>>|\|=|&) ', s):
            op = m.group(1)
            if op in '<>' and re.search(r'\b(impl|fn|where|type|struct|enum)\b', s): continue
            for r in {'<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<', '>='], '>=': ['>', '<='], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'],
                      '+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '%': ['/'], '+=': ['-=', '='], '-=': ['+='], '<<': ['>>'], '>>': ['<<'], '|=': ['='], '&': ['|']}.get(op, []):
                sub(m.start(1), m.end(1), r, 'op')
        for m in re.finditer(r'(?<![\w.#])(\d+)(?![\w.]|\.\d)', s):
            if '=>' in s and re.match(r'\s*\d+', s): continue
            v = int(m.group(1))
            for r in {v + 1, max(v - 1, 0)} - {v}: sub(m.start(1), m.end(1), str(r), 'int')
        for m in re.finditer(r'(?<![\w.])(\d+\.\d*)(?!\.)', s):
            v = float(m.group(1))
            sub(m.start(1), m.end(1), repr(v + 1.), 'float')
        for m in re.finditer(r'\b(true|false)\b', s):
            sub(m.start(1), m.end(1), 'false' if m.group(1) == 'true' else 'true', 'bool')
        m = re.match(r'(\s*(?:\} else )?if )(?!let\b)(.*)( \{\s*)$', s)
        if m:
            sub(m.start(2), m.end(2), 'true', 'cond'); sub(m.start(2), m.end(2), 'false', 'cond')
        m = re.match(r'(\s*while )(?!let\b)(.*)( \{\s*)$', s)
        if m: sub(m.start(2), m.end(2), 'false', 'cond')
        for m in re.finditer(r'(?<![=\w!])!(?=[\w(])', s):
            sub(m.start(), m.end(), '', 'not')
        for a, b in SWAPS:
            for x, y in ((a, b), (b, a)):
                for m in re.finditer(r'(?<![A-Za-z])(%s)(?![A-Za-z])' % x, s):
                    if re.search(r'\b(fn|struct|let %s)\b' % x, s): continue
                    sub(m.start(1), m.end(1), y, 'swap')
        if re.match(r'^\s*[\w.*\[\]()&:?]+.*;\s*$', s) and not re.match(r'\s*(let|return|break|continue|const|static|type|pub|use|fn)\b', s) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
            out.append((n, 'delete', '/* ' + line.replace('*/', '* /').replace('/*', '/ *') + ' */'))
        # without a trailing semicolon
        if re.match(r'^\s+self\.\w+.*[)\w]\s*$', s) and s.count('(') == s.count(')') and '{' not in s and ('=' in s or s.rstrip().endswith(')')):
            out.append((n, 'delete', ''))
        m = re.match(r'^(\s*)(.*)\.(unwrap_or|or_else|filter|rev|trim\w*|to_ascii_lowercase|abs|skip)\(([^()]*)\)(.*)$', s)
        if m and m.group(3) in ('rev', 'abs', 'to_ascii_lowercase', 'filter', 'skip') or (m and m.group(3).startswith('trim')):
            a = s.index('.' + m.group(3) + '(')
            sub(a, a + len(m.group(3)) + 3 + len(m.group(4)), '', 'call')
        # alternatives in patterns
        if '=>' in s:
            pat = s[:s.index('=>')]
            for m in re.finditer(r' \| [^|]+?(?= \||\s*$| if )', pat):
                sub(m.start(), m.end(), '', 'alt')
            if ' if ' in pat:
                a = pat.index(' if '); sub(a, len(pat.rstrip()), '', 'guard')
    seen = set(); res = []
    for n, k, new in out:
        if (n, new) in seen: continue
        seen.add((n, new)); res.append((n, k, new))
    return lines, res

def key(f, n, new): return hashlib.sha1(('%s:%d:%s' % (f, n, new)).encode()).hexdigest()[:12]

def all_mutants(only):
    L = []
    for f in files():
        if only and not any(o in f for o in only): continue
        lines, ms = mutants(f)
        for n, k, new in ms: L.append((f, n, k, lines[n], new))
    return L

def checks(f):
    for r, c in MAP:
        if re.match(r, f): return c
    return ['C01']

def run(cmd, t):
    try:
        p = subprocess.run(['timeout', '-k', '5', str(t)] + cmd, capture_output=True, text=True, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except Exception as e:
        return -1, str(e)

def main():
    if sys.argv[1] == 'list':
        tot = 0
        for f in files():
            c = len(mutants(f)[1]); tot += c; print(c, f)
        print(tot); return
    w, of, only = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    done = set()
    if os.path.exists('/tmp/mut/results.jsonl'):
        done = {json.loads(l)['key'] for l in open('/tmp/mut/results.jsonl')}
    L = all_mutants(only)
    random.Random(7).shuffle(L)
    for i, (f, n, kind, old, new) in enumerate(L):
        if i % of != w: continue
        k = key(f, n, new)
        if k in done: continue
        if os.path.exists('/tmp/mut/stop'): return
        path = os.path.join(REPO, f)
        text = open(path).read()
        lines = text.split('\n'); assert lines[n] == old
        lines[n] = new
        open(path, 'w').write('\n'.join(lines))
        t0 = time.time(); status = 'survived'; by = ''
        try:
            rc, o = run(['bash', '/verif/build.sh'], 400)
            if rc != 0: status = 'no build'
            else:
                vh = '/verif/target/x86_64-unknown-linux-gnu/debug/vh'
                os.environ['VERIF_DIR'] = '/verif'
                for scale in ('0.15', '1'):
                    for c in checks(f):
                        rc, o = run([vh, 'check', c, '--tier', 'quick', '--scale', scale], 600)
                        if rc != 0:
                            status = 'caught' if rc == 1 else 'error %d' % rc; by = c + '@' + scale; break
                    if by: break
        finally:
            open(path, 'w').write(text)
        r = dict(key=k, file=f, line=n + 1, kind=kind, old=old.strip(), new=new.strip(), status=status, by=by, t=round(time.time() - t0))
        with open('/tmp/mut/results.jsonl', 'a') as g: g.write(json.dumps(r) + '\n')
main()
