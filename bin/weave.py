"""Weaves contracts (contracts/*.vrs) around function bodies extracted from
/repo's current source by xt, giving one Verus file per unit."""
import json, os, re, subprocess, sys

class LostAnchor(Exception):
    pass

def opening(text):
    """lemma open_f: a recursive spec function f is what its definition says (so that f itself can be hidden)"""
    m = re.match(r'\s*(?:///.*\n\s*)*pub open spec fn (\w+)\(', text)
    i = m.end() - 1; j = match_close(text, i)
    params = text[i + 1:j]
    b = text.index('{\n', j)
    names = re.findall(r'(\w+)\s*:', re.sub(r'<[^>]*>', '', params))
    return 'pub proof fn open_%s(%s) ensures %s(%s) == (%s) { }' % (m.group(1), params, m.group(1), ', '.join(names), text[b:])

def each(lines):
    """@each a b; c d  ...  @endeach: the lines between once per entry, with {0}, {1} .. its words"""
    out, i = [], 0
    while i < len(lines):
        if lines[i].startswith('@each '):
            j = lines.index('@endeach', i)
            for e in lines[i][6:].split(';'):
                ws = e.split()
                for ln in lines[i + 1:j]:
                    for k, x in enumerate(ws): ln = ln.replace('{%d}' % k, x)
                    out.append(ln)
            i = j + 1
        else:
            out.append(lines[i]); i += 1
    return out

def parse_template(path, seen=None):
    """-> list of ('text', str) | ('fn', dict) | ('type', key) | ('const', key)"""
    out, buf, cur, sect = [], [], None, None
    seen = seen if seen is not None else set()
    def flush():
        if buf:
            out.append(('text', '\n'.join(buf) + '\n')); buf.clear()
    with open(path) as fh:
        lines = each(fh.read().split('\n'))
    opens = None
    for ln in lines:
        if cur is None:
            if ln.startswith('@include '):
                flush()
                p = os.path.join(os.path.dirname(path), ln.split(None, 1)[1].strip())
                if p not in seen:
                    seen.add(p)
                    out.extend(parse_template(p, seen))
            elif ln.startswith('@fn '):
                flush()
                rest = ln[4:].strip()
                m = re.match(r'(.*?\|.*?\|.*?\|\S+)(.*)$', rest)
                cur = dict(key=m.group(1), opts=m.group(2).split(), spec='', loops={}, lheads={}, lstart={}, lend={}, start='', end='', arm='', subst=[], sig=None)
                for i, o in enumerate(cur['opts']):
                    if o == '->': cur['ret'] = cur['opts'][i + 1]
                    if o == 'as': cur['as'] = cur['opts'][i + 1]
                sect = ('spec', None)
            elif ln.startswith('@ext '):     # declared by hand in the unit: not looked into
                flush(); out.append(('ext', ln.split()[1]))
            elif ln.startswith('@opens'):    # the recursive spec function that follows, and a lemma that it is its own body
                opens = []
            elif opens is not None and ln.rstrip() == '}':
                buf.append(ln); opens.append(ln)
                buf.append(opening('\n'.join(opens))); opens = None
            elif opens is not None:
                buf.append(ln); opens.append(ln)
            elif ln.startswith('@type '):
                flush(); out.append(('type', ln.split()[1:]))
            elif ln.startswith('@const '):
                flush(); out.append(('const', ln.split()[1:]))
            else:
                buf.append(ln)
            continue
        if ln.startswith('@done'):
            out.append(('fn', cur)); cur = None; continue
        if ln.startswith('@'):
            w = ln.split(None, 2)
            d = w[0][1:]
            if d == 'loop':
                sect = ('loops', int(w[1])); cur['loops'][int(w[1])] = ''
                if len(w) > 2:
                    h = w[2].strip()
                    if h.startswith('~ '):      # written as the loop over next() it stands for
                        h = h[2:]; cur.setdefault('desugar', set()).add(int(w[1]))
                    cur['lheads'][int(w[1])] = h
            elif d in ('lstart', 'lend'):
                sect = (d, int(w[1])); cur[d][int(w[1])] = ''
            elif d in ('spec', 'start', 'end', 'arm'):
                sect = (d, None)
            elif d == 'fallback':
                cur['fallback'] = ln[10:].strip()
            elif d == 'rlimit':
                cur['rlimit'] = ln.split()[1]
            elif d == 'sig':
                cur['sig'] = ln[5:].strip()
            elif d == 'subst':
                a, b = ln[7:].split(' => ', 1)
                cur['subst'].append((a.strip(), b.strip()))
            else:
                raise SystemExit('bad directive %r in %s' % (ln, path))
            continue
        k, i = sect
        if i is None: cur[k] += ln + '\n'
        else: cur[k][i] += ln + '\n'
    flush()
    if cur is not None:
        raise SystemExit('unterminated @fn in ' + path)
    return out

def norm_ws(s):
    return re.sub(r'\s+', '', s)

def match_close(s, i):
    """index of the bracket closing s[i]; knows string and char literals"""
    pairs = {'(': ')', '{': '}', '[': ']'}
    st, j = [], i
    while j < len(s):
        c = s[j]
        if c == '"':
            j += 1
            while s[j] != '"':
                if s[j] == '\\': j += 1
                j += 1
        elif c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\x..|\\.|[^\\'])'", s[j:])
            if m: j += m.end() - 1
        elif c in pairs: st.append(pairs[c])
        elif st and c == st[-1]:
            st.pop()
            if not st: return j
        j += 1
    raise ValueError('unbalanced')

def subst_tokens(text, a, b):
    """whitespace-insensitive textual replacement"""
    parts = [re.escape(t) for t in re.findall(r'\w+|"(?:[^"\\]|\\.)*"|[^\w\s]', a)]
    pat = r'\s*'.join(parts)
    if re.match(r'\w', a): pat = r'(?<!\w)' + pat
    if re.search(r'\w$', a): pat = pat + r'(?!\w)'
    return re.subn(pat, lambda m: b, text)

class Woven:
    pass

def weave(template, xt_bin, sources, workdir, name, probe=None, skip=None):
    """sources: dict prefix -> source file. Keys may carry 'src@key'."""
    parts = parse_template(template)
    byp, compared = {}, []
    for kind, v in parts:
        if kind == 'fn':
            p, k = split_src(v['key']); byp.setdefault(p, []).append(k)
            if 'compared' in v['opts']: compared.append(k)
            if 'fallback' in v: byp[p].append(v['fallback'])
        elif kind == 'ext':
            p, k = split_src(v); byp.setdefault(p, []).append(k)
        elif kind in ('type', 'const'):
            byp.setdefault(split_src(v[0])[0], [])
    data = {}
    for p, keys in byp.items():
        req = os.path.join(workdir, 'req_%s_%s.json' % (name, p or 'main'))
        json.dump({'fns': keys, 'compared': compared}, open(req, 'w'))
        r = subprocess.run([xt_bin, sources[p], 'dump', req], capture_output=True, text=True)
        if r.returncode != 0:
            raise LostAnchor('extractor: ' + (r.stdout + r.stderr)[:500])
        data[p] = json.loads(r.stdout)
    out = []
    line = 1
    w = Woven()
    w.fn_lines = []      # (start, end, key)
    w.lost = {}          # key -> reason
    w.heads = {}         # key -> loop heads as extracted
    w.moved = {}         # key -> reason: a loop head is not the one its invariant was written for
    w.notes = {}
    w.subst = []
    w.functions = []
    w.exts = []
    w.probed = []        # keys given a vacuity probe
    w.probe = probe
    w.skip = skip or {}  # key -> why its body is left out (the verifier does not accept it)
    def emit(s):
        nonlocal line
        out.append(s); line += s.count('\n')
    for kind, v in parts:
        if kind == 'text':
            emit(v)
        elif kind == 'ext':
            w.exts.append(v)
        elif kind == 'type':
            p, k = split_src(v[0])
            t = data[p]['types'].get(k)
            if t is None: raise LostAnchor('type %s not found' % k)
            s = t['text']
            subs = v[1:]
            j = ' '.join(subs)
            if 'derive' in subs: s = '#[derive(%s)]\n' % subs[subs.index('derive') + 1] + s
            if 'as' in subs:
                nm = k.split('::')[-1]
                s = re.sub(r'\b%s\b' % nm, subs[subs.index('as') + 1], s, count=1)
            for m in re.finditer(r'\[(.*?) => (.*?)\]', j):
                s, n = subst_tokens(s, m.group(1), m.group(2))
            emit(s + '\n')
        elif kind == 'const':
            p, k = split_src(v[0])
            c = data[p]['consts'].get(k)
            if c is None: raise LostAnchor('const %s not found' % k)
            nm = k.split('::')[-1]
            if 'as' in v: nm = v[v.index('as') + 1]
            expr = c['expr']
            if 'uniform' in v:
                # a string made of one character, at least one long; how long does not matter
                if not re.fullmatch(r'"(?:[^"\\]|\\.)*"', expr): raise LostAnchor('const %s is not a string literal' % k)
                ch = v[v.index('uniform') + 1]
                ch = "' '" if ch == 'space' else ch
                emit('pub open spec fn %s_s() -> Seq<char> { (%s)@ }\n' % (nm, expr))
                emit('pub exec static %s: &\'static str ensures %s@ == %s_s() { %s }\n' % (nm, nm, nm, expr))
                emit('pub proof fn lemma_%s() ensures %s_s().len() > 0, is_ascii_chars(%s_s()), forall|i: int| 0 <= i < %s_s().len() ==> #[trigger] %s_s()[i] == %s\n{ reveal_strlit(%s); }\n' % (nm, nm, nm, nm, nm, ch, expr))
            elif 'str' in v:
                if re.fullmatch(r'"(?:[^"\\]|\\.)*"', expr):
                    sq = seq_of(expr)
                    emit("pub exec const %s: &'static str ensures %s@ == (%s)@, %s@ =~= %s { proof { reveal_strlit(%s); assert((%s)@ =~= %s); } %s }\n" % (nm, nm, expr, nm, sq, expr, expr, sq, expr))
                else:
                    emit("pub exec const %s: &'static str ensures %s@ == (%s)@ { %s }\n" % (nm, nm, expr, expr))
                emit('pub open spec fn %s_s() -> Seq<char> { (%s)@ }\n' % (nm, expr))
            else:
                emit('pub const %s: %s = %s;\n' % (nm, c['ty'].replace('& str', "&'static str"), expr))
        else:
            p, k = split_src(v['key'])
            d = data[p]['fns'].get(k, {'error': 'missing'})
            if 'error' in d and 'fallback' in v:   # not overridden: the trait's default body
                k = v['fallback']; d = data[p]['fns'].get(k, {'error': 'missing'})
            if 'error' in d:
                raise LostAnchor('function %s: %s' % (k, d['error']))
            start = line
            emit(render_fn(v, d, w, k))
            w.fn_lines.append((start, line, k))
            w.functions.append(k)
            for n in d['notes']: w.notes.setdefault(n, []).append(k)
            if d['inlined']: w.notes.setdefault('helper inlined at its call site: ' + ', '.join(d['inlined']), []).append(k)
            if d['uncontracted']:
                w.lost[k] = 'calls helper(s) without a contract: ' + ', '.join(d['uncontracted'])
    w.text = ''.join(out)
    return w

def seq_of(lit):
    """a string literal as a sequence of characters"""
    items = re.findall(r'\\u\{[0-9a-fA-F]+\}|\\x..|\\\r?\n\s*|\\.|.', lit[1:-1], re.S)
    items = ["\\'" if i == "'" else '"' if i == '\\"' else i for i in items if not i.startswith('\\\n')]
    if not items: return 'Seq::<char>::empty()'
    return 'seq![' + ', '.join("'%s'" % i for i in items) + ']'

def split_src(k):
    if '@' in k.split('|')[0]:
        a, b = k.split('@', 1); return a, b
    return '', k

def loop_kind(h):
    """for, while let, while or loop, of a head without white space"""
    if h.startswith('for'): return 'for'
    if h.startswith('whilelet'): return 'while let'
    if h in ('loop', 'whiletrue'): return 'loop'
    return 'while'

_heads = None
def baseline_heads():
    global _heads
    if _heads is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'heads.json')
        _heads = json.load(open(p)) if os.path.exists(p) else {}
    return _heads

def render_fn(v, d, w, key):
    heads = d['loops']
    w.heads[key] = [norm_ws(h) for h in heads]
    base = baseline_heads().get(key)
    if base is not None and [loop_kind(h) for h in base] != [loop_kind(h) for h in w.heads[key]]:
        w.moved[key] = 'loops written in another way: %s, the invariants were written for %s' % ('; '.join(w.heads[key]) or 'none', '; '.join(base))
    ok_loops = True
    want = [v['lheads'].get(i) for i in sorted(v['loops'])]
    if len(heads) != len(v['loops']):
        ok_loops = False
        w.lost[key] = 'loop structure changed: expected %d loop(s), found %d (%s)' % (len(v['loops']), len(heads), '; '.join(heads))
    else:
        for i, h in enumerate(heads):
            if want[i] is not None and norm_ws(want[i]) != norm_ws(h) and not re.match(r'%s\b' % re.escape(want[i]), h):
                ok_loops = False
                w.lost[key] = 'loop %d changed: expected %r, found %r' % (i, want[i], h)
    reveal = ''
    if 'reveal' in v['opts'] and d.get('lits'):
        reveal = 'proof { ' + ' '.join('reveal_strlit(%s); assert((%s)@ =~= %s);' % (l, l, seq_of(l)) for l in d['lits']) + ' }\n'
    name = v.get('as', d['name'])
    inputs = d['inputs']
    if 'lang' in v['opts']: inputs = re.sub(r'Self\s*::\s*(Config|Format)\b', r'Lang\1', inputs)
    sig = v['sig']
    if sig is None:
        ret = ''
        if d['ret']:
            ret = ' -> (%s: %s)' % (v.get('ret', 'r'), d['ret'])
        pubkw = '' if 'nopub' in v['opts'] else 'pub '
        sig = '%sfn %s%s(%s)%s' % (pubkw, name, d['generics'].replace("'_ ,", ''), inputs, ret)
        if d['where'] and 'nowhere' not in v['opts']:
            sig += ' ' + d['where']
    body = d['body']
    if 'rlimit' in v: sig = '#[verifier::rlimit(%s)]\n' % v['rlimit'] + sig
    # function-level text substitutions
    tail = d['tail']
    if w.probe == 'end' and 'noprobe' not in v['opts'] and 'noend' not in v['opts']:
        v = dict(v); v['end'] = v['end'] + 'assert(false); // probe\n'
        w.probed.append(key)
    full = body + ('\nxt_tail!{' + tail + '}' if tail is not None else '\nxt_mark!(end);')
    for a, b in v['subst']:
        full, n = subst_tokens(full, a, b)
        if n: w.subst.append({'fn': key, 'from': a, 'to': b, 'count': n})
        sig, n2 = subst_tokens(sig, a, b)
    # loops
    for i in range(len(heads)):
        # iterator naming
        m = re.search(r'xt_it\s*!\s*\(\s*%d\s*;' % i, full)
        if m and i in v.get('desugar', ()):
            op = full.index('(', m.start())
            cl = match_close(full, op)
            inner = full[m.end():cl].strip()
            f = re.search(r'\bfor\b((?:(?!\bfor\b).)*)\bin\s*$', full[:m.start()], re.S)
            full = full[:f.start()] + 'let mut it%d = %s;\nwhile let Some(%s) = it%d.next()' % (i, inner, f.group(1).strip(), i) + full[cl + 1:]
            w.notes.setdefault('for x in iterator written as while let Some(x) = iterator.next()', []).append(key)
        elif m:
            op = full.index('(', m.start())
            cl = match_close(full, op)
            inner = full[m.end():cl].strip()
            full = full[:m.start()] + 'it%d: %s' % (i, inner) + full[cl + 1:]
        inv = v['loops'].get(i, '') if ok_loops else ''
        st = v['lstart'].get(i, '') if ok_loops else ''
        m = re.search(r'\{\s*xt_mark\s*!\s*\(\s*lstart %d\s*\)\s*;' % i, full)
        if not m: raise LostAnchor('loop marker lost in ' + key)
        full = full[:m.start()] + '\n' + inv + '{\n' + reveal + st + full[m.end():]
        en = v['lend'].get(i, '') if ok_loops else ''
        m = re.search(r'xt_mark\s*!\s*\(\s*lend %d\s*\)\s*;' % i, full)
        full = full[:m.start()] + en + full[m.end():]
    full = re.sub(r'xt_mark\s*!\s*\(\s*arm\s*\)\s*;', lambda m: v['arm'], full)
    # tail
    m = re.search(r'xt_tail!\{', full)
    if m:
        cl = len(full) - 1
        t = full[m.end():cl]
        if v['end'].strip():
            full = full[:m.start()] + 'let xt_ret' + (': ' + d['ret'] if v['sig'] is None and d['ret'] and 'impl ' not in d['ret'] else '') + ' = ' + t + ';\n' + v['end'] + 'xt_ret\n'
        else:
            full = full[:m.start()] + t + '\n'
    else:
        full = re.sub(r'xt_mark!\(end\);', lambda m: v['end'], full)
    full = re.sub(r'if\s+let\s+Some\(ref ', 'if let Some(ref ', full)
    start = v['start']
    hides = ''.join(l for l in start.splitlines(True) if l.strip().startswith('hide('))
    start = reveal + ''.join(l for l in start.splitlines(True) if not l.strip().startswith('hide('))
    if w.probe == 'start' and 'noprobe' not in v['opts']:
        start = 'assert(false); // probe\n' + start
        w.probed.append(key)
    start = hides + start
    if key in w.skip:
        w.lost[key] = w.skip[key]
        if key in w.probed: w.probed.remove(key)
        return '#[verifier::external_body]\n' + sig + '\n' + v['spec'] + '{ unimplemented!() }\n'
    return sig + '\n' + v['spec'] + '{\n' + start + full + '}\n'
