#!/usr/bin/env python3
"""Bounded stand-in for the macro properties (M01-M03): random quote! bodies are
compiled against /repo and what they build is compared with a stream built by
explicit calls, which an oracle derives from the positions alone.

usage: mq.py PROP --seed N --tier quick|thorough [--budget S] [--only CASE]
Prints JSON lines like the Rust harness does.
"""
import json, os, random, re, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MQ_REPO', '/repo')
TOOLCHAIN = 'nightly-x86_64-unknown-linux-gnu'

# ---- emitting source at known columns ----
class Src:
    def __init__(self): self.lines = ['']
    def put(self, s):
        parts = s.split('\n')
        self.lines[-1] += parts[0]
        self.lines += parts[1:]
    def newline(self, col, blanks=0):
        self.lines += [''] * blanks
        self.lines.append(' ' * col)
    @property
    def col(self): return len(self.lines[-1])
    def text(self): return '\n'.join(self.lines)

def rs(s):
    return json.dumps(s, ensure_ascii=True).replace('\\u', '\\u').replace('\\b', '\\x08').replace('\\f', '\\x0c') if all(ord(c) < 0x80 for c in s) else '"' + ''.join(c if ord(c) >= 0x20 and c not in '"\\' else '\\u{%x}' % ord(c) for c in s) + '"'

def words():
    """names that occur in literals of the macros' source"""
    ws = set()
    for root, _, files in os.walk(os.path.join(REPO, 'genco-macros', 'src')):
        for f in files:
            if not f.endswith('.rs'): continue
            text = open(os.path.join(root, f), encoding='utf8', errors='replace').read()
            for m in re.finditer(r'"((?:r#)?[A-Za-z_]\w*)"', text): ws.add(m.group(1) + ('x' if m.group(1) == '_' else ''))
            for m in re.finditer(r"'([A-Za-z_])'", text): ws.add(m.group(1) + '1')
    return sorted(w for w in ws if w not in ('r#self', 'r#crate', 'r#super', 'r#Self', 'r#_'))

class Exp:
    """calls that build the expected stream; adjacent text is one call"""
    def __init__(self): self.out, self.txt = [], ''
    def text(self, s): self.txt += s
    def flush(self):
        if self.txt: self.out.append('e.append(ItemStr::Static(%s));' % rs(self.txt)); self.txt = ''
    def call(self, s): self.flush(); self.out.append(s)
    def code(self): self.flush(); return ' '.join(self.out)

IDS = ['a', 'foo', 'x1', 'let', 'fn', 'self', 'Bar', '_q', 'while', 'longer_name', 'ü', 'T', 'else', 'struct', 'if', 'for', 'join', 'str', 'r#type', 'r#fn', 'async', 'in', 'Self']
WORDS = words()
NUMS = ['0', '42', '1u32', '0xff', '1.5', '7_000', '1e3', '0b10_01', '0o17', '1e-3', '1.0f64', '0xFFu8', '99999999999999999999999999999999999999999']
PUNCT = list('.,;:+-=<>!&|*%^?@~') + ['::', '->', '=>', '..', '&&', '==', '+=', '<<', '...', '..=', '||']
STRS = ['s', 'two words', '', ' pad ', 'a\\n', 'q\\"q', '$x', 'ü€', "it's"]

# in a string every token stands for its text
STR_LITS = ['"s"', "'c'", 'r"raw"', '1.5', "'lt", 'r#type', 'b"x"', r'"a\n"', 'r#"a"b"#', '0xff', "'static"]
# literals that are quoted, with what they stand for, and others that stand for themselves
QUOTES = {'r"raw"': 'raw', 'r#"a"b"#': 'a"b', 'r"c:\\d\\n"': 'c:\\d\\n', '"l1\\\n     l2"': 'l1l2', '"l1\n l2"': 'l1\n l2', r'"\x41\u{1F600}\t"': 'A\U0001F600\t', 'r##"x"#y"##': 'x"#y'}
LITS = list(QUOTES) + ["'c'", "b'x'", 'b"by"', "'\\n'", r"'\u{e9}'", 'br"x\\y"', r'b"\x00"', 'br#"a"b"#', r"b'\''", "'\"'"]

class Gen:
    def __init__(self, rng, prop):
        self.r = rng; self.prop = prop; self.n = 0; self.ev = prop != 'M01'
        self.ctl = 0.12 if prop == 'M01' else 0.3
        self.strp = 0.35 if prop == 'M02' else 0.04
        self.lang = 'js'

    def fresh(self):
        self.n += 1
        return 'v%d' % self.n

    def pick(self, *opts): return self.r.choice(opts)

    # -- one item: (glue class, writes source, writes expectation)
    def leaf(self, src, exp):
        r = self.r
        k = r.random()
        if k < 0.32:
            s = r.choice(WORDS if WORDS and r.random() < 0.12 else IDS); src.put(s); exp.text(s); return 'id'
        if k < 0.40:
            s = r.choice(NUMS); src.put(s); exp.text(s); return 'num'
        if k < 0.66:
            s = r.choice(PUNCT); src.put(s); exp.text(s); return 'p'
        if k < 0.73:
            s = r.choice(STRS); src.put('"%s"' % s)
            exp.call('e.append(quoted("%s"));' % s); return 's'
        if k < 0.76:
            s = self.pick(*LITS); src.put(s)
            if s in QUOTES: exp.call('e.append(quoted(%s));' % rs(QUOTES[s]))
            else: exp.text(s)
            return 's'
        if k < 0.78:
            s = self.pick("'lt", "'static", "'_"); src.put(s); exp.text(s); return 'lt'
        if k < 0.81:
            src.put('$$'); exp.text('$'); return 'dd'
        if k < 0.86:
            s = r.choice(['txt', 'txt', 'txt', 'r#type']); src.put('$' + s); exp.call('e.append(%s);' % s); return 'i'
        if k < 0.89:
            src.put('$sub'); exp.call('e.append(&sub0);'); return 'i'
        if k < 0.91:
            src.put('$(&imp)'); exp.call('e.append(&imp);'); return 'ie'
        if k < 0.94:
            s = self.pick('lit', 'two words', '', ' x', '{', '€', 'a"b', '$', ' ', '  ', 'x '); src.put('$(%s)' % rs(s)); exp.text(s); return 'ie'
        if k < 0.97:
            m = r.randrange(100); src.put('$(tick(&lg, %d))' % m); exp.call('e.append(tick(&le, %d));' % m); return 'ie'
        c = r.choice([("' '", 'space'), ("'\\n'", 'line'), ("'\\r'", 'push')])
        src.put('$[%s]' % c[0]); exp.call('e.%s();' % c[1]); return 'ctl'

    def glue_ok(self, p, n, src):
        if p in ('id', 'num', 'i', 'lt') and n in ('id', 'num', 's', 'lt'): return False
        if p == 's' and n in ('id', 'num', 's', 'lt'): return False
        if p == 'ctl' and n == 'o(': return False
        if p == 'num' and n == 'p': return False
        if p == 'p' and n in ('p', 'num', 'lt'): return n == 'p' and self.r.random() < 0.4 and False
        if p == 'dd' and n in ('id', 'lt', 'dd', 'i', 'ie', 'ctl', 'str'): return n not in ('id', 'lt') and False
        return True

    # -- a quoted region; source position is at its first item
    def region(self, src, exp, depth, lines, close_col=None, comma_stops=False, base=None, one_line=False):
        """base: column the region counts from if it is whitespace sensitive"""
        r = self.r
        stack = [src.col if base is None else base]
        opened = []
        prev = None
        nlines = 1 if one_line else lines
        for li in range(nlines):
            if li > 0:
                blanks = r.choice([0, 0, 0, 0, 1, 2, 3])
                k = r.random()
                old = len(stack)
                if k < 0.35: stack.append(stack[-1] + r.choice([1, 2, 3, 4, 4, 4, 8])); 
                elif k < 0.65 and len(stack) > 1:
                    for _ in range(r.randrange(1, len(stack))): stack.pop()
                if r.random() < 0.08: src.put(' // ' + r.choice(['note', '$x (', "it's"]))
                src.newline(stack[-1], blanks)
                if len(stack) > old: exp.call('e.indent();')
                elif len(stack) < old: exp.call('e.unindent();' * (old - len(stack)))
                else: exp.call('e.push();')
                if blanks: exp.call('e.line();')
                prev = 'ctl' if prev == 'ctl' else None
            cnt = r.choice([1, 1, 2, 3, 4, 6])
            for ii in range(cnt):
                first = ii == 0 and (li > 0 or prev is None) or prev is None
                want_gap = r.random() < 0.55
                # what comes next
                k = r.random()
                s2, e2 = Src(), Exp()
                if opened and k < 0.25:
                    d = opened[-1]; kind = 'c'
                elif k < 0.2 and prev != 'ctl' and depth < 4 and not (comma_stops and li == 0 and ii == 0):
                    d = r.choice('([{'); kind = 'o' + d
                elif depth < 3 and k > 1 - self.ctl / (1 + 0.7 * depth):
                    kind = 'ie' if self.prop != 'M02' or r.random() < 0.3 else 'str'
                    d = 'control' if kind == 'ie' else 'str'
                elif r.random() < self.strp:
                    kind = 'str'; d = 'str'
                elif comma_stops and prev != 'ctl' and not (li == 0 and ii == 0) and r.random() < 0.25:
                    # a comma that does not stop
                    kind = 'o('; d = (Src(), Exp()); t = r.choice(['(c2,c3)', '[c2,]', '{,}', '(c2,[c3,{c4,c5},])']); d[0].put(t); d[1].text(t)
                else:
                    save = r.getstate()
                    kind = self.leaf(s2, e2)
                    d = (s2, e2)
                    if comma_stops and not opened and ',' in s2.text(): 
                        s2, e2 = Src(), Exp(); s2.put('c1'); e2.text('c1'); kind = 'id'; d = (s2, e2)
                gap = 0
                if not first:
                    if want_gap or not self.glue_ok(prev, kind, src):
                        gap = r.choice([1, 1, 1, 2, 5])
                        src.put(' /* $x ( */ ' if r.random() < 0.04 else ' ' * gap); exp.call('e.space();')
                if kind == 'c':
                    opened.pop(); s = {'(': ')', '[': ']', '{': '}'}[d]
                    src.put(s); exp.text(s); prev = 'c'
                elif kind[0] == 'o' and isinstance(d, str) and d in '([{':
                    opened.append(d); src.put(d); exp.text(d); prev = 'o'
                elif d == 'control':
                    prev = self.control(src, exp, depth + 1) or 'ie'
                elif d == 'str':
                    self.string(src, exp, depth + 1); prev = 'ie'
                else:
                    src.put(d[0].text()); 
                    exp.txt += '' 
                    self.merge(exp, d[1]); prev = 'c' if kind == 'o(' else kind
        while opened:
            s = {'(': ')', '[': ']', '{': '}'}[opened.pop()]
            src.put(s); exp.text(s)
        exp.call('e.unindent();' * (len(stack) - 1))

    def merge(self, exp, e2):
        if not e2.out: exp.text(e2.txt)
        else:
            exp.flush(); exp.out += e2.out; exp.txt = e2.txt

    # a region after an opening brace or an arrow: on the same line or on its own lines
    def body(self, src, exp, depth, close, **kw):
        r = self.r
        if r.random() < 0.45:
            if r.random() < 0.7: src.put(' ')
            self.region(src, exp, depth, 1, **kw)
            if r.random() < 0.5: src.put(' ')
        else:
            src.newline(r.choice([0, 2, 4, 8, 12, 16]), r.choice([0, 0, 1]))
            self.region(src, exp, depth, r.choice([1, 2, 3]), **kw)
            src.newline(r.choice([0, 4, 8, 20]))
        src.put(close)

    # whitespace sensitive: what stands between the delimiters on the same line counts
    def sensitive(self, src, exp, depth):
        r = self.r
        src.put('(')
        start = src.col
        a = r.choice([0, 0, 1, 3])
        src.put(' ' * a)
        if r.random() < 0.12:                       # nothing but space
            if a: exp.call('e.space();')
            src.put(')'); return
        if a: exp.call('e.space();')
        lines = r.choice([1, 1, 1, 2])
        sub = Exp()
        self.region(src, sub, depth, lines, base=start)
        # trailing space comes before the indentation is unrolled
        b = r.choice([0, 0, 1, 2])
        src.put(' ' * b + ')')
        sub.flush()
        tail = []
        while sub.out and re.fullmatch(r'(e\.unindent\(\);)*', sub.out[-1]): tail.append(sub.out.pop())
        exp.flush(); exp.out += sub.out
        if b: exp.call('e.space();')
        for t in tail:
            if t: exp.call(t)

    def expr_iter(self):
        """-> (expression, how the oracle writes it)"""
        n = self.r.randrange(0, 4)
        m = self.r.randrange(50)
        f = self.pick('it', 'lit')
        return '%s(&lg, %d, %d)' % (f, m, n), '%s(&le, %d, %d)' % (f, m, n)

    def control(self, src, exp, depth):
        r = self.r
        if self.prop != 'M03':
            # M01: a nested region is enough
            src.put('$(if true {' ); exp.call('{')
            self.body(src, exp, depth, '})'); exp.call('}')
            return
        k = r.random()
        if k < 0.34:
            v = self.fresh()
            g, e = self.expr_iter()
            tup = r.random() < 0.3
            if tup:
                w = self.fresh(); pat = '(%s, %s)' % (v, w); g = g + '.into_iter().zip(10..)'; e = e + '.into_iter().zip(10..)'
            else: pat = v
            src.put('$(for %s in %s ' % (pat, g))
            join = r.random() < 0.5
            je = Exp()
            if join:
                src.put('join ')
                self.sensitive(src, je, depth); src.put(' ')
            # the item is asked for, then what joins it to the one before is written, then the body
            exp.call('{ let mut first = true; for %s in %s { let _ = first;' % (pat, e))
            at = len(exp.out)
            use = '$%s' % v
            if r.random() < 0.5:
                src.put('=>'); self.var_body(src, exp, depth, ')', use, v)
            else:
                src.put('{'); self.var_body(src, exp, depth, '})', use, v)
            exp.call('} }')
            exp.out.insert(at, ('if !first { %s } ' % je.code() if join else '') + 'first = false;')
        elif k < 0.58:
            c = self.pick('true', 'false', 'let Some(y) = opt(1)', 'let Some(y) = opt(0)', 'cond(&lg, 3)', 'cond(&lg, 4)', 'cond(&lg, 3) && cond(&lg, 4)', 'cond(&lg, 4) || !cond(&lg, 3)', 'let (Some(y), true) = (opt(1), cond(&lg, 3))', 'matches!(opt(1), Some(_))', '{ cond(&lg, 5) }')
            ce = c.replace('&lg', '&le')
            src.put('$(if %s ' % c)
            exp.call('if %s {' % ce.replace('Some(y)', 'Some(_y)'))
            if r.random() < 0.35:
                src.put('=>'); self.body(src, exp, depth, ')'); exp.call('}')
            else:
                src.put('{'); self.body(src, exp, depth, '}'); exp.call('}')
                if r.random() < 0.6:
                    src.put(self.pick(' else {', ' else\n {')); exp.call('else {'); self.body(src, exp, depth, '}'); exp.call('}')
                src.put(')')
        elif k < 0.8:
            m = r.randrange(11)
            src.put('$(match mt(&lg, %d) {' % m); exp.call('match mt(&le, %d) {' % m)
            arms = ['0', self.pick('1 | 2', '| 1 | 2', '1..=2'), self.pick('z if z == 3', 'z @ (3 | 5) if z != 5 && z < 4', '3 if cond(&lg, 1)', '3 if cond(&lg, 2)'), self.pick('4', 'w @ 4..=9 if w % 2 == 0 || w > 7', '4 | 6..'), '_']
            for a in arms:
                at = '' if a == '_' else r.choice(['', '', '', '', '#[cfg(all())] ', '#[cfg(any())] '])
                src.put('\n%s%s%s => ' % (' ' * r.choice([0, 3, 8]), at, a)); exp.call('%s%s => {' % (at, a.replace('&lg', '&le')))
                f = r.random()
                if f < 0.34:
                    src.put('{'); self.body(src, exp, depth, '}')
                    src.put(self.pick(',', '', ', '))
                elif f < 0.67:
                    self.sensitive(src, exp, depth); src.put(self.pick(',', ' , '))
                else:
                    self.region(src, exp, depth, 1, comma_stops=True, one_line=True); src.put(',')
                exp.call('}')
            src.put('})'); exp.call('}')
        elif k < 0.9:
            v = self.fresh(); m = r.randrange(100)
            if r.random() < 0.3:
                w = self.fresh()
                src.put('$(let (%s, mut %s) = (tick(&lg, %d), 7))$(%s)' % (w, v, m, w)); exp.call('let (%s, mut %s) = (tick(&le, %d), 7); e.append(%s);' % (w, v, m, w))
                return 'ie'
            src.put('$(let %s = tick(&lg, %d))' % (v, m)); exp.call('let %s = tick(&le, %d);' % (v, m))
            src.put('$%s' % v); exp.call('e.append(%s);' % v)
            return 'i'
        else:
            v = self.fresh(); m = r.randrange(100)
            b = 'let k = tick(&%s, ' + str(m) + '); %s.append("sc"); %s.space(); %s.append(k);'
            src.put('$(ref %s %s' % (v, '{' + b % ('lg', v, v, v) + '})' if r.random() < 0.5 else '=> ' + b % ('lg', v, v, v) + ')'))
            exp.call(b % ('le', 'e', 'e', 'e'))

    def var_body(self, src, exp, depth, close, use, v):
        if self.r.random() < 0.8:
            src.put(' ' + use + self.pick('.', ' '))
            exp.call('e.append(%s);' % v)
            if src.lines[-1].endswith('.'): exp.text('.'); 
            else: exp.call('e.space();')
            e0 = len(src.lines)
            # the rest of the line starts right here
            self.region_after(src, exp, depth)
            src.put(close)
        else:
            exp.call('let _ = &%s;' % v)
            self.body(src, exp, depth, close)

    def region_after(self, src, exp, depth):
        # a few items on the same line as what stands before
        s2, e2 = Src(), Exp()
        k = self.leaf(s2, e2)
        if k in ('num', 'p', 'lt') or '\n' in s2.text(): s2, e2 = Src(), Exp(); s2.put('w'); e2.text('w')
        src.put(s2.text()); self.merge(exp, e2)

    # $[str](...)
    def string(self, src, exp, depth):
        r = self.r
        src.put('$[str](')
        sub = Exp()
        ev = [False]
        self.str_inner(src, sub, depth, ev, r.choice([0, 1, 2, 3, 5]))
        src.put(')')
        exp.call('e.append(Item::OpenQuote(%s));' % ('true' if ev[0] else 'false'))
        sub.flush(); exp.out += sub.out
        exp.call('e.append(Item::CloseQuote);')

    def str_inner(self, src, sub, depth, ev, n):
        r = self.r
        prev = None
        def gap(force=False):
            g = r.choice([0, 0, 1, 1, 2, 4])
            if force and g == 0: g = 1
            src.put(' ' * g); sub.text(' ' * g)
        for _ in range(n):
            k = r.random()
            if k < 0.35:
                gap(prev in ('id', 'p', 's')); s = r.choice(IDS + NUMS[:1]); src.put(s); sub.text(s); prev = 'id'
            elif k < 0.4:
                gap(prev in ('id', 'p', 's')); s = r.choice(STR_LITS); src.put(s); sub.text(s); prev = 'id'
            elif k < 0.5:
                gap(prev == 'p'); s = r.choice(list('.,;:!?-+=')); src.put(s); sub.text(s); prev = 'p'
            elif k < 0.6:
                gap(); src.put('$$'); sub.text('$'); prev = 'p'
            elif k < 0.68:
                gap(); s = self.pick('lit', ' two  words ', '€', 'a"b', '\n', '', '$x', '`${'); src.put('$[const](%s)' % rs(s)); sub.text(s); prev = 'ie'
            elif k < 0.74:
                gap(); m = r.randrange(100); src.put('$[const](tick(&lg, %d))' % m); sub.call('e.append(tick(&le, %d));' % m); prev = 'ie'
            elif k < 0.82 and self.evals:
                gap(); s = r.choice(['a', 'name', 'x1', '_y', 'r#type']); src.put('$' + s); ev[0] = True
                sub.call('e.append(Item::OpenEval); e.append(ItemStr::Static("%s")); e.append(Item::CloseEval);' % s); prev = 'id'
            elif k < 0.92 and self.evals and depth < 3:
                gap(); src.put('$'); ev[0] = True
                sub.call('e.append(Item::OpenEval);')
                self.sensitive(src, sub, depth + 1)
                sub.call('e.append(Item::CloseEval);'); prev = 'ie'
            else:
                gap(); o, c = r.choice(['()', '[]', '{}'])
                src.put(o); sub.text(o); self.str_inner(src, sub, depth, ev, r.choice([0, 1, 2])); src.put(c); sub.text(c); prev = 'c'
        gap()

    def case(self):
        r = self.r
        self.lang = r.choice(['js', 'dart']) if self.prop != 'M01' else r.choice(['js', 'rust', 'dart'])
        self.evals = self.lang != 'rust'
        src, exp = Src(), Exp()
        col = r.choice([0, 1, 4, 8, 12])
        src.newline(col)
        self.region(src, exp, 0, r.choice([1, 2, 3, 4, 6, 9]))
        return src.text(), exp.code()

# bodies that have to be refused
NEST = ['$(if c { %s })', '$(if c => %s)', '$(if c { q } else { %s })', '$(if c { %s } else { q })', '$(for q in 0..2 { %s })', '$(for q in 0..2 => %s)', '$(for q in 0..2 join (, %s) => $q)',
        '$(for q in 0..2 join (, %s) { $q })', '$(match n { 0 => %s, _ => q })', '$(match n { 0 => q, _ => {%s} })', '$(match n { 0 => (%s), _ => q })', '$(match n { 0 if c => q, _ => %s })',
        '(%s)', '{ q %s }', '[%s q]', 'a %s $[str](plain)', '$[str](plain) %s']
def negative(rng, prop, i=None):
    r = rng
    if prop == 'M01':
        # a line that starts left of the one before and matches no known level
        cols = [r.choice([4, 8, 9])]
        lines = [' ' * cols[0] + 'a']
        for _ in range(r.randrange(0, 4)):
            cols.append(cols[-1] + r.choice([2, 4, 5])); lines.append(' ' * cols[-1] + r.choice(['b', '$txt', '"s"', '{ x }']))
            if r.random() < 0.3 and len(cols) > 2:
                cols.pop(); lines.append(' ' * cols[-1] + 'c')
        bad = r.choice([c for c in range(0, cols[-1]) if c not in cols])
        for _ in range(r.randrange(0, 3)): lines.append('')
        lines.append(' ' * bad + r.choice(['z', '$txt', ';', '$(if true { q })']))
        return 'js', '\n' + '\n'.join(lines)
    if prop == 'M02':
        k = r.randrange(3)
        if i is not None and i < len(NEST): k = 1
        if k == 0: return r.choice(['rust', 'java', 'go', 'csharp', 'c', 'swift', 'python']), ' $[str](a $%s b)' % r.choice(['x', '(x)', '(a + b)'])
        if k == 1:
            # nested in something else, at any depth
            b = '$[str](a %s$%s b)' % (r.choice(['', '(c) ', '$$']), r.choice(['x', '(x)', '(a + b)']))
            for _ in range(r.choice([1, 1, 2, 3])): b = r.choice(NEST) % b
            if i is not None and i < len(NEST): b = NEST[i] % ('$[str](a $%s b)' % r.choice(['x', '(x)']))
            return r.choice(['rust', 'java', 'go', 'csharp', 'c', 'swift', 'python']), ' let (n, c) = (1, true); let _: %s = quote! { ' + b + ' }; '
        return 'js', ' $[str](a%sb) ' % r.choice(['\n', '\n\n  '])
    return None

PRELUDE = '''#![allow(warnings)]
use genco::prelude::*;
use genco::tokens::{Item, ItemStr, quoted};
use std::cell::RefCell;
type Log = RefCell<Vec<i64>>;
fn tick(l: &Log, n: i64) -> i64 { l.borrow_mut().push(n); n }
fn it(l: &Log, m: i64, n: i64) -> Vec<i64> { l.borrow_mut().push(1000 + m); (m..m + n).collect() }
fn lit<'a>(l: &'a Log, m: i64, n: i64) -> impl Iterator<Item = i64> + 'a { l.borrow_mut().push(1000 + m); let mut k = 0; std::iter::from_fn(move || { l.borrow_mut().push(4000 + k); k += 1; if k <= n { Some(m + k - 1) } else { None } }) }
fn opt(n: i64) -> Option<i64> { if n == 1 { Some(n) } else { None } }
fn cond(l: &Log, n: i64) -> bool { l.borrow_mut().push(2000 + n); n % 2 == 1 }
fn mt(l: &Log, n: i64) -> i64 { l.borrow_mut().push(3000 + n); n }
fn show<L: genco::lang::Lang>(t: &Tokens<L>) -> String where L::Format: Default, L::Config: Default {
    format!("{} [{} imports]", match t.to_string() { Ok(s) => s, Err(e) => format!("error {}", e) }, t.walk_imports().count())
}
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\\\\""), '\\\\' => o.push_str("\\\\\\\\"), c if (c as u32) < 0x20 => o.push_str(&format!("\\\\u{:04x}", c as u32)), c => o.push(c) } } o }
'''
SUB = {'js': ('js::import("m", "Im")', 'js::Tokens'), 'dart': ('dart::import("m", "Im")', 'dart::Tokens'), 'rust': ('rust::import("m::n", "Im")', 'rust::Tokens'),
       'java': ('()', 'java::Tokens'), 'go': ('()', 'go::Tokens'), 'csharp': ('()', 'csharp::Tokens'), 'c': ('()', 'c::Tokens'), 'swift': ('()', 'swift::Tokens'), 'python': ('()', 'python::Tokens')}

def setup(lang):
    imp, ty = SUB[lang]
    return '''let lg: Log = RefCell::new(vec![]); let le: Log = RefCell::new(vec![]); let txt = "tx"; let r#type = "rawid"; let imp = %s;
    let sub0 = { let mut s = %s::new(); s.append("p"); s.indent(); s.append("q"); s.unindent(); s.append("r"); s }; let sub = &sub0;''' % (imp, ty)

def emit(case, i):
    lang, body, exp, form = case
    ty = SUB[lang][1]
    if form == 'quote': got = 'let got: %s = quote! {%s\n};' % (ty, body)
    elif form == 'in': got = 'let mut got = %s::new(); quote_in! { got =>%s\n};' % (ty, body)
    else: got = 'let got: %s = { let f = quote_fn! {%s\n}; let mut t = %s::new(); t.append(f); t };' % (ty, body, ty)
    return '''fn c%d() -> (String, String, Vec<i64>, Vec<i64>) {
    %s
    let exp: %s = { let mut e0 = %s::new(); { let e = &mut e0; %s } e0 };
    let got = { let (lg, le) = (&lg, &le); %s
    got };
    let r = (show(&got), show(&exp), lg.borrow().clone(), le.borrow().clone()); r
}
''' % (i, setup(lang), ty, ty, exp, got)

def cargo(dirn, args, timeout):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUSTUP_TOOLCHAIN=TOOLCHAIN,
               CARGO_TARGET_DIR=os.environ.get('MQ_TARGET', os.path.join(HERE, '.build', 'mq', 'target')))
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    p = subprocess.run(['cargo'] + args, cwd=dirn, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')

def write_crate(dirn, name, text):
    os.makedirs(os.path.join(dirn, 'src'), exist_ok=True)
    open(os.path.join(dirn, 'Cargo.toml'), 'w').write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\ngenco = { path = "%s" }\n[profile.dev]\ndebug = false\nopt-level = 0\nincremental = false\n' % (name, REPO))
    open(os.path.join(dirn, 'src', 'main.rs'), 'w').write(text)

def errors_by_line(out):
    errs = []
    for l in out.split('\n'):
        if not l.startswith('{'): continue
        try: j = json.loads(l)
        except ValueError: continue
        m = j.get('message') or {}
        if m.get('level') != 'error': continue
        ls = []
        def spans(sp):
            while sp:
                if sp['file_name'].endswith('main.rs'): ls.append(sp['line_start'])
                sp = (sp.get('expansion') or {}).get('span')
        for sp in m.get('spans', []): spans(sp)
        errs.append((m.get('message', ''), ls, m.get('rendered', '')))
    return errs

def main():
    a = sys.argv
    prop = a[1]
    seed = int(a[a.index('--seed') + 1]); tier = a[a.index('--tier') + 1]
    only = int(a[a.index('--only') + 1]) if '--only' in a else None
    budget = float(a[a.index('--budget') + 1]) if '--budget' in a else None
    base = os.environ.get('MQ_DIR', os.path.join(HERE, '.build', 'mq', prop))
    batch = 260 if tier == 'quick' else 700
    batches = 1 if tier == 'quick' else 4
    t0 = time.time()
    total, nontriv, samples, fails = 0, set(), [], []
    for b in range(batches):
        if b and budget and time.time() - t0 > budget: break
        if fails: break
        cases = []
        for i in range(batch):
            rng = random.Random('%s/%d/%d/%d' % (prop, seed, b, i))
            g = Gen(rng, prop)
            body, exp = g.case()
            cases.append((g.lang, body, exp, rng.choice(['quote', 'quote', 'in', 'fn'])))
        idx = [i for i in range(batch) if only is None or only == b * batch + i]
        for attempt in range(4):
            text, where = PRELUDE, []
            line = text.count('\n') + 1
            for i in idx:
                c = emit(cases[i], i)
                where.append((line, line + c.count('\n'), i))
                text += c; line += c.count('\n')
            text += 'fn main() {\n' + ''.join('    run(%d, c%d);\n' % (i, i) for i in idx) + '}\n'
            text += '''fn run(i: usize, f: fn() -> (String, String, Vec<i64>, Vec<i64>)) {
    match std::panic::catch_unwind(f) {
        Ok((g, e, lg, le)) => println!("{{\\"i\\":{},\\"got\\":\\"{}\\",\\"exp\\":\\"{}\\",\\"lg\\":{:?},\\"le\\":{:?}}}", i, esc(&g), esc(&e), lg, le),
        Err(_) => println!("{{\\"i\\":{},\\"got\\":\\"(panic)\\",\\"exp\\":\\"\\",\\"lg\\":[],\\"le\\":[]}}", i),
    }
}
'''
            d = os.path.join(base, 'pos')
            write_crate(d, 'mq_pos_' + prop.lower(), text)
            rc, o, e = cargo(d, ['build', '--offline', '-q', '--message-format=json'], 600)
            if rc == 0: break
            errs = errors_by_line(o)
            bad = {}
            for msg, ls, ren in errs:
                for ln in ls:
                    for x, y, i in where:
                        if x <= ln < y: bad.setdefault(i, (msg, ren))
            if not bad:
                print(json.dumps(dict(fail=-1, case='the generated program does not build', expected='a program that compiles', got=(e[-600:] + str([m for m, _, _ in errs][:3])))))
                return
            for i, (msg, ren) in sorted(bad.items()):
                fails.append(dict(fail=b * batch + i, case='%s %s! {%s}' % (cases[i][0], cases[i][3], cases[i][1]), expected='a body that compiles', got='error: ' + msg))
            idx = [i for i in idx if i not in bad]
        exe = os.path.join(os.environ.get('MQ_TARGET', os.path.join(HERE, '.build', 'mq', 'target')), 'debug', 'mq_pos_' + prop.lower())
        if rc == 0:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
            seen = 0
            for l in p.stdout.decode('utf8', 'replace').split('\n'):
                if not l.startswith('{'): continue
                j = json.loads(l); seen += 1
                i = j['i']
                if j['got'] != j['exp'] or j['lg'] != j['le']:
                    ev = '' if j['lg'] == j['le'] else ' evaluated %s'
                    fails.append(dict(fail=b * batch + i, case='%s %s! {%s}' % (cases[i][0], cases[i][3], cases[i][1]),
                                      expected=j['exp'] + (ev and ev % j['le']), got=j['got'] + (ev and ev % j['lg'])))
                if len(cases[i][2]) > 60: nontriv.add(cases[i][1])
            total += seen
            if seen < len(idx): fails.append(dict(fail=-1, case='the generated program', expected='%d results' % len(idx), got='%d results' % seen))
        if only is not None: break
        samples += [c[1] for c in cases[:3]]
        # bodies that have to be refused
        ncases = []
        for i in range((80 if prop == 'M02' else 40) if tier == 'quick' else 160):
            rng = random.Random('%s/neg/%d/%d/%d' % (prop, seed, b, i))
            n = negative(rng, prop, i)
            if n: ncases.append(n)
        if ncases:
            text = PRELUDE; line = text.count('\n') + 1; where = []
            for i, (lang, body) in enumerate(ncases):
                if body.startswith(' let '): c = 'fn n%d() { %s\n %s\n }\n' % (i, setup(lang).replace('\n', ' '), body % SUB[lang][1])
                else: c = 'fn n%d() { %s\n let got: %s = quote! {%s\n}; }\n' % (i, setup(lang).replace('\n', ' '), SUB[lang][1], body)
                where.append((line, line + c.count('\n'), i)); text += c; line += c.count('\n')
            text += 'fn main() {}\n'
            d = os.path.join(base, 'neg')
            write_crate(d, 'mq_neg_' + prop.lower(), text)
            # macro errors hide type errors, so the two kinds are looked at apart
            hit = set()
            left = list(range(len(ncases)))
            for attempt in range(2):
                rc, o, e = cargo(d, ['check', '--offline', '-q', '--message-format=json'], 600)
                for msg, ls, ren in errors_by_line(o):
                    for ln in ls:
                        for x, y, i in where:
                            if x <= ln < y: hit.add(i)
                if rc == 0 or attempt: break
                keep = [i for i in left if i not in hit]
                if not keep: break
                lines = text.split('\n')
                for x, y, i in where:
                    if i in hit:
                        for q in range(x - 1, y - 1): lines[q] = ''
                write_crate(d, 'mq_neg_' + prop.lower(), '\n'.join(lines))
            for i, (lang, body) in enumerate(ncases):
                total += 1
                if i not in hit: fails.append(dict(fail=100000 + i, case='%s quote! {%s}' % (lang, body), expected='refused by the compiler', got='compiles'))
    for f in fails[:20]: print(json.dumps(f))
    bounds = {'M01': 'random bodies of up to 9 lines, 6 items a line, columns of indentation 1 to 8 apart, blank lines, groups, interpolations and nested regions for quote!, quote_in! and quote_fn!, and bodies with a level that matches none',
              'M02': 'random strings of up to 5 parts, nested evaluations up to depth 3, groups, constants; evaluations in languages without them and line breaks, which have to be refused',
              'M03': 'random nesting up to depth 3 of for, join, if, else, match, let and ref with logged evaluations'}[prop]
    print(json.dumps(dict(summary=True, evaluations=total, distinct_nontrivial=len(nontriv), bounds=[bounds], samples=samples[:3])))

if __name__ == '__main__':
    main()
