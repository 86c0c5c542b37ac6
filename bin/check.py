#!/usr/bin/env python3
"""Runs the check of one property (see DESIGN.md, "What a check does").

usage: bin/check.py PROPERTY [--tier quick|thorough]
exit 0: held; exit 1 + VIOLATION line: broken; exit 2: the check could not run.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(HERE, '.build')
sys.path.insert(0, os.path.join(HERE, 'bin'))
import weave as W

TOOLCHAIN = 'nightly-x86_64-unknown-linux-gnu'
VERUS_RLIMIT = {'quick': '40', 'thorough': '120'}

def env(**kw):
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUSTUP_TOOLCHAIN=TOOLCHAIN)
    e.update(kw)
    return e

def run(cmd, cwd=HERE, timeout=600, **kw):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace'), 'timed out'

class Fatal(Exception):
    pass

# ---- building ----
def build_xt():
    tgt = os.path.join(BUILD, 'xt')
    rc, o, e = run(['cargo', 'build', '--offline', '-q', '--manifest-path', os.path.join(HERE, 'xt/Cargo.toml')], CARGO_TARGET_DIR=tgt)
    if rc != 0: raise Fatal('extractor does not build:\n' + e[-3000:])
    return os.path.join(tgt, 'debug', 'xt')

def expand(pkg, out):
    """macro-expanded source of a crate of /repo's working tree"""
    tgt = os.path.join(BUILD, 'expand')
    rc, o, e = run(['cargo', 'rustc', '--offline', '-q', '--lib', '-p', pkg, '--profile=check', '--', '-Zunpretty=expanded'], cwd=REPO, CARGO_TARGET_DIR=tgt)
    if rc != 0: raise Fatal('/repo does not compile:\n' + e[-3000:])
    if len(o) < 1000: raise Fatal('empty expansion of ' + pkg)
    open(out, 'w').write(o)

def build_harness():
    tgt = os.path.join(BUILD, 'harness')
    rc, o, e = run(['cargo', 'build', '--offline', '-q', '--manifest-path', os.path.join(HERE, 'harness/Cargo.toml')], CARGO_TARGET_DIR=tgt)
    if rc != 0: return None, e[-4000:]
    return [os.path.join(tgt, 'debug', 'genco-harness')], ''

# ---- proof ----
TRUSTED = re.compile(r'\b(assume_specification|external_body|external_fn_specification|external_type_specification|admit|assume|axiom\s+fn|uninterp)\b')

def scan_trusted(text):
    """every assumption left in the verified text: (kind, where)"""
    out, lines = [], text.split('\n')
    for i, l in enumerate(lines):
        code = l.split('//')[0]
        m = TRUSTED.search(code)
        if not m or m.group(1) == 'uninterp': continue
        kind = m.group(1).split()[0]
        ctx = code.strip()
        if kind == 'external_body':
            # the item that follows
            for j in range(i + 1, min(i + 5, len(lines))):
                c = lines[j].strip()
                if c and not c.startswith('#[') and not c.startswith('//'):
                    ctx = c; break
        doc = ''
        j = i - 1
        while j >= 0 and (lines[j].strip().startswith('#[') ): j -= 1
        if j >= 0 and lines[j].strip().startswith('///'): doc = lines[j].strip()[3:].strip()
        out.append('%s: %s%s' % (kind, ctx[:150], (' -- ' + doc) if doc else ''))
    return out

def verus(path, rlimit, extra=()):
    t = time.time()
    rc, o, e = run(['verus', path, '--output-json', '--time-expanded', '--rlimit', rlimit, '--multiple-errors', '2', *extra], cwd=os.path.dirname(path), timeout=700)
    res = dict(wall=time.time() - t, stderr=e, rc=rc)
    try:
        j = json.loads(o[o.index('{'):])
    except ValueError:
        res['crash'] = True
        return res
    res['json'] = j
    res['verified'] = j['verification-results'].get('verified', 0)
    res['errors'] = j['verification-results'].get('errors', 0)
    res['success'] = j['verification-results'].get('success', False)
    res['vir_error'] = j['verification-results'].get('encountered-vir-error', False) or 'verified' not in j['verification-results'] or res['verified'] + res['errors'] == 0
    fns = []
    smt = j.get('times-ms', {}).get('smt', {})
    for m in smt.get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            fns.append(f)
    res['functions'] = fns
    res['smt_ms'] = smt.get('smt-run', 0)
    return res

def split_errors(stderr):
    blocks, cur = [], None
    for l in stderr.split('\n'):
        if re.match(r'(error|warning|note)(\[\w+\])?:', l):
            cur = [l]; blocks.append(cur)
        elif cur is not None:
            cur.append(l)
    return ['\n'.join(b) for b in blocks if b[0].startswith('error') and not re.match(r'error: aborting', b[0])]

def locate(block, w, path):
    """the function under contract (or lemma) an error block is about"""
    base = os.path.basename(path)
    lines = [int(x) for x in re.findall(r'%s:(\d+):' % re.escape(base), block)] 
    # all line numbers in the margin as well
    lines += [int(x) for x in re.findall(r'^\s*(\d+)\s*\|', block, re.M)]
    for ln in lines:
        for a, b, k in w.fn_lines:
            if a <= ln < b: return k
    text = w.text.split('\n')
    for ln in lines:
        for i in range(min(ln, len(text)) - 1, -1, -1):
            m = re.search(r'\bproof fn (\w+)', text[i])
            if m: return 'lemma ' + m.group(1)
            if re.match(r'\S.*\bfn (\w+)', text[i]): break
    return None

SEMANTIC = re.compile(r'error: (postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic|decreases not satisfied|loop invariant|unable to prove|recommendation not met|assert_|possible division|split|.*not satisfied)', re.I)
LIMIT = re.compile(r'rlimit|Resource limit|timed out|solver', re.I)

def relax(text, blocks):
    """the text without the loop invariants and proof hints that the error blocks are about.
    Neither is part of what is claimed: they only help the proof, and whatever then verifies is proved."""
    cuts = []
    starts = [0]
    for l in text.split('\n'): starts.append(starts[-1] + len(l) + 1)
    for b in blocks:
        head = b.split('\n')[0]
        m = re.search(r'--> \S+?:(\d+):(\d+)', b)
        if not m: return None
        pos = starts[int(m.group(1)) - 1] + int(m.group(2)) - 1
        if 'invariant not satisfied' in head:
            i, depth = pos, 0
            while i < len(text):
                c = text[i]
                if c == "'" and re.match(r"'(\\.[^']*|[^\\'])'", text[i:]): i += re.match(r"'(\\.[^']*|[^\\'])'", text[i:]).end(); continue
                if c in '([{': depth += 1
                elif c in ')]}': depth -= 1
                elif c == ',' and depth == 0 and not re.search(r'::\s*<[^()>]*$', text[pos:i]): break
                if depth < 0 or (depth == 0 and re.match(r'\n\s*(ensures|decreases|invariant)\b', text[i:])): return None
                i += 1
            cuts.append((pos, i + 1))
        elif 'assertion failed' in head:
            j = text.rfind('assert(', 0, pos + 1)
            if j < 0 or text[j + 7:pos].strip(): return None
            e = W.match_close(text, j + 6) + 1
            m = re.match(r'\s*(?:by\s*\(\w+\)\s*)?;', text[e:])
            if not m: return None
            cuts.append((j, e + m.end()))
        else: return None
    for a, e in sorted(set(cuts), reverse=True): text = text[:a] + re.sub(r'[^\n]', ' ', text[a:e]) + text[e:]
    return text

def prove_unit(unit, xt, sources, wd, tier):
    """-> dict describing what the verifier said about one unit"""
    r = dict(unit=unit, failed={}, lost={}, undecided={}, discharged=[], tool=None)
    tmpl = os.path.join(HERE, 'contracts', unit + '.vrs')
    skip = {}
    for attempt in range(8):
        try:
            w = W.weave(tmpl, xt, sources, wd, unit, skip=skip)
        except W.LostAnchor as e:
            r['tool'] = 'lost anchor: %s' % e
            return r
        path = os.path.join(wd, unit + '.rs')
        open(path, 'w').write(w.text)
        r.update(woven=path, keys=w.functions, lost=dict(w.lost), notes=w.notes, subst=w.subst, trusted=scan_trusted(w.text), lines=w.text.count('\n'))
        v = verus(path, VERUS_RLIMIT[tier])
        r['cmd'] = 'verus %s --rlimit %s' % (os.path.relpath(path, HERE), VERUS_RLIMIT[tier])
        r['wall'] = v['wall']
        if not (v.get('crash') or v.get('vir_error')): break
        # the functions the verifier cannot read are left out, so that the rest is still decided
        more = {}
        for b in split_errors(v['stderr']):
            k = locate(b, w, path)
            if k and k in w.functions and k not in skip: more[k] = 'the verifier does not accept the text of it: ' + b[:800]
        if not more or attempt == 7:
            r['tool'] = 'the verifier does not accept the woven text: ' + '\n'.join(split_errors(v['stderr']))[:3000] + ('' if split_errors(v['stderr']) else v['stderr'][-1500:])
            return r
        skip.update(more)
    r['smt_ms'] = v['smt_ms']
    r['verified'] = v['verified']
    r['queries'] = [dict(function=f['function'], mode=f.get('mode:', f.get('mode')), ms=f['time'], rlimit=f['rlimit'], ok=f['success']) for f in v['functions']]
    r['errors'] = v['errors']
    for b in split_errors(v['stderr']):
        k = locate(b, w, path) or 'unit ' + unit
        if LIMIT.search(b.split('\n')[0]):
            r['undecided'][k] = b
        elif SEMANTIC.search(b.split('\n')[0]):
            r['failed'].setdefault(k, []).append(b)
        else:
            r['undecided'][k] = b
    if v['errors'] and not r['failed'] and not r['undecided']:
        r['undecided']['unit ' + unit] = v['stderr'][-2000:]
    # a function whose loop skeleton or helpers changed has no usable contract text any more
    for k in list(r['failed']):
        if k in r['lost']:
            r['undecided'][k] = r['failed'].pop(k)[0]
        elif k in w.moved:
            r['undecided'][k] = w.moved[k] + ': ' + r['failed'].pop(k)[0]
    if v['verified'] + v['errors'] == 0:
        r['tool'] = 'no obligations were generated'
    # proof hints that do not fit the changed text of a function are taken out of it
    r['relaxed'] = {}
    left = {k: bs for k, bs in r['failed'].items() if k in w.functions}
    text, blocks = w.text, [b for bs in left.values() for b in bs]
    hint = re.compile(r'error: (invariant not satisfied|assertion failed)')
    p3 = os.path.join(wd, unit + '_relaxed.rs')
    for _ in range(4):
        blocks = [b for b in blocks if hint.match(b)]
        text = relax(text, blocks) if blocks else None
        if text is None: break
        open(p3, 'w').write(text)
        v3 = verus(p3, VERUS_RLIMIT[tier])
        if v3.get('crash') or v3.get('vir_error'): break
        now, blocks = set(), []
        for b in split_errors(v3['stderr']):
            k = locate(b, w, p3); now.add(k)
            if k in left: blocks.append(b)
        if None in now or not now <= set(r['failed']) | set(r['undecided']): break
        for k in [k for k in left if k not in now]:
            r['relaxed'][k] = [b.split('\n')[0] for b in left.pop(k)]
            del r['failed'][k]
        r['verified'], r['errors'] = v3['verified'], v3['errors']
    # vacuity: with assert(false) at the start of every function under contract,
    # every one of them has to be refused
    r['vacuous'] = []
    if not r['failed'] and not r['undecided'] and not r['lost'] and not r['tool']:
        for where in (['start'] if tier == 'quick' else ['start', 'end']):
            wv = W.weave(tmpl, xt, sources, wd, unit, probe=where, skip=skip)
            p2 = os.path.join(wd, unit + '_probe_' + where + '.rs')
            open(p2, 'w').write(wv.text)
            vv = verus(p2, VERUS_RLIMIT[tier], ['--no-auto-recommends-check'])
            if vv.get('crash') or vv.get('vir_error'):
                r['tool'] = 'vacuity probe does not run: ' + vv['stderr'][:800]; break
            hit = set()
            for b in split_errors(vv['stderr']):
                k = locate(b, wv, p2)
                if k: hit.add(k)
            miss = [k for k in wv.probed if k not in hit]
            r['vacuous'] += ['%s (%s)' % (k, where) for k in miss]
            r['probes'] = r.get('probes', 0) + len(wv.probed)
    return r

# ---- harness ----
def run_harness(binary, prop, seed, tier, extra=()):
    rc, o, e = run([*binary, prop, '--seed', str(seed), '--tier', tier, *extra], timeout=700)
    fails, summary = [], None
    for l in o.split('\n'):
        if not l.startswith('{'): continue
        try: j = json.loads(l)
        except ValueError: continue
        if j.get('summary'): summary = j
        else: fails.append(j)
    if summary is None and not fails:
        # died (stack overflow, abort) without a word
        fails.append(dict(fail=-1, case='the harness process died', expected='normal exit', got='exit code %s; %s' % (rc, e[-800:])))
    return fails, summary

LIT = re.compile(r"""//[^\n]*|/\*.*?\*/|b?"((?:[^"\\]|\\.)*)"|b?'((?:[^'\\\n]|\\[^u]|\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}))'|(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?=(?:u8|u16|u32|u64|usize|i8|i16|i32|i64|isize)?\b)""", re.S)
def unesc(s):
    def f(m):
        x = m.group(0)
        if x[1] == 'u': return chr(min(int(x[3:-1].replace('_', ''), 16), 0x10ffff))
        if x[1] == 'x': return chr(int(x[2:], 16))
        return {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(x[1], x[1])
    return re.sub(r'\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)', f, s, flags=re.S)

def write_dict(path):
    """literals that occur in the code under test, for the harness to try"""
    cs, ss, ns = set(), set(), set()
    for d in ('src/tokens', 'src/fmt', 'src/lang'):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if not f.endswith('.rs'): continue
                text = open(os.path.join(root, f), encoding='utf8', errors='replace').read().split('#[cfg(test)]')[0]
                for m in LIT.finditer(text):
                    try:
                        if m.group(1) is not None: ss.add(unesc(m.group(1)))
                        elif m.group(2) is not None: cs.add(unesc(m.group(2)))
                        elif m.group(3) is not None: ns.add(int(m.group(3).replace('_', ''), 0))
                    except ValueError: pass
    ok = lambda c: len(c) == 1 and not 0xd800 <= ord(c) < 0xe000
    with open(path, 'w') as fh:
        fh.write('c ' + ' '.join(str(ord(c)) for c in sorted(cs) if ok(c)) + '\n')
        for s in sorted(ss):
            if len(s) <= 120: fh.write('s ' + ' '.join(str(ord(c)) for c in s) + '\n')
        fh.write('i ' + ' '.join(str(n) for n in sorted(ns) if n < 0x110000) + '\n')

def load_known(prop):
    known = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: known[m.group(2)] = m.group(3)
    return known

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    cfg = json.load(open(os.path.join(HERE, 'contracts', 'properties.json')))[prop]
    wd = os.path.join(BUILD, 'woven', prop)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    sources = {'': os.path.join(wd, 'genco.rs')}
    write_dict(os.path.join(wd, 'dict.txt'))
    os.environ['HARNESS_DICT'] = os.path.join(wd, 'dict.txt')
    need_macros = cfg.get('macros', False)
    if need_macros: sources['m'] = os.path.join(wd, 'genco_macros.rs')
    with cf.ThreadPoolExecutor(8) as ex:
        mq = cfg.get('mq', False)     # the stand-in for the macros generates programs itself
        fh = ex.submit((lambda: ([sys.executable, os.path.join(HERE, 'bin', 'mq.py')], '')) if mq else build_harness)
        fx = ex.submit(build_xt)
        def do_expand():
            expand('genco', sources[''])
            if need_macros: expand('genco-macros', sources['m'])
        fe = ex.submit(do_expand)
        fe.result()
        xt = fx.result()
        units = [ex.submit(prove_unit, u, xt, sources, wd, tier) for u in cfg['units']]
        binary, herr = fh.result()
        hfails, hsum = [], None
        tier_h = tier
        if binary and cfg.get('harness', True):
            hfails, hsum = run_harness(binary, prop, seed, tier)
        units = [u.result() for u in units]
    known = load_known(prop)
    old = [f for f in hfails if f.get('key') in known]
    new = [f for f in hfails if f.get('key') not in known]
    # which functions and lemmas decide this property
    prim = cfg.get('functions', {})       # unit -> list of patterns (fnmatch on keys), default all
    import fnmatch
    def mine(u, k):
        if k.startswith('lemma ') or k.startswith('unit '): return True
        pats = prim.get(u)
        return pats is None or any(fnmatch.fnmatchcase(k, p) for p in pats)
    failed, undecided, tools, vac, deps = {}, {}, [], [], {}
    under = []
    queries, smt_ms, verified, errors = [], 0, 0, 0
    trusted, notes, subst, cmds, probes = set(), {}, [], [], 0
    for u in units:
        if u['tool']: tools.append('%s: %s' % (u['unit'], u['tool']))
        for k, b in u['failed'].items():
            (failed if mine(u['unit'], k) else deps)[k] = b
        for k, b in u['undecided'].items(): undecided[k] = b
        for k, b in u['lost'].items(): undecided.setdefault(k, b)
        vac += u.get('vacuous', [])
        under += u.get('keys', [])
        queries += u.get('queries', [])
        smt_ms += u.get('smt_ms', 0)
        verified += u.get('verified', 0); errors += u.get('errors', 0)
        trusted |= set(u.get('trusted', []))
        for n, ks in u.get('notes', {}).items(): notes.setdefault(n, []).extend(ks)
        subst += u.get('subst', [])
        probes += u.get('probes', 0)
        if 'cmd' in u: cmds.append(u['cmd'])
    if (failed or deps or undecided or tools) and not new and binary and cfg.get('harness', True) and tier == 'quick':
        # look harder for a failing input
        f2, s2 = run_harness(binary, prop, seed + 1000, 'thorough', ['--budget', '240'])
        if [f for f in f2 if f.get('key') not in known]: seed, tier_h = seed + 1000, 'thorough'
        new = [f for f in f2 if f.get('key') not in known]
        if s2 and hsum: hsum['evaluations'] += s2['evaluations']
    violation = bool(new or failed)
    proved = not (failed or deps or undecided or tools or vac) and verified > 0
    bad = set(failed) | set(deps) | set(undecided)
    obligations = verified + errors
    discharged = verified
    level = 'proof' if (proved or violation) and cfg.get('level', 'proof') == 'proof' else 'exploration'
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='; '.join(cmds) or 'none',
        trusted_base=sorted(trusted) + cfg.get('trusted', []),
        backend='Verus 0.2026.09.13 / bundled Z3',
        solver_ms=smt_ms,
        functions_under_contract=[dict(function=k, status='failed' if k in failed or k in deps else 'undecided' if k in undecided else 'discharged') for k in under],
        queries=len(queries),
        slowest=sorted(({'function': q['function'], 'ms': q['ms']} for q in queries), key=lambda q: -q['ms'])[:5],
        vacuity_probes=probes, vacuous=vac,
        undecided={k: (v if isinstance(v, str) else v[0])[:600] for k, v in undecided.items()},
        dependencies_failed=sorted(deps),
        tool_limits=tools,
        proof_hints_dropped={k: v for u in units for k, v in u.get('relaxed', {}).items()},
        extraction_rewrites={n: sorted(set(ks)) for n, ks in notes.items()},
        substitutions=subst,
        theorems=cfg.get('theorems', []),
    )
    if hsum:
        cov.update(evaluations=hsum['evaluations'], distinct_nontrivial=hsum['distinct_nontrivial'],
                   rule='bounded stand-in on the real crate (not counted as proof): ' + '; '.join(hsum['bounds']),
                   samples=hsum['samples'] or ['(none)'])
    elif herr:
        cov['bounded_stand_in'] = 'harness does not build: ' + herr[-600:]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=cfg.get('assumptions', []) + sorted(trusted), wall_s=round(time.time() - t0, 2), violations=len(new) + len(failed))
    if level != 'proof':
        cov['explanation'] = 'some obligations were not decided by the verifier on this tree (see undecided, tool_limits); only the bounded stand-in ran on them'
        cov.setdefault('evaluations', 0); cov.setdefault('distinct_nontrivial', 0); cov.setdefault('rule', 'none'); cov.setdefault('samples', ['(none)'])
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for f in old:
        pass
    for k in sorted({f['key'] for f in old}):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if not violation:
        print('%s: %s; %d obligations, %d discharged (%d functions under contract); bounded cases %s; %.1f s' % (
            prop, 'proved' if proved else 'held on everything explored (proof incomplete)', obligations, discharged, len(under), hsum['evaluations'] if hsum else 0, time.time() - t0))
        for k, v in undecided.items(): print('  undecided: %s: %s' % (k, (v if isinstance(v, str) else v[0])[:300].replace('\n', ' ')))
        for t in tools: print('  tool limit: ' + t[:600])
        for k in deps: print('  a contract this property relies on failed (reported by its own property): ' + k)
        for v in vac: print('  vacuous contract: ' + v)
        if not proved and not hsum:
            print('nothing decided'); sys.exit(2)
        sys.exit(0)
    rp = os.path.join(wd, 'replay.txt')
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, prop + '.txt')
    with open(rp, 'w') as fh:
        fh.write('property %s broken on the current /repo tree\n' % prop)
        for f in new[:5]:
            fh.write('\nfailing input, run against the real crate (case %s):\n  input:    %s\n  expected: %s\n  got:      %s\n' % (f.get('fail'), f.get('case'), f.get('expected'), f.get('got')))
            fh.write('  again:    %s %s --seed %d --tier %s --only %s   (HARNESS_DICT=%s)\n' % (' '.join(os.path.relpath(x, HERE) if x.startswith(HERE) else x for x in binary), prop, seed, tier_h, f.get('fail'), os.environ['HARNESS_DICT']))
        for k, bs in failed.items():
            fh.write('\nobligation of %s not discharged:\n' % k)
            for b in bs: fh.write(b + '\n')
        for k in deps: fh.write('\n(also failing, decided by another property: %s)\n' % k)
        for k, b in undecided.items(): fh.write('\nundecided: %s: %s\n' % (k, b if isinstance(b, str) else b[0]))
        for t in tools: fh.write('\ntool limit: %s\n' % t)
    for k in failed: print('  failed obligation: %s: %s' % (k, failed[k][0].split('\n')[0]))
    for f in new[:3]: print('  failing input: %s\n    expected %s\n    got      %s' % (str(f.get('case'))[:400], str(f.get('expected'))[:400], str(f.get('got'))[:400]))
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if new else ' no-failing-input-found'))
    sys.exit(1)

if __name__ == '__main__':
    try:
        main()
    except Fatal as e:
        print('check could not run: %s' % e)
        sys.exit(2)
