#!/usr/bin/env python3
"""Runs the verification units of one property and writes its evidence file.

A unit is one harness file units/<ID>/<name>.c.  Its first comment holds a JSON
description (see DESIGN.md, "Unit format").  Every run:
  1. copies the current /repo sources it names into a scratch directory, adding
     nothing but the loop contracts the unit asks for (see annotate()),
  2. compiles harness + real sources with goto-cc, instruments the contracts
     with goto-instrument (--dfcc), discharges every obligation with cbmc,
  3. on a failed obligation, extracts the counterexample input and replays it
     against the real sources compiled natively with sanitizers.
Exit status: 0 held, 1 VIOLATION, 2 the check itself could not decide.
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, resource, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
DEFS = ['-DHAVE_CONFIG_H', '-DDOWNLOAD_LIBCURL', '-DVP_VERIF']
MEM_GB = 7

STD = ['--no-standard-checks', '--bounds-check', '--pointer-check',
       '--div-by-zero-check', '--no-malloc-may-fail', '--unwinding-assertions',
       '--drop-unused-functions', '--slice-formula']


class CheckError(Exception):
    pass


def sh(cmd, timeout, cwd=None, mem_gb=MEM_GB):
    def lim():
        b = mem_gb << 30
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
        os.setsid()
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=cwd, preexec_fn=lim if mem_gb else os.setsid)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -999, b'', b'timeout after %ds' % timeout, time.time() - t0
    return p.returncode, o, e, time.time() - t0


def race(cmds, timeout, mem_gb=MEM_GB):
    def lim():
        b = mem_gb << 30
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
        os.setsid()
    t0 = time.time()
    ps = []
    for c in cmds:
        fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        td = tempfile.mkdtemp(prefix='vps')
        ps.append((subprocess.Popen(c, stdout=fo, stderr=fe, preexec_fn=lim,
                                    env=dict(os.environ, TMPDIR=td)), fo, fe, td))
    win = None
    dead = set()
    while win is None and time.time() - t0 < timeout:
        for k, (p, fo, fe, td) in enumerate(ps):
            if k in dead or p.poll() is None:
                continue
            if p.returncode in (0, 10):
                win = k
                break
            dead.add(k)
        if len(dead) == len(ps):
            win = 0
            break
        if win is None:
            time.sleep(0.03)
    for p, fo, fe, td in ps:
        if p.poll() is None:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
    if win is None:
        res = (-999, b'', b'timeout after %ds' % timeout, time.time() - t0, 0)
    else:
        p, fo, fe, td = ps[win]
        fo.seek(0)
        fe.seek(0)
        res = (p.returncode, fo.read(), fe.read(), time.time() - t0, win)
    for p, fo, fe, td in ps:
        fo.close()
        fe.close()
        shutil.rmtree(td, ignore_errors=True)
    return res


def load_unit(path):
    txt = open(path).read()
    m = re.match(r'\s*/\*UNIT(.*?)\*/', txt, re.S)
    if not m:
        raise CheckError('no UNIT header in ' + path)
    u = json.loads(m.group(1))
    u['path'] = path
    u['id'] = os.path.splitext(os.path.basename(path))[0]
    return u


def expand(u):
    vs = u.get('variants')
    if not vs:
        return [u]
    out = []
    for v in vs:
        w = dict(u)
        w.update(v)
        w['defines'] = u.get('defines', []) + v.get('defines', [])
        w['id'] = u['id'] + '.' + v['name']
        out.append(w)
    return out


# ---------------------------------------------------------------- loop contracts
def strip_code(s):
    """same length, comments / strings blanked"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith('/*', i):
            j = s.find('*/', i + 2)
            j = n if j < 0 else j + 2
            out.append(re.sub(r'[^\n]', ' ', s[i:j]))
            i = j
        elif s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            out.append(' ' * (j - i))
            i = j
        elif s[i] in '"\'':
            q = s[i]
            j = i + 1
            while j < n and s[j] != q:
                j += 2 if s[j] == '\\' else 1
            j = min(j + 1, n)
            out.append(q + ' ' * (j - i - 2) + q if j - i >= 2 else s[i:j])
            i = j
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def match_close(c, i, o, cl):
    d = 0
    for j in range(i, len(c)):
        if c[j] == o:
            d += 1
        elif c[j] == cl:
            d -= 1
            if d == 0:
                return j
    return -1


def find_function(c, name):
    for m in re.finditer(r'\b%s\s*\(' % re.escape(name), c):
        # at file level?
        if c[:m.start()].count('{') != c[:m.start()].count('}'):
            continue
        j = match_close(c, m.end() - 1, '(', ')')
        if j < 0:
            continue
        k = j + 1
        while k < len(c) and c[k].isspace():
            k += 1
        if k < len(c) and c[k] == '{':
            e = match_close(c, k, '{', '}')
            return k, e
    return None


def find_loops(c, b, e):
    """(kind, insertion offset) of the loops of a function body, in source order"""
    loops = []
    dos = []
    for m in re.finditer(r'\b(while|for|do)\b', c[b:e]):
        p = b + m.start()
        w = m.group(1)
        if w == 'do':
            k = b + m.end()
            while c[k].isspace():
                k += 1
            if c[k] != '{':
                raise CheckError('do without block')
            close = match_close(c, k, '{', '}')
            mm = re.match(r'\s*while\s*\(', c[close + 1:])
            if not mm:
                raise CheckError('do without while')
            wp = close + 1 + mm.end() - 1
            we = match_close(c, wp, '(', ')')
            dos.append(close + 1 + re.match(r'\s*', c[close + 1:]).end())
            loops.append((p, 'do', we + 1))
        else:
            if p in dos:
                continue
            k = b + m.end()
            while c[k].isspace():
                k += 1
            if c[k] != '(':
                continue
            we = match_close(c, k, '(', ')')
            loops.append((p, w, we + 1))
    loops.sort()
    return loops


def annotate(src, specs):
    """insert loop contracts; specs: [{function, loop (index), count (loops the
    function must have), text}].  Nothing else is changed; line numbers stay."""
    c = strip_code(src)
    ins = []
    for s in specs:
        f = find_function(c, s['function'])
        if not f:
            return None, 'function %s not found' % s['function']
        loops = find_loops(c, *f)
        if s.get('count') is not None and len(loops) != s['count']:
            return None, '%s has %d loops, contract written for %d' % (
                s['function'], len(loops), s['count'])
        if s['loop'] >= len(loops):
            return None, 'loop %d of %s not found' % (s['loop'], s['function'])
        if s.get('kind') and loops[s['loop']][1] != s['kind']:
            return None, 'loop %d of %s is no longer a %s loop' % (s['loop'], s['function'], s['kind'])
        for ident in s.get('needs', []):
            if not re.search(r'\b%s\b' % re.escape(ident), c[f[0]:f[1]]):
                return None, '%s: local %s not found' % (s['function'], ident)
        ins.append((loops[s['loop']][2], ' ' + s['text'].replace('\n', ' ') + ' '))
    for off, t in sorted(ins, reverse=True):
        src = src[:off] + t + src[off:]
    return src, None


# ---------------------------------------------------------------- running a unit
def stage(u, tmp, annotated=True):
    """scratch copy of the repo's sources (as they are), plus loop contracts"""
    d = os.path.join(tmp, 'src')
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(REPO, '*.[ch]')):
        shutil.copy(f, d)
    if annotated and u.get('loops'):
        by = {}
        for s in u['loops']:
            by.setdefault(s['file'], []).append(s)
        for f, specs in by.items():
            p = os.path.join(d, f)
            txt = open(p, encoding='latin-1').read().replace('\r\n', '\n')
            new, err = annotate(txt, specs)
            if new is None:
                return d, err
            open(p, 'w', encoding='latin-1').write(new)
    return d, None


def goto_build(u, tmp, d):
    inc = ['-I' + d, '-I' + LIB, '-I' + os.path.join(LIB, 'inc')]
    defs = DEFS + ['-D' + x for x in u.get('defines', [])]
    out = os.path.join(tmp, 'a.gb')
    files = [u['path']] + [os.path.join(d, s) for s in u.get('link', [])] + \
        [os.path.join(LIB, 'stubs', s) for s in u.get('stubs', [])]
    cmd = ['goto-cc'] + defs + ['-D__CPROVER'] + inc + ['--function', 'harness'] + files + ['-o', out]
    rc, o, e, _ = sh(cmd, 120)
    if rc != 0:
        return None, 'goto-cc failed: ' + (o + e).decode(errors='replace')[-1500:], cmd
    return out, None, cmd


_DEFS = {}


def defining_file(d, fn):
    if d not in _DEFS:
        m = {}
        for f in glob.glob(os.path.join(d, '*.c')):
            txt = strip_code(open(f, encoding='latin-1').read())
            for k in re.finditer(r'^[A-Za-z_][^\n;{}()=]*?\b([A-Za-z_]\w*)\s*\(', txt, re.M):
                if re.match(r'\s*static\b', k.group(0)):
                    continue
                j = match_close(txt, k.end() - 1, '(', ')')
                if j > 0 and re.match(r'\s*\{', txt[j + 1:j + 200]):
                    m.setdefault(k.group(1), os.path.basename(f))
        _DEFS[d] = m
    return _DEFS[d].get(fn)


def instrument(u, tmp, gb, loops):
    cmds = []
    cur = gb
    if u.get('remove_bodies'):
        nxt = os.path.join(tmp, 'rb.gb')
        cmd = ['goto-instrument']
        for f in u['remove_bodies']:
            cmd += ['--remove-function-body', f]
        cmd += [cur, nxt]
        rc, o, e, _ = sh(cmd, 120)
        if rc != 0:
            return None, 'goto-instrument: ' + (o + e).decode(errors='replace')[-1500:], cmds
        cmds.append(cmd)
        cur = nxt
    if u.get('enforce') or u.get('replace') or loops:
        nxt = os.path.join(tmp, 'b.gb')
        cmd = ['goto-instrument', '--dfcc', 'harness']
        if u.get('enforce'):
            cmd += ['--enforce-contract', u['enforce']]
        for r in u.get('replace', []):
            cmd += ['--replace-call-with-contract', r]
        if loops:
            cmd += ['--apply-loop-contracts']
            if u.get('no_unwind_transformed', True):
                cmd += ['--loop-contracts-no-unwind']
        cmd += [cur, nxt]
        rc, o, e, _ = sh(cmd, 300)
        if rc != 0:
            return None, 'goto-instrument: ' + (o + e).decode(errors='replace')[-1500:], cmds
        cmds.append(cmd)
        cur = nxt
    return cur, None, cmds


def parse_json(o):
    try:
        return json.loads(o.decode(errors='replace'), strict=False)
    except Exception:
        return None


def cbmc(u, gb, timeout, extra=()):
    cmd = ['cbmc', gb] + STD + list(u.get('cbmc', []))
    if '--property' not in extra:
        # forming (never dereferencing) an out-of-range pointer is not judged:
        # select every obligation except those
        rc, o, e, dt = sh(cmd + ['--json-ui', '--show-properties'], 300)
        js = parse_json(o) or []
        sel = []
        dropped = 0
        for it in js:
            for p in it.get('properties', []):
                if p['description'].startswith(('pointer relation:', 'pointer arithmetic:')):
                    dropped += 1
                else:
                    sel.append(p['name'])
        if dropped:
            for n in sel:
                cmd += ['--property', n]
    cmd += ['--json-ui'] + list(extra)
    # portfolio: the first back end to finish decides
    backs = []
    want = u.get('solver', 'both')
    if want in ('both', 'minisat'):
        backs.append([])
    if want in ('both', 'kissat') and shutil.which('kissat'):
        backs.append(['--external-sat-solver', 'kissat'])
    rc, o, e, dt, k = race([cmd + b for b in (backs or [[]])], timeout)
    cmd = cmd + (backs or [[]])[k]
    if '--property' in cmd and '--property' not in extra:
        k = cmd.index('--property')
        cmd = cmd[:k] + ['--property ... (all but pointer-relation checks)', '--json-ui']
    return rc, o, e, dt, cmd


def val_to_c(v):
    """cbmc json value -> C initialiser"""
    if 'members' in v:
        return '{' + ', '.join('.%s = %s' % (m['name'], val_to_c(m['value']))
                               for m in v['members'] if not m['name'].startswith('$pad')) + '}'
    if 'elements' in v:
        return '{' + ', '.join(val_to_c(x['value']) for x in sorted(v['elements'], key=lambda x: x['index'])) + '}'
    if v.get('name') in ('integer', 'boolean', 'unsigned', 'signed') or 'binary' in v:
        b = v.get('binary')
        if b is not None and set(b) <= set('01') and b:
            return '0x%x' % int(b, 2) if len(b) <= 64 else '0'
    d = v.get('data')
    if d is None:
        return '0'
    d = str(d)
    if d in ('TRUE', 'true'):
        return '1'
    if d in ('FALSE', 'false'):
        return '0'
    m = re.match(r'-?\d+', d)
    return m.group(0) if m else '0'


def flatten(path, v, out):
    if 'members' in v:
        for m in v['members']:
            if not m['name'].startswith('$pad'):
                flatten(path + '.' + m['name'], m['value'], out)
    elif 'elements' in v:
        for x in v['elements']:
            flatten('%s[%d]' % (path, x['index']), x['value'], out)
    elif 'member' in v:
        flatten(path + '.' + v['member']['name'], v['member']['value'], out)
    else:
        out[path] = val_to_c(v)


def find_input(trace):
    """C initialiser for the harness's input record, from the counterexample"""
    for var in ('vp_in', 'in'):
        out = {}
        for st in trace:
            lhs = st.get('lhs', '')
            if st.get('stepType') == 'assignment' and (lhs == var or lhs.startswith((var + '.', var + '['))):
                flatten(re.sub(r'\[(\d+)[a-z]*\]', r'[\1]', lhs[len(var):]), st.get('value', {}), out)
        if out:
            return '{' + ', '.join('%s = %s' % kv for kv in out.items()) + '}'
    return None


def replay_native(u, initialiser, outdir, tag):
    """compile harness + current /repo sources natively, run it on the
    counterexample.  returns (confirmed, text)"""
    os.makedirs(outdir, exist_ok=True)
    exe_d = tempfile.mkdtemp(prefix='vpnat')
    try:
        hdr = os.path.join(outdir, tag + '.in.h')
        open(hdr, 'w').write('#define VP_IN_INITIALISER %s\n' % initialiser)
        files = [u['path'], os.path.join(LIB, 'native.c')] + \
            [os.path.join(REPO, s) for s in u.get('link', [])] + \
            [os.path.join(LIB, 'stubs', s) for s in u.get('native_stubs', [])]
        exe = os.path.join(exe_d, 'replay')
        cmd = ['gcc', '-g', '-O0', '-w', '-std=gnu11', '-fno-strict-aliasing',
               '-fsanitize=address,bounds', '-fno-sanitize-recover=all'] + DEFS + \
            ['-D' + x for x in u.get('defines', [])] + \
            ['-I' + REPO, '-I' + LIB, '-I' + os.path.join(LIB, 'inc'), '-include', hdr] + files + \
            ['-o', exe, '-Wl,--unresolved-symbols=ignore-all', '-lpthread', '-lm'] + u.get('native_libs', [])
        open(os.path.join(outdir, tag + '.replay.sh'), 'w').write(
            '#!/bin/sh\n# rebuilds the real code with the counterexample input and runs it\n' +
            ' '.join("'%s'" % c if ' ' in c else c for c in cmd).replace(exe, '/tmp/vp_replay') +
            ' && timeout 20 /tmp/vp_replay\n')
        rc, o, e, _ = sh(cmd, 120, mem_gb=0)
        if rc != 0:
            return False, 'native build failed: ' + (o + e).decode(errors='replace')[-800:]
        env_cmd = ['env', 'ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99', exe]
        rc, o, e, dt = sh(env_cmd, 20, cwd=exe_d, mem_gb=0)
        txt = (o + e).decode(errors='replace')[-1500:]
        if rc == -999:
            return True, 'the real code does not terminate within 20 s on this input'
        if 'pc 0x000000000000' in txt and 'CHECK FAILED' not in txt:
            return False, 'the replay reached a function outside the unit: ' + txt
        if rc in (1, 99) or rc < 0 or rc in (134, 136, 139):
            return True, 'exit %d: %s' % (rc, txt)
        return False, 'exit %d (not reproduced): %s' % (rc, txt)
    finally:
        shutil.rmtree(exe_d, ignore_errors=True)


def run_unit(u, tier, deadline):
    """-> result dict"""
    r = {'unit': u['id'], 'kind': u['kind'], 'functions': u.get('functions', []),
         'obligations': 0, 'discharged': 0, 'failed': [], 'status': None,
         'solver_s': 0.0, 'note': '', 'cmds': []}
    tmp = tempfile.mkdtemp(prefix='vpu')
    u = dict(u)
    try:
        want_loops = bool(u.get('loops'))
        d, err = stage(u, tmp)
        if err:
            fb = u.get('fallback')
            if not fb:
                r['status'] = 'skipped' if u.get('internal') else 'error'
                r['note'] = 'loop contract not applicable: ' + err
                return r
            u = dict(u)
            u.update(fb)
            u['loops'] = []
            want_loops = False
            r['kind'] = u['kind']
            r['note'] = 'loop contract not applicable (%s): bounded stand-in used' % err
            d, err = stage(u, tmp, False)
        gb, err, cmd = goto_build(u, tmp, d)
        if gb is None and want_loops and u.get('fallback'):
            r['note'] = 'annotated source does not compile: bounded stand-in used'
            u = dict(u)
            u.update(u['fallback'])
            u['loops'] = []
            want_loops = False
            r['kind'] = u['kind']
            d, err = stage(u, tmp, False)
            gb, err, cmd = goto_build(u, tmp, d)
        if gb is None:
            r['status'] = 'skipped' if u.get('internal') else 'error'
            r['note'] += ' ' + err
            return r
        base = list(r['cmds'])
        for attempt in range(5):
            r['cmds'] = base + [cmd]
            ib, err, cmds = instrument(u, tmp, gb, want_loops)
            r['cmds'] += cmds
            if ib is None:
                r['status'] = 'skipped' if u.get('internal') else 'error'
                r['note'] += ' ' + err
                return r
            r['link'] = u.get('link', [])
            to = max(5, min(u.get('timeout', 600), deadline - time.time()))
            rc, o, e, dt, cmd = cbmc(u, ib, to)
            r['cmds'].append(cmd)
            r['solver_s'] = round(dt, 2)
            if rc == -999:
                r['status'] = 'error'
                r['note'] += ' verifier timeout after %ds' % to
                return r
            js = parse_json(o)
            if js is None:
                r['status'] = 'error'
                r['note'] += ' cbmc rc=%d, no json: %s' % (rc, (o[-600:] + e[-600:]).decode(errors='replace'))
                return r
            # a function the code reaches that a /repo file not linked so far
            # defines (a helper moved to another file, say): link that file too
            nb = sorted({p['description'].split()[-1] for it in js for p in it.get('result', [])
                         if p['description'].startswith('no body for') and p['status'] != 'SUCCESS'})
            r['without_body'] = nb
            own = open(u['path']).read()
            add = [f for f in sorted({defining_file(d, fn) for fn in nb if fn not in u.get('havoc', [])} - {None})
                   if f not in u.get('link', []) and '"%s"' % f not in own]
            if not add:
                break
            old = u.get('link', [])
            u['link'] = old + add
            gb2, err, cmd2 = goto_build(u, tmp, d)
            if gb2 is None:
                u['link'] = old
                goto_build(u, tmp, d)
                break
            gb, cmd = gb2, cmd2
        res = None
        msgs = []
        for it in js:
            if 'result' in it:
                res = it['result']
            if it.get('messageType') in ('ERROR',):
                msgs.append(it.get('messageText', ''))
        if res is None:
            r['status'] = 'error'
            r['note'] += ' cbmc gave no result: ' + ' '.join(msgs)[-600:]
            return r
        reach = [p for p in res if p['description'].startswith('REACH:')]
        props = [p for p in res if not p['description'].startswith('REACH:')]
        r['obligations'] = len(props)
        r['discharged'] = sum(1 for p in props if p['status'] == 'SUCCESS')
        r['reach'] = len(reach)
        if r['without_body']:
            r['status'] = 'error'
            r['note'] += ' no definition for ' + ', '.join(r['without_body'])
            return r
        bad_reach = [p['description'] for p in reach if p['status'] != 'FAILURE']
        failed = [p for p in props if p['status'] == 'FAILURE']
        other = [p for p in props if p['status'] not in ('SUCCESS', 'FAILURE')]
        if not props or not reach:
            r['status'] = 'error'
            r['note'] += ' vacuous: no obligation or no reachability probe'
            return r
        if other and not failed:
            r['status'] = 'error'
            r['note'] += ' undecided: %s' % other[0]['description']
            return r
        if not failed:
            if bad_reach:
                r['status'] = 'error'
                r['note'] += ' vacuous: unreachable ' + '; '.join(bad_reach[:4])
                return r
            r['status'] = 'ok'
            return r
        # failed obligations
        unw = [p for p in failed if 'unwinding assertion' in p['description'] or '.unwind.' in p['property'] or 'recursion unwinding' in p['description']]
        real = [p for p in failed if p not in unw]
        r['failed'] = [{'property': p['property'], 'description': p['description'],
                        'at': '%s:%s' % (os.path.basename(p.get('sourceLocation', {}).get('file', '?')),
                                         p.get('sourceLocation', {}).get('line', '?')),
                        'function': p.get('sourceLocation', {}).get('function', '?')}
                       for p in failed]
        outdir = os.path.join(VERIF, 'replays')
        os.makedirs(outdir, exist_ok=True)
        tag = '%s-%s' % (u['property'], u['id'])
        best = None
        # order: CHECK assertions first, then memory-safety
        real.sort(key=lambda p: 0 if p['description'].startswith('CHECK:') else 1)
        for p in (real[:3] + unw[:2]):
            to = max(10, min(u.get('timeout', 600), deadline - time.time()))
            rc, o, e, dt, cmd = cbmc(u, ib, to, ['--property', p['property'], '--trace'])
            js = parse_json(o) if rc != -999 else None
            init = None
            if js:
                for it in js:
                    for q in it.get('result', []):
                        if q['property'] == p['property'] and q.get('trace'):
                            init = find_input(q['trace'])
            if init is None or u.get('no_native'):
                if best is None and p in real:
                    best = (p, False, 'no input extracted')
                continue
            ok, txt = replay_native(u, init, outdir, tag)
            if ok:
                best = (p, True, txt)
                break
            if best is None and p in real:
                best = (p, False, txt)
        if best is None:
            r['status'] = 'error'
            r['note'] += ' unwinding bound exceeded (%s), not a violation' % failed[0]['description']
            return r
        p, confirmed, txt = best
        rp = os.path.join(outdir, tag + '.json')
        json.dump({'property': u['property'], 'unit': u['id'], 'failed_obligation': p['property'],
                   'description': p['description'], 'location': p.get('sourceLocation'),
                   'all_failed': r['failed'], 'replayed': confirmed, 'replay_output': txt,
                   'replay_script': os.path.join(outdir, tag + '.replay.sh'),
                   'commands': [' '.join(c) for c in r['cmds']]}, open(rp, 'w'), indent=1)
        r['status'] = 'violation'
        r['replay'] = rp
        r['confirmed'] = confirmed
        r['note'] += ' %s [%s]' % (p['description'], p['property'])
        return r
    except CheckError as ex:
        r['status'] = 'error'
        r['note'] += ' ' + str(ex)
        return r
    finally:
        if os.environ.get('VP_KEEP'):
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def load_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for a in sys.argv[2:]:
        if a.startswith('--tier='):
            tier = a[7:]
        if a.startswith('--unit='):
            only = a[7:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + (820 if tier == 'quick' else 3500)
    units = []
    for f in sorted(glob.glob(os.path.join(VERIF, 'units', prop, '*.c'))):
        u = load_unit(f)
        u['property'] = prop
        for v in expand(u):
            if v.get('tier', 'quick') == 'thorough' and tier != 'thorough':
                continue
            if only and not v['id'].startswith(only):
                continue
            if tier == 'thorough' and v.get('thorough'):
                v = dict(v)
                t = v['thorough']
                v['defines'] = v.get('defines', []) + t.get('defines', [])
                for k in t:
                    if k != 'defines':
                        v[k] = t[k]
            units.append(v)
    if not units:
        print('no units for', prop)
        return 2
    units.sort(key=lambda u: -u.get('cost', 10))
    jobs = int(os.environ.get('VP_JOBS', '8'))
    with ThreadPoolExecutor(jobs) as ex:
        results = list(ex.map(lambda u: run_unit(u, tier, deadline), units))
    results.sort(key=lambda r: r['unit'])
    viol = [r for r in results if r['status'] == 'violation']
    errs = [r for r in results if r['status'] == 'error']
    known = [k for k in load_findings() if k.get('property') == prop and k.get('state') == 'open']
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r in results:
        print('%-34s %-9s %-9s obligations %4d discharged %4d  %7.1fs %s' % (
            r['unit'], r['kind'], r['status'], r['obligations'], r['discharged'], r['solver_s'], r['note'][:300]))
    proofs = [r for r in results if r['kind'] == 'proof' and r['status'] != 'skipped']
    bnd = [r for r in results if r['kind'] == 'bounded' and r['status'] != 'skipped']
    meta = {}
    mf = os.path.join(VERIF, 'MANIFEST.json')
    if os.path.exists(mf):
        for c in json.load(open(mf)).get('checks', []):
            if c['property'] == prop:
                meta = c
    level = meta.get('level', 'proof' if proofs else 'other')
    trusted = []
    assum = []
    for u in units:
        for x in u.get('trusted', []):
            if x not in trusted:
                trusted.append(x)
        for x in u.get('assumes', []):
            if x not in assum:
                assum.append(x)
    cov = {
        'obligations': sum(r['obligations'] for r in proofs),
        'discharged': sum(r['discharged'] for r in proofs),
        'bounded_obligations': sum(r['obligations'] for r in bnd),
        'bounded_discharged': sum(r['discharged'] for r in bnd),
        'functions_under_contract': sorted({f for r in results for f in r['functions'] if r['status'] == 'ok'}),
        'checker_cmd': 'goto-cc + goto-instrument --dfcc + cbmc 6.11 (%s); see units[].cmds' %
                       ('SAT: MiniSat; cvc5 where a unit says so'),
        'solver_s': round(sum(r['solver_s'] for r in results), 1),
        'trusted_base': ['cbmc 6.11 / goto-instrument (contract instrumentation, C semantics, SAT back end)',
                         'CBMC models of libc string/memory functions'] + trusted,
        'units': [{k: r[k] for k in ('unit', 'kind', 'status', 'functions', 'obligations', 'discharged', 'solver_s')} |
                  {'note': r['note'][:400], 'reachability_probes': r.get('reach', 0),
                   'bound': next((u.get('bound', '') for u in units if u['id'] == r['unit']), ''),
                   'cmds': [' '.join(c) for c in r['cmds']]} for r in results],
    }
    if level != 'proof':
        cov['explanation'] = ('Contract enforcement on the real code; obligations under "bounded_*" come from units '
                              'whose inputs or loop counts are bounded as stated in units[].bound and are not counted as proved.')
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assum, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if viol:
        viol.sort(key=lambda r: not r['confirmed'])
        r = viol[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, r['replay'], '' if r['confirmed'] else ' no-failing-input-found'))
        return 1
    if errs:
        print('CHECK-ERROR property=%s: %s: %s' % (prop, errs[0]['unit'], errs[0]['note']))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
