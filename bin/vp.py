#!/usr/bin/env python3
"""Contract-verification driver.

usage: vp.py check <property> [--unit NAME] [--keep] [--verbose]
       vp.py list

For every unit of the property:
  1. goto-cc compiles the unit, which #includes the real /repo sources;
  2. goto-instrument --dfcc enforces the contract(s) of the function(s) under
     verification (frame conditions included) and replaces the calls listed in
     the unit by the callee's contract;
  3. cbmc has to discharge every generated obligation, unwinding assertions
     included; VP_COVER goals have to be reachable (vacuity guard);
  4. a failed obligation is re-run with a trace, the input record is taken
     from the trace and replayed natively (gcc + ASan, same file, same
     predicates) on the real code.
"""
import concurrent.futures, hashlib, json, os, re, resource, shutil, signal
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'bin'))

NGX = '/opt/vp/build/nginx'
if not os.path.isfile(NGX + '/src/core/ngx_core.h'):
    NGX = '/usr/share/nginx'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEADLINE = time.time() + (840 if TIER == 'quick' else 6 * 3600)

MODULES = ['nginx-common', 'nginx-kmp-in-module', 'nginx-kmp-out-module',
           'nginx-rtmp-module', 'nginx-rtmp-kmp-module', 'nginx-mpegts-module',
           'nginx-mpegts-kmp-module', 'nginx-kmp-cc-module',
           'nginx-kmp-rtmp-module', 'nginx-live-module', 'nginx-pckg-module']


def include_flags():
    s = NGX + '/src'
    inc = [VERIF + '/lib', VERIF + '/units', VERIF + '/lib/objs',
           s + '/core', s + '/event', s + '/event/modules', s + '/os/unix',
           s + '/http', s + '/http/modules', s + '/stream', s + '/http/v2']
    for m in MODULES:
        d = '%s/%s/src' % (REPO, m)
        inc.append(d)
    inc += [REPO + '/nginx-live-module/src/persist',
            REPO + '/nginx-live-module/src/http',
            REPO + '/nginx-live-module/src/stream', REPO,
            REPO + '/nginx-pckg-module/src/media/mpegts',
            REPO + '/nginx-pckg-module/src/media']
    return ['-I' + i for i in inc]


def limits(mem_gb):
    def f():
        os.setsid()
        n = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (n, n))
    return f


def run(cmd, timeout, mem_gb=6, cwd=None, env=None):
    """-> (rc or None on timeout, stdout, stderr)"""
    timeout = max(5, min(timeout, DEADLINE - time.time()))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=limits(mem_gb) if mem_gb else os.setsid,
                         cwd=cwd, env=env, text=True, errors='replace')
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = 'undecided'   # proved | bounded | violated | undecided
        self.reason = ''
        self.obligations = 0
        self.discharged = 0
        self.contract_obligations = 0
        self.covers = 0
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.failed = []            # [(id, description, text)]
        self.replay = None
        self.confirmed = False
        self.cmd = ''
        self.nobody = []


def src_line(loc):
    try:
        f = loc.get('file', '')
        if not os.path.isabs(f):
            f = os.path.join(loc.get('workingDirectory', ''), f)
        n = int(loc['line'])
        with open(f, errors='replace') as fh:
            return fh.read().split('\n')[n - 1].strip()
    except Exception:
        return ''


def c_value(v):
    if v is None:
        return '0'
    n = v.get('name')
    if n == 'struct':
        return '{' + ', '.join(c_value(m.get('value'))
                               for m in v['members']
                               if not m['name'].startswith('$pad')) + '}'
    if n == 'array':
        return '{' + ', '.join('[%d] = %s' % (e['index'], c_value(e['value']))
                               for e in v['elements']) + '}'
    if n == 'union':
        return '{0}'
    if n in ('integer', 'pointer', 'boolean'):
        b = v.get('binary')
        if b and re.fullmatch('[01]+', b):
            x = int(b, 2)
            t = v.get('type', '')
            w = v.get('width', len(b))
            if b[0] == '1' and not t.startswith('unsigned') and \
                    t not in ('__CPROVER_size_t',) and n == 'integer' and \
                    'unsigned' not in t:
                # print as hex with a cast free form; narrowing is harmless
                return '(%s)0x%xULL' % ('long long', x - (1 << w) & (1 << 64) - 1)
            return '0x%xULL' % x
        d = v.get('data', '0')
        if d == 'TRUE':
            return '1'
        return re.sub('[ulUL]+$', '', d) or '0'
    return '0'


def py_value(v):
    """compact json form of the input for the replay file"""
    n = v.get('name') if v else None
    if n == 'struct':
        return {m['name']: py_value(m.get('value')) for m in v['members']
                if not m['name'].startswith('$pad')}
    if n == 'array':
        return [py_value(e['value']) for e in v['elements']]
    if v is None:
        return None
    return re.sub('(?<=[0-9])[ulUL]+$', '', str(v.get('data')))


def parse_cbmc(out):
    try:
        d = json.loads(out)
    except Exception:
        # truncated stream: no verdict
        return None, 'cbmc output not parsable: ' + out[-300:]
    res, status, msgs = None, None, []
    for e in d:
        if 'result' in e:
            res = e['result']
        if 'cProverStatus' in e:
            status = e['cProverStatus']
        if 'messageText' in e:
            msgs.append(e['messageText'])
    return (res, status, msgs), ''


CHECK_FLAGS_OFF = ['--no-signed-overflow-check', '--no-undefined-shift-check',
                   '--no-pointer-primitive-check']


def rewritten(u, work):
    """storage-size constants replaced mechanically (stated in the unit's
    bound); the rewritten copy shadows the original through -I order"""
    d = os.path.join(work, 'rw_' + u['name'])
    os.makedirs(d, exist_ok=True)
    for path, subs in u.get('rewrite', []):
        with open(os.path.join(REPO, path)) as f:
            s = f.read()
        for pat, rep, *optional in subs:
            s, n = re.subn(pat, rep, s)
            if n == 0 and not optional:
                return None
        with open(os.path.join(d, os.path.basename(path)), 'w') as f:
            f.write(s)
    return d


def build_unit(u, work):
    src = os.path.join(VERIF, 'units', u['src'])
    gb = os.path.join(work, u['name'] + '.gb')
    defs = ['-D' + d for d in u.get('defs', [])]
    if not u.get('enforce'):
        defs.append('-DVP_PLAIN')
    if u.get('rewrite'):
        d = rewritten(u, work)
        if d is None:
            return None, 'compile', 'rewrite pattern not found'
        defs.append('-I' + d)
    cmd = ['goto-cc', '-DVP_CBMC', '--function', u['harness'], src, '-o', gb] \
        + defs + include_flags()
    rc, out, err = run(cmd, 120)
    if rc != 0:
        return None, 'compile', (out + err)[-3000:]
    return gb, '', ''


def instrument(u, gb, work, drop_missing=True):
    dst = os.path.join(work, u['name'] + '.c.gb')
    enforce = u.get('enforce', [])
    replace = list(u.get('replace', []))
    if not enforce and not replace and not u.get('loop_contracts'):
        return gb, '', 'none'
    while True:
        cmd = ['goto-instrument', '--dfcc', u['harness']]
        for e in enforce:
            cmd += ['--enforce-contract', e]
        for r in replace:
            cmd += ['--replace-call-with-contract', r]
        if u.get('loop_contracts'):
            cmd += ['--apply-loop-contracts']
            if u['loop_contracts'] is not True:
                cmd += ['--loop-contracts-file',
                        os.path.join(VERIF, 'units', u['loop_contracts'])]
        cmd += [gb, dst]
        rc, out, err = run(cmd, 300)
        if rc == 0:
            return dst, '', ' '.join(cmd)
        txt = out + err
        m = re.search(r"[Ff]unction to replace '([^']+)'", txt) or \
            re.search(r"'([A-Za-z0-9_]+)' (?:either )?not found", txt)
        if m:
            hit = [r for r in replace if r.split('/')[0] == m.group(1)
                   or r.split('/')[-1] == m.group(1)]
            if hit:
                replace.remove(hit[0])
                continue
        return None, txt[-3000:], ' '.join(cmd)


def cbmc_cmd(u, gb, extra=()):
    cmd = ['cbmc', gb, '--json-ui', '--no-malloc-may-fail',
           '--object-bits', str(u.get('object_bits', 10))]
    for f in CHECK_FLAGS_OFF:
        if f not in u.get('keep_checks', []):
            cmd.append(f)
    cmd += u.get('cbmc', [])
    if u.get('unwind'):
        cmd += ['--unwind', str(u['unwind'])]
    if u.get('unwindset'):
        cmd += ['--unwindset', ','.join(u['unwindset'])]
    if u.get('solver') == 'cvc5':
        cmd += ['--cvc5']
    elif u.get('solver') == 'z3':
        cmd += ['--z3']
    elif u.get('solver') == 'cadical':
        cmd += ['--sat-solver', 'cadical']
    return cmd + list(extra)


def classify(r):
    d = r.get('description', '')
    if d.startswith('VP_COVER ') or d.startswith('assertion VP_COVER '):
        return 'cover'
    if 'unwinding assertion' in d or 'recursion unwinding' in d:
        return 'unwind'
    if d.startswith('pointer relation:'):
        # comparing NULL (or stale) pointers: not a property of any user
        return 'ignored'
    if 'undefined function should be unreachable' in d or \
            'no body for' in d:
        return 'nobody'
    return 'obligation'


def is_contract_obligation(r):
    pid = r.get('property', '')
    d = r.get('description', '')
    return ('.postcondition.' in pid or '.precondition.' in pid
            or '.assigns.' in pid or d.startswith('lemma ') or d.startswith('ensures ')
            or 'Check ensures' in d or 'loop invariant' in d.lower()
            or 'Check that' in d)


def native_replay(u, inp, work, tag=''):
    d = tempfile.mkdtemp(prefix='rp', dir=work)
    with open(d + '/vp_input.inc', 'w') as f:
        f.write('#define VP_INPUT_VALUE %s\n' % c_value(inp))
    with open(d + '/main.c', 'w') as f:
        f.write('#include "%s"\n'
                'int main(void) { %s(); return vp_failed ? 1 : 0; }\n'
                % (os.path.join(VERIF, 'units', u['src']), u['harness']))
    defs = ['-D' + x for x in u.get('defs', [])]
    if u.get('rewrite'):
        defs.append('-I' + rewritten(u, work))
    exe = d + '/replay'
    cmd = ['gcc', '-g', '-O0', '-w', '-DVP_REPLAY', '-DVP_CBMC_NO',
           '-fsanitize=address,bounds,integer-divide-by-zero,null',
           '-fno-sanitize-recover=bounds,integer-divide-by-zero,null',
           '-I' + d, d + '/main.c', '-o', exe, '-lm'] + defs + include_flags() \
        + u.get('ldflags', [])
    rc, out, err = run(cmd, 120, mem_gb=None)
    if rc != 0:
        return 'build-failed', (out + err)[-3000:]
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
    rc, out, err = run([exe], 30, mem_gb=None, env=env, cwd=d)
    txt = (out + err)[-4000:]
    shutil.rmtree(d, ignore_errors=True)
    if rc is None:
        return 'hang', 'the real code did not terminate on this input\n' + txt
    if rc == 77:
        return 'infeasible', txt
    if rc == 0:
        return 'ok', txt
    return 'fail', txt


def find_input(trace):
    best = None
    for s in trace:
        if s.get('stepType') != 'assignment':
            continue
        if s.get('lhs') in ('vp_nd', 'in') and \
                s.get('value', {}).get('name') == 'struct':
            best = s['value']
            if s['lhs'] == 'vp_nd':
                break
    return best


def verify_unit(u, work, verbose=False):
    r = Result(u)
    t0 = time.time()
    try:
        _verify_unit(u, work, r, verbose)
    except Exception as ex:        # a tool problem is never a violation
        r.status = 'undecided'
        r.reason = 'driver error: %r' % ex
    r.wall_s = time.time() - t0
    return r


def _verify_unit(u, work, r, verbose):
    gb, stage, msg = build_unit(u, work)
    if gb is None:
        r.reason = 'unit does not compile against the current source'
        r.detail = msg
        return
    cgb, msg, icmd = instrument(u, gb, work)
    if cgb is None:
        r.reason = 'contracts cannot be attached to the current source'
        r.detail = msg
        return
    timeout = u.get('timeout', 400)
    cmd = cbmc_cmd(u, cgb)
    r.cmd = (icmd + ' && ' + ' '.join(cmd)).replace(work, '$WORK')
    t = time.time()
    rc, out, err = run(cmd, timeout, mem_gb=u.get('mem_gb', 8))
    r.solver_s = time.time() - t
    if rc is None:
        r.reason = 'cbmc timed out after %.0f s' % r.solver_s
        return
    p, msg = parse_cbmc(out)
    if p is None or p[0] is None:
        r.reason = 'cbmc gave no verdict (rc %s)' % rc
        r.detail = (msg or '') + err[-500:] + \
            ('\n'.join(p[2][-5:]) if p else '')
        return
    res = p[0]
    bad, unwind, nobody, uncovered = [], [], [], []
    for x in res:
        k = classify(x)
        ok = x['status'] == 'SUCCESS'
        if k == 'cover':
            r.covers += 1
            if x['status'] != 'FAILURE':
                uncovered.append(x)
            continue
        if k == 'ignored':
            continue
        if k == 'nobody':
            if not ok:
                nobody.append(x)
            continue
        r.obligations += 1
        if is_contract_obligation(x):
            r.contract_obligations += 1
        if ok:
            r.discharged += 1
        elif k == 'unwind':
            unwind.append(x)
        elif x['status'] == 'FAILURE':
            bad.append(x)
    r.nobody = [x.get('sourceLocation', {}).get('function', '?') for x in nobody]
    if nobody:
        r.reason = 'calls to functions without body: %s' % r.nobody
        return
    if r.contract_obligations == 0:
        r.reason = 'vacuous: no contract obligation was generated'
        return
    if bad:
        report_failure(u, cgb, work, bad, unwind, r, verbose)
        return
    if unwind:
        r.reason = 'loop bound too small for: %s' % ', '.join(
            sorted(set(x['property'] for x in unwind)))
        return
    if uncovered:
        r.reason = 'vacuous: unreachable cover goal(s): %s' % '; '.join(
            x['description'] for x in uncovered)
        return
    if r.discharged != r.obligations:
        r.reason = '%d obligations without verdict' % (r.obligations - r.discharged)
        return
    r.status = 'bounded' if u.get('bounded') else 'proved'


def report_failure(u, cgb, work, bad, unwind, r, verbose):
    def prio(x):
        pid = x['property']
        if 'postcondition' in pid or x.get('description', '').startswith(('lemma', 'ensures')):
            return 0
        if 'pointer_dereference' in pid or 'array_bounds' in pid:
            return 1
        return 2
    bad.sort(key=prio)
    r.failed = [(x['property'], x['description'],
                 src_line(x.get('sourceLocation', {}))) for x in bad]
    attempts = []
    confirmed = None
    tried = set()
    for x in bad[:4]:
        cmd = cbmc_cmd(u, cgb, ['--trace', '--property', x['property']])
        rc, out, err = run(cmd, u.get('timeout', 400), mem_gb=u.get('mem_gb', 8))
        if rc is None:
            attempts.append((x['property'], 'trace timed out', ''))
            continue
        p, msg = parse_cbmc(out)
        if p is None or p[0] is None:
            continue
        tr = [y for y in p[0] if y['property'] == x['property'] and 'trace' in y]
        if not tr:
            continue
        inp = find_input(tr[0]['trace'])
        if inp is None:
            attempts.append((x['property'], 'no input record in trace', ''))
            continue
        verdict, txt = native_replay(u, inp, work)
        attempts.append((x['property'], verdict, txt))
        if verdict in ('fail', 'hang'):
            confirmed = dict(property=x['property'],
                             description=x['description'],
                             clause=src_line(x.get('sourceLocation', {})),
                             location=x.get('sourceLocation', {}),
                             input=py_value(inp), c_input=c_value(inp),
                             native_result=verdict, native_output=txt)
            break
    if unwind and not confirmed:
        r.reason = ('loop bound too small (%s); obligations failing under the '
                    'truncated unwinding are not trusted'
                    % ', '.join(x['property'] for x in unwind[:3]))
        return
    r.status = 'violated'
    r.confirmed = confirmed is not None
    r.replay = dict(unit=u['name'], harness=u['harness'],
                    source='units/' + u['src'],
                    functions=u.get('functions', []),
                    failed_obligations=[dict(id=a, description=b, clause=c)
                                        for a, b, c in r.failed],
                    counterexample=confirmed,
                    replay_attempts=[dict(obligation=a, verdict=b, output=c[-1500:])
                                     for a, b, c in attempts])


def known_findings():
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                m = re.match(r'KNOWN-FINDING: property=(\S+) unit=(\S+) '
                             r'obligation=(\S+) (.*)', line)
                if m:
                    out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


def check(prop, only=None, keep=False, verbose=False):
    import units
    t0 = time.time()
    P = units.PROPERTIES[prop]
    us = [u for u in units.UNITS if u['prop'] == prop
          and (not only or u['name'] == only)
          and (TIER == 'thorough' or not u.get('thorough_only'))]
    if TIER == 'thorough':
        us = [dict(u, **u.get('thorough', {})) for u in us]
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        us.sort(key=lambda u: -u.get('cost', 1))
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            rs = list(ex.map(lambda u: verify_unit(u, work, verbose), us))
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work dir', work)
    return finish(prop, P, rs, t0, verbose)


def finish(prop, P, rs, t0, verbose):
    from collections import Counter
    import units
    st = Counter(r.status for r in rs)
    rc = 0
    known = [k for k in known_findings() if k[0] == prop]
    lines = []
    nviol = 0
    for r in rs:
        u = r.unit
        print('%-10s %-34s obligations %d/%d (contract %d, covers %d) %.1fs %s'
              % (r.status, u['name'], r.discharged, r.obligations,
                 r.contract_obligations, r.covers, r.wall_s, r.reason))
        if verbose and getattr(r, 'detail', ''):
            print(r.detail)
        for f in r.failed[:8 if not verbose else 60]:
            print('    failed %s: %s | %s' % f)
        if r.status != 'violated':
            continue
        hits = [k for k in known if k[1] == u['name']]
        if hits and all(any(re.fullmatch(k[2], f[0]) for k in hits)
                        for f in r.failed):
            for k in hits:
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
            continue
        nviol += 1
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%s.json' % (prop, u['name']))
        with open(path, 'w') as f:
            json.dump(dict(r.replay, property=prop, verifier_command=r.cmd),
                      f, indent=1)
        if r.confirmed:
            print('    replayed on the real code: %s' %
                  r.replay['counterexample']['native_output'].strip()
                  .split('\n')[0][:200])
        elif verbose:
            print('    replay attempts: %s' % r.replay['replay_attempts'])
        lines.append('VIOLATION property=%s replay=%s%s' % (
            prop, path, '' if r.confirmed else ' no-failing-input-found'))
        rc = 1
    decided = [r for r in rs if r.status in ('proved', 'bounded', 'violated')]
    if not decided:
        rc = 2
    proved = [r for r in rs if r.status == 'proved']
    bounded = [r for r in rs if r.status == 'bounded']
    fn_proved = sorted(set(f for r in proved for f in r.unit.get('functions', [])))
    fn_bounded = sorted(set(f for r in bounded for f in r.unit.get('functions', []))
                        - set(fn_proved))
    level = 'other' if any(u.get('bounded') for u in units.UNITS
                           if u['prop'] == prop) else 'proof'
    cov = dict(
        obligations=sum(r.obligations for r in rs),
        discharged=sum(r.discharged for r in rs),
        contract_obligations=sum(r.contract_obligations for r in rs),
        obligations_proved_unbounded=sum(r.discharged for r in proved),
        obligations_bounded_only=sum(r.discharged for r in bounded),
        cover_goals_reached=sum(r.covers for r in rs if r.status in ('proved', 'bounded')),
        back_end='cbmc 6.11 code contracts (goto-instrument --dfcc), MiniSat/CaDiCaL/cvc5 as listed per unit',
        checker_cmd='; '.join(r.cmd for r in rs if r.cmd)[:6000],
        solver_s=round(sum(r.solver_s for r in rs), 2),
        functions_under_contract=fn_proved,
        functions_bounded_only=fn_bounded,
        units=[dict(unit=r.unit['name'], status=r.status, reason=r.reason,
                    bound=r.unit.get('bounded') or None,
                    obligations=r.obligations, discharged=r.discharged,
                    contract_obligations=r.contract_obligations,
                    solver=r.unit.get('solver', 'minisat'),
                    solver_s=round(r.solver_s, 2),
                    functions=r.unit.get('functions', []),
                    failed=[list(f) for f in r.failed[:20]]) for r in rs],
        trusted_base=P.get('trusted', []) + units.COMMON_TRUSTED,
        explanation='Every obligation generated by goto-instrument from the '
        'current /repo source for the units below; a unit with a "bound" is a '
        'bounded stand-in and is not counted as proved.',
    )
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov,
              assumptions=P.get('assumptions', []) + units.COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d proved, %d bounded, %d violated, %d undecided; %d/%d obligations; %.1fs'
          % (prop, st['proved'], st['bounded'], st['violated'], st['undecided'],
             cov['discharged'], cov['obligations'], time.time() - t0))
    for ln in lines:
        print(ln)
    return rc


def main():
    a = sys.argv[1:]
    if a and a[0] == 'list':
        import units
        for p in units.PROPERTIES:
            print(p, [u['name'] for u in units.UNITS if u['prop'] == p])
        return 0
    if len(a) >= 2 and a[0] == 'check':
        only = a[a.index('--unit') + 1] if '--unit' in a else None
        return check(a[1], only, '--keep' in a, '--verbose' in a)
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
