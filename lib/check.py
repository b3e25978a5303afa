"""Decides one property: builds the current tree, runs the symbolic engine on every entry of the property's harness, replays
counterexamples against the natively compiled real code, validates sampled paths the same way, writes the evidence file."""
import sys, os, json, time, subprocess, shutil, tempfile, re, glob
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
VERIF = build.VERIF
HARD = 800

def parse_entry(s):
    p = s.split(); d = {'name': p[0], 'time': 120.0, 'ttime': 1500.0, 'tier': 1, 'reach': [], 'instr': 30000000, 'partial': 0, 'depth': 1500}
    for kv in p[1:]:
        k, v = kv.split('=', 1)
        if k == 'reach': d['reach'] = v.split(',')
        elif k in ('time', 'ttime'): d[k] = float(v)
        else: d[k] = int(v)
    return d

def native(exe, entry, case, timeout=20):
    """run one case against the real code; returns (kind, label, lines). kind: ok, fail, assumption, error"""
    d = tempfile.mkdtemp(prefix='jomsym-')
    try:
        out = os.path.join(d, 'out.txt'); sc = os.path.join(d, 'w'); os.mkdir(sc)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:symbolize=1', LC_ALL='C.UTF-8', LANG='C.UTF-8', QT_NO_GLIB='1',
                   TMP=sc, TEMP=sc, HOME=sc)
        try:
            r = subprocess.run([exe, entry, case, out], cwd=sc, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            rc = r.returncode; err = r.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired:
            rc = 'timeout'; err = ''
        lines = []
        if os.path.exists(out):
            with open(out, errors='replace') as f: lines = f.read().splitlines()
        lab = [l[7:] for l in lines if l.startswith('ASSERT ')]
        if rc == 0: return 'ok', '', lines
        if rc == 10: return 'fail', lab[-1] if lab else '?', lines
        if rc == 11: return 'assumption', lines[-1] if lines else '', lines
        if rc == 'timeout': return 'fail', 'hang', lines
        if rc == 99 or (isinstance(rc, int) and rc < 0):
            m = re.search(r'ERROR: AddressSanitizer: (\S+)', err)
            fr = re.findall(r'#\d+ 0x\w+ in (\S+)', err)
            return 'fail', 'crash: %s%s' % (m.group(1) if m else 'signal %s' % rc, ' in ' + ' <- '.join(fr[:4]) if fr else ''), lines
        return 'error', 'native exit %s %s %s' % (rc, lines[-1] if lines else '', err[-300:]), lines
    finally:
        shutil.rmtree(d, ignore_errors=True)

def obs(lines): return [l for l in lines if l.startswith('o ')]

def load_known():
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p): return {}
    return {k['id']: k for k in json.load(open(p))['findings'] if k.get('status') == 'known'}

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); T = 2 if tier == 'thorough' else 1
    t0 = time.time(); known = load_known()
    harness = '%s/harness/%s.cpp' % (VERIF, pid)
    d = build.directives(harness)
    try:
        eng = build.engine(); bc, nat = build.build_pair(harness, T)
    except build.BuildError as e:
        print('ERROR property=%s cannot build: %s' % (pid, e)); return 2
    tb = time.time() - t0
    entries = [parse_entry(e) for e in d['entries']]
    entries = [e for e in entries if e['tier'] <= T and (not only or e['name'] in only)]
    rdir = '%s/evidence/replay/%s' % (VERIF, pid)
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='jomsym-' + pid + '-')
    viols, knowns, problems, undecided, functions, per = [], {}, [], [], set(), []
    tot = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, instrs=0); validated = 0; samples = []; incomplete = []
    checked = 0
    try:
        with ThreadPoolExecutor(max_workers=8) as ex:
            for e in entries:
                out = '%s/%s' % (work, e['name']); os.mkdir(out)
                budget = e['time'] if T == 1 else e['ttime']
                if T == 1: budget = min(budget, max(5, HARD - (time.time() - t0)))
                r = subprocess.run([eng, bc, '--entry', e['name'], '--out', out, '--time', str(budget), '--procs', os.environ.get('JOMSYM_PROCS', '8'), '--seed', str(seed),
                                    '--max-instr', str(e['instr']), '--max-depth', str(e['depth']), '--max-cases', '64'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                rp = out + '/result.json'
                if r.returncode or not os.path.exists(rp):
                    problems.append('%s: engine failed (%s) %s' % (e['name'], r.returncode, r.stdout.decode(errors='replace')[-400:])); continue
                res = json.load(open(rp))
                for k in tot: tot[k] += res.get(k, 0)
                functions |= set(res['functions']); checked += sum(a['checked'] for a in res['asserts'].values())
                vf = sorted(glob.glob(out + '/viol.*'), key=lambda p: int(p.rsplit('.', 1)[1]))
                # at most a few replays per label
                bylab = {}
                for p in vf:
                    lab = open(p).readline()[8:].strip(); bylab.setdefault(lab, []).append(p)
                jobs = [(lab, p) for lab, ps in bylab.items() for p in ps[:6]]
                runs = list(ex.map(lambda j: native(nat, e['name'], j[1]), jobs))
                conf = {}
                for (lab, p), (kind, nlab, lines) in zip(jobs, runs):
                    if kind == 'fail':
                        if nlab.startswith('known:'):
                            kid = nlab[6:]
                            if kid in known and known[kid]['property'] == pid: knowns.setdefault(kid, p); conf[lab] = True; continue
                        n = len(viols); dst = '%s/%s-%d.case' % (rdir, e['name'], n)
                        txt = open(p).read()
                        with open(dst, 'w') as f: f.write('# property %s\n# entry %s\n# native: %s\n# rerun: %s/check --replay %s\n%s' % (pid, e['name'], nlab, VERIF, dst, txt))
                        viols.append((e['name'], lab, nlab, dst)); conf[lab] = True
                    else: conf.setdefault(lab, False)
                for lab, ok in conf.items():
                    if not ok: undecided.append('%s: counterexample for "%s" did not reproduce natively (%s)' % (e['name'], lab, [r[:2] for j, r in zip(jobs, runs) if j[0] == lab][:2]))
                # validation of sampled paths
                cf = sorted(glob.glob(out + '/case.*'))
                cr = list(ex.map(lambda p: native(nat, e['name'], p), cf)); nv = 0
                for p, (kind, nlab, lines) in zip(cf, cr):
                    want = obs(open(p).read().splitlines())
                    if kind == 'fail' and nlab.startswith('known:'): continue
                    if kind == 'fail' and not bylab:
                        dst = '%s/%s-%d.case' % (rdir, e['name'], len(viols))
                        with open(dst, 'w') as f: f.write('# property %s\n# entry %s\n# native: %s\n%s' % (pid, e['name'], nlab, open(p).read()))
                        viols.append((e['name'], 'sampled path', nlab, dst))
                    elif kind != 'ok' or obs(lines) != want:
                        dst = '%s/%s-mismatch.case' % (rdir, e['name']); shutil.copy(p, dst)
                        if nv >= 0: undecided.append('%s: model and real code disagree on a sampled path (%s %s) %s' % (e['name'], kind, nlab, dst))
                        df = [(a, b) for a, b in zip(want, obs(lines)) if a != b][:1]
                        if df and os.environ.get('JOMSYM_V'): print('  model %s\n  real  %s' % df[0])
                    else: nv += 1
                validated += nv
                if cf and len(samples) < 6: samples.append({'entry': e['name'], 'path': [l for l in open(cf[0]).read().splitlines()][:40]})
                for m in res['inconclusive']: undecided.append('%s: %s' % (e['name'], m))
                if res['unknown']: undecided.append('%s: %d solver queries undecided' % (e['name'], res['unknown']))
                if res['timeout']:
                    if T == 2 or e['partial']: incomplete.append('%s: %d paths explored, %d pending when the time budget of %ds ended' % (e['name'], res['paths'], res['pending'], budget))
                    elif not viols: undecided.append('%s: not finished within %ds (%d paths, %d pending)' % (e['name'], budget, res['paths'], res['pending']))
                if not vf and not res['timeout'] and not res['inconclusive']:
                    for l in e['reach']:
                        if not res['reach'].get(l): problems.append('%s: vacuous, "%s" never reached' % (e['name'], l))
                    if not res['paths']: problems.append('%s: no path completed' % e['name'])
                per.append({'entry': e['name'], 'paths': res['paths'], 'queries': res['queries'], 'unsat': res['unsat'], 'sat': res['sat'], 'solver_s': res['solver_s'], 'wall_s': res['wall_s'],
                            'complete': not res['timeout'], 'asserts': res['asserts'], 'reach': res['reach'], 'validated': nv, 'violating_labels': sorted(bylab)})
                if os.environ.get('JOMSYM_V'): print('%-28s paths %-8d queries %-8d solver %.1fs wall %.1fs viol %d pending %d' % (e['name'], res['paths'], res['queries'], res['solver_s'], res['wall_s'], len(vf), res['pending']))
                if viols and T == 1 and time.time() - t0 > 300: break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    fns = demangle(sorted(functions))
    jomf = [f for f in fns if 'NMakeFile::' in f]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(viols),
          'coverage': {'states': tot['paths'], 'transitions': tot['instrs'], 'traces_validated_against_impl': validated, 'exhaustive': not incomplete and not problems and not undecided and not viols,
                       'samples': samples, 'forks': tot['forks'], 'assertions_evaluated': checked, 'queries_discharged': tot['queries'], 'queries_unsat': tot['unsat'], 'queries_sat': tot['sat'], 'queries_unknown': tot['unknown'],
                       'solver_time_s': round(tot['solver_s'], 2), 'solver': 'z3 4.8.12 (C API), SMT-LIB bit-vectors', 'functions_encoded': jomf, 'functions_encoded_total': len(fns),
                       'bounds': d.get('bound', []), 'outside_bounds': d.get('outside', []), 'entries': per, 'incomplete': incomplete, 'build_s': round(tb, 1),
                       'known_findings_seen': sorted(knowns), 'problems': problems, 'undecided': undecided,
                       'meaning': 'states = execution paths of the real code decided (each stands for all inputs satisfying its path condition); transitions = IR instructions executed symbolically'},
          'assumptions': d.get('assume', []) + ['QtCore, libc and Win32 behave as in /verif/model (validated on sampled paths against the real QtCore on every run)']}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, pid), 'w') as f: json.dump(ev, f, indent=1)
    for kid, p in sorted(knowns.items()): print('KNOWN-FINDING: property=%s %s: %s' % (pid, kid, known[kid]['what']))
    for en, lab, nlab, dst in viols: print('  %s: engine: %s / real code: %s' % (en, lab, nlab))
    for p in problems[:12]: print('  NOTE %s' % p)
    for p in undecided[:12]: print('  UNDECIDED %s' % p)
    for p in incomplete: print('  INCOMPLETE %s' % p)
    if viols:
        print('VIOLATION property=%s replay=%s' % (pid, viols[0][3])); return 1
    if undecided and os.environ.get('JOMSYM_STRICT'): problems.append('undecided parts')
    if problems:
        print('INCONCLUSIVE property=%s' % pid); return 2
    print('OK property=%s tier=%s paths=%d queries=%d validated=%d wall=%.0fs' % (pid, tier, tot['paths'], tot['queries'], validated, time.time() - t0))
    return 0

def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
    return r.stdout.decode().splitlines()

def replay(path):
    pid = entry = None
    for l in open(path):
        if l.startswith('# property '): pid = l.split()[2]
        if l.startswith('# entry '): entry = l.split()[2]
    bc, nat = build.build_pair('%s/harness/%s.cpp' % (VERIF, pid), 1, symbolic=False)
    k, lab, lines = native(nat, entry, path)
    print('\n'.join(lines)); print(k, lab); return 1 if k == 'fail' else 0

def setup():
    build.engine()
    for h in sorted(glob.glob(VERIF + '/harness/C*.cpp'))[:1]: build.build_pair(h, 1)
    print('ok'); return 0

if __name__ == '__main__':
    if sys.argv[1] == '--setup': sys.exit(setup())
    if sys.argv[1] == '--replay': sys.exit(replay(os.path.abspath(sys.argv[2])))
    sys.exit(main())
