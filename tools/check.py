#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for the working tree of /repo.

1. extract  the crate's sources + contracts/*.vc + spec/*.rs -> one Verus file
2. verify   Verus discharges the obligations of the property's modules
3. search   a concrete search on the compiled crate: always a short bounded run, and a
            longer one for a failing input when an obligation failed
"""
import fnmatch
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract  # noqa: E402
from rsx import Lost  # noqa: E402

REPO = os.environ.get('REPO', '/repo')
VERUS = shutil.which('verus') or '/opt/veriftools/bin/verus'
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class Undecidable(Exception):
    pass


# ------------------------------------------------------------------ verus

def regions(text):
    """line -> item: bodies between //@FN and //@END, headers above them, and the functions of the spec modules"""
    body, head, spec = {}, {}, {}
    cur, last = None, 0
    lines = text.split('\n')
    for n, ln in enumerate(lines, 1):
        for m in re.finditer(r'//@(FN|END) (\S+)', ln):
            if m.group(1) == 'FN':
                cur = m.group(2)
                k = n
                while k > last + 1 and not re.search(r'\bfn\s+\w+', lines[k - 1]):
                    k -= 1
                for j in range(k, n):
                    head[j] = cur
            else:
                body[n] = m.group(2)
                cur = None
                last = n
        if cur:
            body[n] = cur
    name, mod = None, 'vspec'
    start = next((i for i, l in enumerate(lines, 1) if l.startswith('pub mod vspec')), len(lines))
    for n in range(start, len(lines) + 1):
        m = re.match(r'\s*(?:pub\s+)?(?:broadcast\s+|open\s+|closed\s+|uninterp\s+)*(?:proof\s+|spec\s+|exec\s+)?fn\s+(\w+)', lines[n - 1])
        if lines[n - 1].startswith('pub mod '):
            mod, name = lines[n - 1].split()[2], None
        if m:
            name = mod + '::' + m.group(1)
        if name:
            spec[n] = name
    return body, head, spec


def blame(diag, reg):
    """the item a diagnostic is about"""
    body, head, spec = reg
    spans = sorted(diag.get('spans', []), key=lambda s: not s.get('is_primary'))
    for tab in (body, head, spec):
        for s in spans:
            if s['line_start'] in tab:
                return tab[s['line_start']]
    for c in diag.get('children', []):
        b = blame(c, reg)
        if b:
            return b
    return None


PROOF_MSG = re.compile(r'not satisfied|assertion failed|possible (arithmetic|division|bit)|overflow|underflow|may fail|cannot prove|'
                       r'decreases|unable to prove|unreached|recommendation|failed|shift', re.I)


def run_verus(path, mods, extra=(), timeout=600):
    cmd = [VERUS, os.path.basename(path), '--output-json', '--time-expanded', '--error-format=json', '--triggers-mode', 'silent',
           '--multiple-errors', '3', '--no-report-long-running', '--num-threads', '8']
    if '--rlimit' not in extra:
        cmd += ['--rlimit', '25']
    for m in mods:
        cmd += ['--verify-only-module', m]
    cmd += list(extra)
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {'timeout': True, 'cmd': cmd, 'diags': [], 'fns': {}, 'res': None}
    diags = []
    other = []
    for ln in p.stderr.decode('utf-8', 'replace').split('\n'):
        if ln.startswith('{'):
            try:
                d = json.loads(ln)
            except ValueError:
                other.append(ln)
                continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting due'):
                diags.append(d)
        elif ln.strip():
            other.append(ln)
    res, fns, smt = None, {}, {}
    try:
        j = json.loads(p.stdout.decode('utf-8', 'replace'))
        res = j['verification-results']
        smt = j.get('times-ms', {}).get('smt', {})
        for m in smt.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                a = fns.setdefault(f['function'].split('::', 1)[1], {'ok': True, 'us': 0, 'rlimit': 0, 'mode': f.get('mode:')})
                a['ok'] = a['ok'] and f['success']
                a['us'] += f['time-micros']
                a['rlimit'] += f['rlimit']
    except (ValueError, KeyError):
        pass
    if res is not None and (res.get('encountered-vir-error') or 'verified' not in res or any((d.get('code') or {}).get('code') for d in diags)):
        res = None
    return {'timeout': False, 'cmd': cmd, 'diags': diags, 'other': other, 'fns': fns, 'res': res, 'rc': p.returncode,
            'smt_ms': smt.get('smt-run', 0)}


def verify(work, mods, notes):
    """extract + verus; returns a dict with the failures by item"""
    demote = {}
    for rnd in range(8):
        ex, text = extract.generate(REPO, VERIF, demote)
        path = os.path.join(work, 'gen.rs')
        open(path, 'w').write(text)
        reg = regions(text)
        r = run_verus(path, mods, timeout=max(60, 330 - (time.time() - T0)))
        if r['timeout']:
            raise Undecidable('the verifier did not finish in time')
        if r['res'] is not None:
            break
        # not accepted as a program: leave out the functions the errors are in
        bad = {}
        for d in r['diags']:
            b = blame(d, reg)
            if b and not re.match('vspec::|vthm::', b) and (b not in demote or demote[b].startswith('hints:')):
                bad.setdefault(b, d['message'])
        log('verus rejects the program:', [d['message'] for d in r['diags']][:4], '->', sorted(bad))
        if not bad:
            raise Undecidable('the extracted program is rejected: ' + '; '.join(d.get('rendered', d['message'])[:300] for d in r['diags'][:3])
                              + ' '.join(r['other'][:3]))
        for b, m in bad.items():
            # first without its proof hints, then as a function whose body is not looked at
            demote[b] = ('' if b in demote else 'hints:') + 'not accepted by the verifier: ' + m
    else:
        raise Undecidable('the extracted program is still rejected after leaving out ' + ', '.join(sorted(demote)))
    fails = collect(r, reg)
    return {'ex': ex, 'text': text, 'path': path, 'run': r, 'reg': reg, 'fails': fails,
            'demoted': {p: f.demoted for p, f in ex.found.items() if f and f.demoted}}


def again(v, mods, items, notes):
    """a failure has to survive more resources and other seeds; only the modules it is in are run again"""
    want = set()
    for i in items:
        want |= {m for m in mods if i.startswith(m + '::')}
    for extra in (['--rlimit', '60'], ['--rlimit', '60', '--smt-option', 'smt.random_seed=7']):
        left = 400 - (time.time() - T0)
        if left < 30:
            notes.append('no time for another attempt with ' + ' '.join(extra))
            return
        log('obligations not discharged:', {k: short(ds[0]) for k, ds in v['fails'].items()}, '- again with', ' '.join(extra))
        r2 = run_verus(v['path'], sorted(want) or mods, extra, timeout=left)
        if r2['timeout'] or r2['res'] is None:
            notes.append('no answer with ' + ' '.join(extra))
            continue
        f2 = collect(r2, v['reg'])
        for k in list(v['fails']):
            if k in items and k not in f2:
                v['fails'].pop(k)
                v['run']['res']['verified'] += 1
                v['run']['res']['errors'] = max(0, v['run']['res']['errors'] - 1)
            elif k in f2:
                v['fails'][k] = f2[k]
        notes.append('retried with ' + ' '.join(extra))
        items = [i for i in items if i in v['fails']]
        if not items:
            return


def collect(r, reg):
    fails = {}
    for d in r['diags']:
        fails.setdefault(blame(d, reg) or 'unknown', []).append(d)
    return fails


def short(d):
    return re.sub(r'\s+', ' ', d['message'])[:160]


# ------------------------------------------------------------------ property

def matches(item, pats):
    return any(fnmatch.fnmatchcase(item, p) for p in pats)


def calls_unknown(ex, item):
    """functions without a contract called from an item (a helper that is new)"""
    f = ex.found.get(item)
    if f is None or not f.calls:
        return []
    unknown = {p.split('::')[-1] for p in ex.found if p not in ex.fns} - {p.split('::')[-1] for p in ex.fns}
    return sorted(unknown & f.calls)


def trusted(text):
    """what is assumed in the text handed to the verifier, counted on this run"""
    t = []
    a = len(re.findall(r'assume_specification', text))
    b = len(re.findall(r'#\[verifier::external_body\]', text))
    c = len(re.findall(r'\badmit\(\)', text))
    d = len(re.findall(r'\bassume\(', text))
    t.append('%d assume_specification (std: BufReader, Read, String::from_utf8, to_vec, Entry::or_insert_with)' % a)
    t.append('%d external_body (opaque std types, len/bytes/into_iter/eq wrappers, String extensionality)' % b)
    t.append('%d admit() (&[u8] == [u8; N] compares the bytes: axiom_eq1, axiom_eq2; lists in memory are shorter than 2^60 bytes when written: axiom_mem_subs, axiom_mem_strs)' % c)
    t.append('%d assume()' % d)
    names = re.findall(r'#\[verifier::external_body\]\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?(?:fn|struct)\s+(\w+)', text)
    t.append('external_body items: ' + ', '.join(sorted(set(names))))
    specs = re.findall(r'assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*(?:\[T\][^\]]*)?)\]', text)
    t.append('assumed contracts: ' + ', '.join(sorted(set(re.sub(r'\s+', ' ', s).strip() for s in specs))))
    t.append('Verus %s, vstd, Z3 4.12' % 'verus 0.2026.09.13.671956e')
    t.append('extraction: ' + '; '.join(extract.REWRITES))
    return t


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    conf = json.load(open(os.path.join(HERE, 'props.json')))
    pc = conf['properties'][prop]
    cone = list(pc['fns'])
    mods = list(pc['modules'])
    work = os.path.join(VERIF, 'target', 'check-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    notes, violations = [], []
    v = None
    undecided, failed = {}, {}
    core = pc.get('core', cone)
    core_msg = re.compile(pc.get('core_msg', ''), re.I)

    def old(item):
        """the name the property lists it under"""
        return {n: o for o, n in v['ex'].renamed.items()}.get(item, item) if v else item

    def sort_failures():
        """failed: obligations that are the property; undecided: the proof has a hole, the search decides within its bounds"""
        failed.clear()
        for item, ds in v['fails'].items():
            if not (matches(old(item), cone) or item == 'unknown'):
                notes.append('obligation outside of this property not discharged: %s: %s' % (item, short(ds[0])))
                continue
            if all('rlimit' in d['message'] or 'Resource limit' in d['message'] for d in ds):
                undecided[item] = short(ds[0])
                continue
            f = v['ex'].found.get(item)
            if f and f.hints_lost:
                undecided[item] = 'its proof no longer fits (%s); %s' % (f.hints_lost[0], short(ds[0]))
                continue
            u = calls_unknown(v['ex'], item)
            if u:
                undecided[item] = 'calls %s, which has no contract; %s' % (', '.join(u), short(ds[0]))
                continue
            own = [d for d in ds if core_msg.search(d['message'])]
            if not matches(old(item), core) or not own:
                undecided[item] = 'a contract that this property relies on is not discharged: %s' % short(ds[0])
                continue
            failed[item] = ds
        for item, why in v['demoted'].items():
            if matches(old(item), cone):
                undecided[item] = why

    try:
        import search
        srch = search.Search(VERIF, REPO, prop, seed, tier, work, log)
        srch.start(pc.get('search_s', 8))     # builds and searches beside the verifier
        try:
            v = verify(work, mods + [m for m in conf['thorough_modules'] if tier == 'thorough' and m not in mods], notes)
        except Lost as e:
            undecided['extraction'] = 'extraction lost: %s' % e
        except Undecidable as e:
            undecided['verifier'] = str(e)
        hit = srch.first()
        if v:
            sort_failures()
            if not hit and (failed or undecided) and v['fails']:
                # (a failure of a function whose hints are lost stays undecided)
                again(v, mods, [i for i in v['fails'] if (i in failed or i in undecided) and not (v['ex'].found.get(i) and v['ex'].found[i].hints_lost)], notes)
                undecided.clear()
                sort_failures()
        for k, w in undecided.items():
            log('UNDECIDED (bounded search instead): %s: %s' % (k, w))
        # vacuity: the functions of the property have to be there and to have been verified
        if v:
            if v['run']['res']['verified'] + v['run']['res']['errors'] < pc.get('min_obligations', 1):
                undecided['vacuity'] = 'only %d obligations' % v['run']['res']['verified']
            for p in pc.get('must', []):
                if p not in v['ex'].found and p not in v['ex'].renamed:
                    undecided[p] = 'not found in the source'
        # concrete
        if not hit and (failed or undecided or tier == 'thorough'):
            hit = srch.run(240 if tier == 'thorough' else 90)
        rep = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rep, exist_ok=True)
        rp = os.path.join(rep, '%s.txt' % prop)
        known = srch.known
        if os.path.exists(rp):
            os.remove(rp)
        if hit or failed:
            with open(rp, 'w') as f:
                f.write('property %s\n' % prop)
                if hit:
                    f.write('\nfailing input (replayed against the compiled crate):\n%s\n\nreplay: %s\n' % (hit['text'], hit['replay']))
                for item, ds in failed.items():
                    f.write('\nfailed obligations of %s\n' % item)
                    for d in ds:
                        f.write(d.get('rendered', d['message']) + '\n')
            violations.append(rp)
        wall = time.time() - T0
        res = v['run']['res'] if v else {'verified': 0, 'errors': 0}
        fns = v['run']['fns'] if v else {}
        contracts = sorted(p for p in (v['ex'].found if v else {}) if matches(old(p), cone) and p in v['ex'].fns)
        cov = {
            'obligations': res['verified'] + res['errors'],
            'discharged': res['verified'],
            'checker_cmd': ' '.join(v['run']['cmd']) if v else 'none',
            'trusted_base': trusted(v['text']) if v else [],
            'functions_under_contract': contracts,
            'proof_functions': sum(1 for f in fns.values() if f['mode'] == 'proof'),
            'exec_functions': sum(1 for f in fns.values() if f['mode'] == 'exec'),
            'solver_ms': round(sum(f['us'] for f in fns.values()) / 1000.0, 1),
            'solver_rlimit': sum(f['rlimit'] for f in fns.values()),
            'backend': 'Verus (Z3)',
            'modules': mods,
            'slowest': [[k, round(f['us'] / 1000.0, 1)] for k, f in sorted(fns.items(), key=lambda x: -x[1]['us'])[:5]],
            'undecided': undecided,
            'failed_obligations': {k: [short(d) for d in ds] for k, ds in failed.items()},
            'bounded_search': srch.stats,
        }
        if failed or undecided or violations:
            cov['explanation'] = 'not proved on this tree: %d failed obligations, undecided: %s; bounded search (not a proof): %s' % (
                sum(len(d) for d in failed.values()), '; '.join('%s (%s)' % kv for kv in undecided.items()) or 'none', json.dumps(srch.stats))
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other' if 'explanation' in cov else 'proof', 'coverage': cov,
              'assumptions': conf['assumptions'] + pc.get('assumptions', []) + notes,
              'wall_s': round(wall, 2), 'violations': len(violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
        log('%d obligations, %d discharged, %d functions under contract, solver %.1f s; bounded search: %s' % (
            cov['obligations'], cov['discharged'], len(contracts), cov['solver_ms'] / 1000.0, json.dumps(srch.stats)[:300]))
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        if violations:
            for item, ds in failed.items():
                log('FAILED OBLIGATION %s: %s' % (item, '; '.join(short(d) for d in ds)))
            print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if hit else ' no-failing-input-found'))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
