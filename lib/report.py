"""Common driver for the checks: evidence files, violation reports, known findings."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Report:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.violations = []      # (key, message)
        self.obligations = []     # (description, status)
        self.notes = []
        self.coverage = {}
        self.functions = set()
        self.files = set()

    def ok(self, what):
        self.obligations.append((what, 'ok'))

    def violate(self, key, message):
        """key identifies the construct (stable, used by the list of known findings)."""
        if any(k == key for k, _ in self.violations):
            return
        self.violations.append((key, message))
        self.obligations.append((key, 'violated'))

    def check(self, cond, key, message):
        if cond:
            self.ok(key)
        else:
            self.violate(key, message)
        return cond

    def analysed(self, f):
        self.functions.add(f.get('qn', f.get('n', '?')) if isinstance(f, dict) else str(f))
        if isinstance(f, dict) and 'f' in f:
            self.files.add('cpp/subprojects/' + f['f'])

    def guard(self, fn, *args):
        """Runs one part of a check. If the code is too unusual to be decided, this part is noted as undecided."""
        try:
            return fn(self, *args)
        except RecursionError:
            self.notes.append('%s%s: undecided (recursion)' % (fn.__name__, args[:2]))
        except Exception as e:
            self.notes.append('%s%s: undecided (%s: %s)' % (fn.__name__, args[:2], type(e).__name__, str(e)[:200]))
        return None

    def file(self, path):
        self.files.add(path)


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['key']: e for e in data.get('known', []) if e['property'] == pid}


def run(pid, rule, level, level_fields, analyse, min_obligations=1):
    """Runs a check and exits with its status."""
    t0 = time.time()
    tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    os.makedirs(EVIDENCE, exist_ok=True)
    rep = Report(pid, rule)
    error = None
    try:
        analyse(rep, tier)
        if len(rep.obligations) < min_obligations:
            error = 'only %d obligations found (expected at least %d): the code this check is anchored in was not ' \
                    'recognised' % (len(rep.obligations), min_obligations)
    except Exception:
        error = traceback.format_exc()
    known = known_findings(pid)
    new = [(k, m) for k, m in rep.violations if k not in known]
    old = [(k, m) for k, m in rep.violations if k in known]
    replay_dir = os.path.join(EVIDENCE, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, pid + '.txt')
    discharged = sum(1 for _, s in rep.obligations if s == 'ok')
    cov = {
        'explanation': rule,
        'obligations': len(rep.obligations),
        'discharged': discharged,
        'functions_analysed': len(rep.functions),
        'files_analysed': len(rep.files),
        'files': sorted(rep.files)[:200],
        'sample_obligations': [o for o, _ in rep.obligations[:40]],
        'known_findings': [k for k, _ in old],
    }
    cov.update(rep.coverage)
    ev = {
        'property': pid,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level,
        'coverage': cov,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
        'assumptions': level_fields.get('assumptions', []),
    }
    if error:
        ev['coverage']['error'] = error
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, m in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, m))
    with open(replay, 'w') as f:
        for k, m in new:
            f.write('%s\n    %s\n' % (k, m))
    if new:
        for k, m in new:
            print('%s: %s' % (k, m))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        sys.exit(1)
    if error:
        print('ERROR: ' + error, file=sys.stderr)
        sys.exit(2)
    print('%s: %d obligations, %d discharged, %d known findings, %d functions in %d files (%.1f s)' %
          (pid, len(rep.obligations), discharged, len(old), len(rep.functions), len(rep.files), time.time() - t0))
    sys.exit(0)
