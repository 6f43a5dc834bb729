"""Entry point of every check: python3 -m amx.check <PROPERTY> [--tier quick|thorough]

Loads the facts of /repo's current tree, runs the property's rule module, compares the violations with the known
findings and writes evidence/<PROPERTY>.json.  Exit 0: the property's obligations are all discharged (or only known
findings remain); exit 1 with a VIOLATION line otherwise - also when the analysis cannot reach a verdict.
"""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.P = None
        self.fails = []          # (key, message, where)
        self.obl = 0
        self.good = 0
        self.counts = {}
        self.notes = []
        self.rules = []
        self.samples = []
        self.functions = set()

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def check(self, ok, key, msg, where=''):
        """one obligation"""
        self.obl += 1
        if ok:
            self.good += 1
            if len(self.samples) < 12:
                self.samples.append(key)
        else:
            if not any(f[0] == key for f in self.fails):
                self.fails.append((key, msg, where))
        return ok

    def floor(self, name, n, least):
        """a rule that matches fewer sites than were confirmed by hand decides nothing"""
        self.counts[name] = n
        self.check(n >= least, 'floor:' + name, 'only %d instances of "%s" found; at least %d were confirmed' % (n, name, least))

    def count(self, name, n):
        self.counts[name] = n

    def saw(self, *fns):
        self.functions.update(fns)


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split('key=', 1)[1]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    t0 = time.time()
    ctx = Ctx(prop, tier)
    mod = None
    try:
        from . import facts
        mod = importlib.import_module('amx.rules.' + prop.lower())
        ctx.P = facts.load()
        mod.run(ctx)
    except BaseException as e:        # no verdict is not a pass
        from .facts import AnalysisError
        from .mirai import Budget
        if isinstance(e, KeyboardInterrupt):
            raise
        kind = 'cannot-decide'
        key = '%s:%s' % (kind, str(e).splitlines()[0][:160] if str(e) else type(e).__name__)
        msg = str(e) if isinstance(e, (AnalysisError, Budget)) else traceback.format_exc()[-1500:]
        ctx.obl += 1
        ctx.fails.append((key, 'the analysis reached no verdict: ' + msg, ''))
    known = known_findings(prop)
    new, old = [], []
    for f in ctx.fails:
        (old if f[0] in known else new).append(f)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': (getattr(mod, '__doc__', '') or '').strip(),
            'obligations': ctx.obl, 'discharged': ctx.good,
            'instances': ctx.counts,
            'rules': ctx.rules,
            'functions_analysed': sorted(ctx.functions),
            'examples_of_discharged_obligations': ctx.samples,
            'known_findings_seen': [f[0] for f in old],
            'assumptions': ctx.notes,
            'source': 'MIR of the amxml library crate, built from %s on this run' % (ctx.P.repo if ctx.P else '/repo'),
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': [{'key': f[0], 'message': f[1], 'where': f[2]} for f in new],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        f.write('\n')
    print('%s: %d obligations, %d discharged, %s; %.1f s' % (prop, ctx.obl, ctx.good,
          ', '.join('%s=%s' % kv for kv in sorted(ctx.counts.items())), time.time() - t0))
    for f in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[f[0]], f[0]))
    if not new:
        return 0
    rp = os.path.join(VERIF, 'evidence', prop + '.replay.txt')
    with open(rp, 'w') as o:
        for f in new:
            o.write('rule instance: %s\nwhere: %s\n%s\n\n' % f)
    for f in new[:20]:
        print('  %s\n      at %s: %s' % (f[0], f[2], str(f[1])[:600]))
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
