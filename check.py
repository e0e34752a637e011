#!/usr/bin/env python3
"""check.py <property id> [--thorough]   decide one property from /repo's source"""
import importlib, os, subprocess, sys, tempfile, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
from engine import vg, build, report, config

def main(av):
    ids = [a for a in av if not a.startswith('-')]
    tier = 'thorough' if '--thorough' in av or (os.environ.get('VERIF_TIER') == 'thorough') else 'quick'
    rc = 0
    inner = os.environ.get('ENGABRA_VARIANT')
    if inner: build.DEFS += [f for f in inner.split('\t')[1:] if f]
    else: report.configurations = config.variants()
    for pid in ids:
        mod = importlib.import_module('checks.' + pid.lower())
        try:
            r = mod.check(tier)
        except vg.Unmodelled as e:
            if '-v' in av: traceback.print_exc()
            print('%s: no answer: outside the analysed fragment: %s' % (pid, e)); r = 2
            # what was found before is a violation all the same
            if report.current and report.current[-1].bad: r = report.current[-1].finish()
        except build.BuildError as e:
            print('%s: no answer: %s' % (pid, str(e)[:1500])); r = 2
        except Exception:
            traceback.print_exc(); r = 2
            if report.current and report.current[-1].bad: r = report.current[-1].finish()
        rs = [r]
        for f in ([] if inner else report.configurations):
            # the same decision for the other text the preprocessor can select
            print('%s: configuration: %s' % (pid, f.name)); sys.stdout.flush()
            with tempfile.TemporaryDirectory(prefix='vsa_') as d:
                rs.append(subprocess.run([sys.executable, os.path.realpath(__file__), pid] + [a for a in av if a.startswith('-')],
                                         env=dict(os.environ, ENGABRA_REPO=f.root, ENGABRA_VARIANT='\t'.join(['v'] + f.flags), ENGABRA_EVIDENCE=d, ENGABRA_REPLAY=report.evidence())).returncode)
        r = 1 if 1 in rs else max(rs)
        rc = r if len(ids) == 1 else max(rc, r)
    sys.stdout.flush()
    return rc
if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
