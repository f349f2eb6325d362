"""check <ID>|all|setup [--tier quick|thorough]"""
import os, sys, traceback
from . import core, src


def main(argv):
    try:
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in argv:
            i = argv.index('--tier')
            tier = argv[i + 1]
            del argv[i:i + 2]
        if argv[:1] == ['setup']:
            src.build_dumper()
            core.load()
            print('dumper built, sources parse')
            return 0
        from . import checks        # noqa
        ids = sorted(core._CHECKS) if argv[:1] == ['all'] else argv
        rc = 0
        for i in ids:
            if i not in core._CHECKS:
                print('no such check: %s' % i)
                return 2
            try:
                rc = max(rc, core.run(i, tier))
            except src.AnalysisError as e:
                print('analysis error in %s: %s' % (i, e))
                rc = 2
            except Exception:
                traceback.print_exc()
                rc = 2
        return rc
    except src.AnalysisError as e:
        print('analysis error: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
