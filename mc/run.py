"""run.py <property> [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, '/repo')


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    warnings.simplefilter('ignore')
    from mc import core
    import kernelmethods
    assert os.path.realpath(kernelmethods.__file__).startswith('/repo/'), \
        kernelmethods.__file__
    if '--replay' in sys.argv:
        return core.replay(sys.argv[sys.argv.index('--replay') + 1])
    mod = importlib.import_module('mc.props.' + prop.lower())
    ctx = core.Ctx(prop, tier, seed)
    mod.run(ctx)
    return ctx.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
