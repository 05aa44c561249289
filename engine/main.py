import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core, props, allchecks

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in props.CHECKS:
        print('usage: check.sh PROPERTY [--replay FILE]; properties: ' + ' '.join(sorted(props.CHECKS)))
        return 2
    check = props.CHECKS[sys.argv[1]]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return core.replay(check, sys.argv[3])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return core.run(check, tier, seed)

sys.exit(main())
