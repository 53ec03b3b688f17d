import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import core, build, props


def run(prop, tier):
    ctx = core.Ctx(prop, tier)
    err = None
    try:
        props.PROPS[prop](ctx)
        if not ctx.obl:
            err = 'no rule instance was found'
    except (core.Broken, build.BuildError) as e:
        err = str(e)
    except Exception as e:
        err = 'internal: ' + traceback.format_exc()
    if err and ctx.viol:
        # what was found stands, whatever else could not be analysed
        ctx.notes.append('analysis incomplete: ' + err[:500])
        err = None
    return core.finish(ctx, err)


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    ps = []
    i = 0
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]; i += 2; continue
        ps.append(argv[i]); i += 1
    if ps == ['all']:
        ps = list(props.PROPS)
    rc = 0
    for p in ps:
        r = run(p, tier)
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
