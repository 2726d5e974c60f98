"""Concrete replay on the untouched code: python replay.py SPEC.json OUT.json"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main(spec_path, out):
    spec = json.load(open(spec_path))
    import core, host, runner
    if spec.get('threads'):
        os.environ['SYM_THREADS'] = str(spec['threads'])
    host.import_repo()
    mod = runner.load_check(spec['property'])
    if hasattr(mod, 'setup'):
        mod.setup()
    if spec['cc']:
        host.set_core_library(spec['lib'])
        if spec['rng']:
            host.install_callbacks(spec['lib'], host.HOLDER)
    host.patch_modules(host.HOLDER, False)
    fn = getattr(mod, spec['fn'])
    runs = []
    for c in spec['candidates']:
        ctx = host.ConCtx(c['values'], c['nondets'], spec['cc'])
        host.HOLDER.ctx = ctx
        d = dict(exception=None)
        try:
            fn(ctx, **spec['params'])
        except (core.PathEnd, core.Unsupported):
            pass        # outside of the assumptions, or the harness does not apply to this code
        except Exception as ex:
            import re, traceback
            where = traceback.extract_tb(ex.__traceback__)[-1].filename
            private = isinstance(ex, AttributeError) and re.search(r"has no attribute '_\w", str(ex)) and os.path.dirname(os.path.abspath(where)) == os.path.join(os.path.dirname(HERE), 'checks')
            if not private:     # a harness that looks at a private name that is gone does not apply
                d['exception'] = '%s: %s' % (type(ex).__name__, str(ex)[:300])
                d['traceback'] = traceback.format_exc()[-1200:]
        d['failed'] = ctx.failed
        d['observed'] = ctx.observed
        d['assumption_failed'] = ctx.assumption_failed
        runs.append(d)
    json.dump(runs, open(out, 'w'), default=str)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
    sys.stdout.flush()
    os._exit(0)
