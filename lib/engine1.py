"""Runs contract checks of function instances in parallel; every result is computed from /repo's current source."""
import os, sys, time, json, multiprocessing as mp, tempfile, shutil, traceback, importlib
os.environ.setdefault('PYTHONOPTIMIZE', '1')
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build, ir
import symex
SPECS = ['nodes_spec', 'term_spec', 'result_spec', 'token_spec', 'uniform_spec', 'math_spec']
_mods = {}

def load_specs():
    out = []
    for s in SPECS:
        if os.path.exists(os.path.join(HERE, s + '.py')): out.append(importlib.import_module(s))
    return out

def hints():
    p = os.path.join(HERE, 'hints.json')
    return json.load(open(p)) if os.path.exists(p) else {}

def _compile(a):
    spec, names, wd, tag = a
    S = importlib.import_module(spec)
    sel = [i for i in S.instances() if i.name in names]
    try:
        build.ir(S.tu(sel), wd, tag); return None
    except build.BuildError as e: return str(e)

def _check(a):
    spec, name, wd, tag, limit, usehints = a
    t = time.time(); S = importlib.import_module(spec)
    res = dict(spec=spec, name=name, obls=[], error=None, funcs=[], queries=0, solver_s=0.0, stubs={}, loops=[])
    try:
        path = os.path.join(wd, tag + '.ll')
        def load():
            if (wd, tag) not in _mods: _mods[(wd, tag)] = ir.parse(open(path).read())
            return _mods[(wd, tag)]
        if not hasattr(S, '_by'): S._by = {i.name: i for i in S.instances()}
        h = hints().get(name) if usehints else None
        e = S.check_text(path, load, S._by[name], limit, h) if hasattr(S, 'check_text') else S.check(load(), S._by[name], limit, h)
        res['obls'] = [(o.name, sorted(o.tags), bool(o.ok), bool(o.cut), bool(o.unknown), o.model) for o in e.obls.values()]
        res['funcs'] = sorted({symex.short(f) for f in e.covered}); res['queries'] = e.queries; res['solver_s'] = round(e.solver_s, 2)
        res['stubs'] = sorted(symex.short(s) for s in e.stub_calls); res['invs'] = sorted({d for r in e.inv_report for d in r[2]})
        res['loops'] = sorted(set(e.loops_cut))
    except (symex.Unsupported, symex.Limits) as ex: res['error'] = repr(ex)[:400]
    except Exception as ex: res['error'] = 'internal: ' + repr(ex)[:300] + traceback.format_exc()[-600:]
    res['wall'] = round(time.time() - t, 2)
    return res

def run(select, limit=150, jobs=None, usehints=True, log=None, deadline=None, stop=None):
    """select: function(spec_name, instance) -> bool. Returns the list of per-instance results."""
    jobs = jobs or max(2, (os.cpu_count() or 8))
    wd = tempfile.mkdtemp(prefix='vf_')
    try:
        groups = []; tasks = []
        H = hints()
        for S in load_specs():
            ins = [i for i in S.instances() if select(S.__name__, i)]
            size = getattr(S, 'GROUP', 32)
            for k in range(0, len(ins), size):
                part = ins[k:k + size]; tag = '%s_%d' % (S.__name__, k // size)
                groups.append((S.__name__, [i.name for i in part], wd, tag))
                for i in part: tasks.append((i, (S.__name__, i.name, wd, tag, limit, usehints)))
        out = []
        ctx = mp.get_context('fork')
        with ctx.Pool(jobs, maxtasksperchild=40) as pool:
            errs = pool.map(_compile, groups, 1); bad = {}
            for g, e in zip(groups, errs):
                if e:
                    for n in g[1]: bad[n] = e
            # a group that does not compile as a whole is retried one by one
            retry = [(g[0], [n], wd, 'one_' + n) for g, e in zip(groups, errs) if e for n in g[1]]
            for g, e in zip(retry, pool.map(_compile, retry, 1)):
                if e is None:
                    bad.pop(g[1][0]); tasks = [(i, (a[0], a[1], a[2], g[3]) + a[4:] if a[1] == g[1][0] else a) for i, a in tasks]
            w = {'greedy': 0, 'lazy': 1, 'possessive': 2}
            todo = []
            for i, a in sorted(tasks, key=lambda t: (getattr(t[0], 'weight', w.get(t[0].kind, 3)))):
                if a[1] in bad: out.append(dict(spec=a[0], name=a[1], obls=[], error='does not compile: ' + bad[a[1]][-1500:], funcs=[], queries=0, solver_s=0, stubs=[], loops=[], wall=0))
                else: todo.append(a)
            it = pool.imap_unordered(_check, todo, 1); done = set()
            for _ in todo:
                try: r = it.next(max(1, deadline - time.time())) if deadline else it.next()
                except mp.TimeoutError: break
                out.append(r); done.add(r['name'])
                if log: log(r)
                if stop and stop(r): break
            why = 'not run: a violation was already established' if stop and any(stop(r) for r in out) else 'not finished within the time of this run'
            for a in todo:
                if a[1] not in done: out.append(dict(spec=a[0], name=a[1], obls=[], error=why, funcs=[], queries=0, solver_s=0, stubs=[], loops=[], wall=0))
            pool.terminate()
        return out
    finally:
        shutil.rmtree(wd, ignore_errors=True)

if __name__ == '__main__':
    pre = sys.argv[1:]
    t = time.time()
    def log(r):
        bad = [o for o in r['obls'] if not o[2]]
        if bad or r['error'] or r['wall'] > 30: print(r['name'], r['wall'], r['error'], [(o[0], o[3], o[4]) for o in bad], flush=True)
    rs = run(lambda s, i: not pre or any(i.name.startswith(p) or s == p for p in pre), limit=int(os.environ.get('LIM', '150')), usehints='NOHINTS' not in os.environ, log=log)
    for r in rs:
        if r['error'] and r['error'].startswith('does not'): print(r['name'], r['error'][-700:])
    print(len(rs), 'instances', sum(len(r['obls']) for r in rs), 'obligations', sum(1 for r in rs if r['error']), 'errors', '%.0fs wall' % (time.time() - t), '%.0fs cpu' % sum(r['wall'] for r in rs))
    if 'SAVEHINTS' in os.environ:
        H = hints(); H.update({r['name']: r['invs'] for r in rs if r.get('invs') and all(o[2] for o in r['obls'])})
        json.dump(H, open(os.path.join(HERE, 'hints.json'), 'w'), indent=0, sort_keys=True)
