"""Runs a harness written on engine/pbt.hpp: builds it in several configurations, searches with 8 workers, reports, replays."""
import json, os, re
from .common import *
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=45:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=46',
           TSAN_OPTIONS='exitcode=47:halt_on_error=1')
SANF = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-g1', '-DVERIF_SAN']
MT_LIBS = ['-pthread', '-lboost_thread']

class V:
    """one build of a harness"""
    def __init__(self, name, cxx='clang++', flags=(), libs=(), opt='-O1', std='-std=c++17', asserts=True, files=None, alone=False):
        self.name, self.cxx, self.opt, self.std, self.files, self.alone = name, cxx, opt, std, files, alone
        self.flags = list(flags) + (['-DBOOST_ENABLE_ASSERT_HANDLER'] if asserts else []); self.libs = list(libs)

def build(ctx, src, v, extra_inc=None, extra_src=(), what='a well-formed program using the library does not compile'):
    """compiles and links one harness; a diagnostic is a violation because the harness is a correct program"""
    d = os.path.join(ctx.dir, 'b_' + v.name); os.makedirs(d, exist_ok=True)
    flags = [v.std, '-w', v.opt] + v.flags + INC + ['-I', ENGINE] + (['-I', extra_inc] if extra_inc else [])
    objs = []
    srcs = [src] + list(extra_src); outs = [d + '/' + os.path.basename(s) + '.o' for s in srcs]
    for o, msg in zip(outs, pmap(lambda so: compile1(so[0], so[1], flags, v.cxx), list(zip(srcs, outs)))):
        if msg:
            if is_diag(msg): raise Violation('%s (%s): %s' % (what, v.name, '\n'.join([l for l in msg.splitlines() if 'error' in l][:3])), dict(kind='compile', variant=v.name, message=msg[-4000:]))
            raise CheckError('compiler failed: ' + msg[-2000:])
        objs.append(o)
    exe = d + '/x'
    r = sh([v.cxx] + [f for f in v.flags if f.startswith('-fsanitize')] + objs + ['-o', exe] + v.libs, 300)
    if r.returncode: raise CheckError('link: ' + r.stdout[-3000:])
    return exe

def search(ctx, exe, v, prof, cases, extra=None, cap=500, label='', workers=NPROC):
    seed = derive(ctx.seed, ctx.prop, v.name, prof, label) % (1 << 40)
    def one(w):
        b = os.path.join(ctx.dir, 'p_%s_%s_%d' % (v.name, prof or 'd', w))
        r = sh([exe, '--seed', str(seed), '--cases', str(cases), '--secs', str(cap), '--worker', str(w), '--prof', prof, '--rule', '', '--stats', b + '.json', '--viol', b + '.viol', '--uniq', b + '.uniq'], cap + 200, env=ENV)
        return r, b
    res = pmap(one, range(workers))
    for r, b in res:
        if r.returncode == 1 and os.path.exists(b + '.viol'):
            line = [l for l in r.stdout.splitlines() if l.startswith('FAIL')]
            raise Violation('[%s %s] %s' % (v.name, prof, line[0] if line else r.stdout[-300:]),
                dict(kind='case', variant=v.name, prof=prof, case=open(b + '.viol').read(), message=line[0] if line else '', extra=extra))
    uniq = set(); first = True
    for r, b in res:
        if r.returncode == 5:
            w = int(b.rsplit('_', 1)[1]); again = [one(w)[0].returncode for _ in range(2)]
            if all(x == 5 or x == 1 for x in again):
                raise Violation('fails after the cases before it: ' + r.stdout[-300:], dict(kind='stream', variant=v.name, prof=prof, seed=seed, worker=w, cases=cases, message=r.stdout[-600:], extra=extra))
            if 0 not in again or not re.search(r'\(status (e|18),', r.stdout): raise CheckError('unstable failure: ' + r.stdout[-500:])
            ctx.extra.setdefault('time_limits_hit_once_only', []).append('%s %s worker %d' % (v.name, prof, w))     # a busy machine: the same cases end in time when run again
            r = one(w)[0] if again[-1] != 0 else r
            if again[-1] == 0: r.returncode = 0
        if r.returncode in DIED:        # before or after all cases: static initialisation, the end of the program
            w = int(b.rsplit('_', 1)[1])
            if all(one(w)[0].returncode in DIED for _ in range(2)):
                raise Violation('the program dies outside all cases (%s): %s' % (r.returncode, r.stdout[-300:]), dict(kind='stream', variant=v.name, prof=prof, seed=seed, worker=w, cases=cases, message=r.stdout[-600:], extra=extra))
        if r.returncode != 0: raise CheckError('harness exit %s: %s' % (r.returncode, r.stdout[-1500:]))
        s = json.load(open(b + '.json'))
        with open(b + '.uniq', 'rb') as f:
            data = f.read(); uniq.update(data[i:i + 8] for i in range(0, len(data), 8))
        ctx.ev += s['cases']; e = ctx.extra
        e['operations'] = e.get('operations', 0) + s['ops']; e['nontrivial_cases'] = e.get('nontrivial_cases', 0) + s['nontrivial']
        f = e.setdefault('features', {})
        for k, n in s['features'].items(): f[k] = f.get(k, 0) + n
        if first and s['samples']: ctx.samples.append(dict(variant=v.name, profile=prof, case=s['samples'][0])); first = False
    ctx.distinct += len(uniq)
    ctx.extra.setdefault('configurations', [])
    if v.name not in ctx.extra['configurations']: ctx.extra['configurations'].append(v.name)

def replay(ctx, exe):
    d = ctx.replay
    if d['kind'] == 'stream':
        r = sh([exe, '--seed', str(d['seed']), '--cases', str(d['cases']), '--secs', '400', '--worker', str(d['worker']), '--prof', d['prof'], '--stats', ctx.dir + '/s', '--viol', ctx.dir + '/v', '--uniq', ctx.dir + '/u'], 700, env=ENV)
    else:
        with open(ctx.dir + '/case', 'w') as f: f.write(d['case'])
        r = sh([exe, '--replay', ctx.dir + '/case', '--prof', d['prof']], 200, env=ENV)
    print(r.stdout[-3000:])
    if r.returncode: raise Violation(r.stdout, d)

def run(ctx, src, runs, rule, inc=None, extra_src=()):
    """runs: list of (V, [(profile, quick cases per worker)], thorough only?); inc: text files the harness includes {name: text}"""
    ctx.rule = rule
    ed = None; rep = ctx.replay
    if rep and rep.get('extra'): inc = rep['extra']
    if inc:
        ed = ctx.dir + '/inc'; os.makedirs(ed)
        for k, t in inc.items(): open(ed + '/' + k, 'w').write(t)
    if callable(extra_src): extra_src = extra_src(ed, inc)
    todo = [x for x in runs if (not rep and (not ctx.quick or len(x) < 3 or not x[2])) or (rep and x[0].name == rep['variant'])]
    exes = pmap(lambda x: build_one(ctx, src, x[0], ed, inc, extra_src), todo)
    for e in exes:
        if isinstance(e, Exception): raise e
    if rep:
        if rep['kind'] == 'compile': print('compiles now'); return
        return replay(ctx, exes[0])
    for x, exe in zip(todo, exes):
        for prof, cases in x[1]: search(ctx, exe, x[0], prof, cases * (1 if ctx.quick else 12), inc)

def build_one(ctx, src, v, ed, inc, extra_src=()):
    try: return build(ctx, v.files or src, v, ed, () if v.alone else extra_src)
    except (Violation, CheckError) as e:
        if isinstance(e, Violation): e.replay['extra'] = inc
        return e
