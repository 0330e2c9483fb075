"""Checks decided by the chart engine: random charts x random hook behaviour x random histories against the reference model."""
import json, os, sys, random, subprocess
from .common import *
sys.path.insert(0, VERIF + '/gen')
import topo

class Build:
    """flags: a name and the compiler settings for a set of charts"""
    def __init__(self, name='std', cxx='clang++', flags=(), opt='-O0', threads=False, asserts=True):
        self.name, self.cxx, self.opt, self.threads, self.asserts = name, cxx, opt, threads, asserts
        self.flags = list(flags)
    def cflags(self):
        return STD + (CHART_DEFS if self.asserts else []) + ([] if self.threads else ['-DBOOST_DISABLE_THREADS']) + [self.opt] + self.flags + INC + ['-I', ENGINE]
    def lflags(self):
        return [f for f in self.flags if f.startswith('-fsanitize')] + (['-pthread'] if self.threads else [])

STD_BUILD = Build()
SAN = Build('asan', 'clang++', ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-fstrict-flex-arrays=3', '-g1', '-DVERIF_SAN'], '-O0')

def build_engine(ctx, build, topos, sub='eng', extra=()):
    """topos: list of Topo; returns path of the executable.  A chart that does not compile is a violation."""
    d = os.path.join(ctx.dir, sub); os.makedirs(d, exist_ok=True)
    jobs = []
    oflags = [f if not f.startswith('-O') else '-O1' for f in build.cflags()]
    for f in ('model', 'engine'): jobs.append((ENGINE + '/%s.cpp' % f, d + '/%s.o' % f, oflags, None))
    group = 2
    for i in range(0, len(topos), group):
        src = d + '/c%d.cpp' % i
        with open(src, 'w') as f:
            f.write('#include "h.hpp"\n')
            for k in range(i, min(i + group, len(topos))): f.write(topo.emit(topos[k], 't%d' % k))
        jobs.append((src, d + '/c%d.o' % i, build.cflags(), topos[i:i + group]))
    def one(j):
        msg = compile1(j[0], j[1], j[2], build.cxx)
        return (j, msg)
    for j, msg in pmap(one, jobs):
        if msg:
            if j[3] is None:
                if is_diag(msg) and 'statechart/' in msg:
                    raise Violation('the engine does not compile against the library:\n' + msg[-3000:], dict(kind='compile', build=build.name, charts=[], message=msg[-4000:]))
                raise CheckError('engine does not compile: ' + msg[-3000:])
            if not is_diag(msg): raise CheckError('compiler failed: ' + msg[-2000:])
            # which chart
            raise Violation('a well-formed chart does not compile: ' + first_error(msg), dict(kind='compile', build=build.name, charts=[t.to_json() for t in j[3]], message=msg[-4000:]))
    exe = d + '/eng'
    r = sh([build.cxx] + build.lflags() + [j[1] for j in jobs] + ['-o', exe], 300)
    if r.returncode: raise CheckError('link: ' + r.stdout[-3000:])
    for j in jobs: os.remove(j[1])
    return exe

def first_error(msg):
    for l in msg.splitlines():
        if 'error:' in l: return l.strip()[:300]
    return msg[:300]

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=45:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=46')

def make_charts(ctx, families):
    out = []
    for fi, (n, kw) in enumerate(families):
        for i in range(n):
            out.append(topo.gen(ctx.rng('chart', fi, i), **kw))
    return out

class Run:
    """prof: engine profile, rule: what makes a case non-trivial (features), cases: per worker"""
    def __init__(self, prof, rule, cases): self.prof, self.rule, self.cases = prof, rule, cases

def run_engine(ctx, exe, topos, build, runs, cap=420, label=''):
    """runs all profiles with NPROC workers each, adds to the evidence, raises Violation"""
    tot = {}
    for ri, run in enumerate(runs):
        seed = derive(ctx.seed, ctx.prop, 'run', label, ri) % (1 << 40)
        def one(w):
            b = os.path.join(ctx.dir, 'r%s%d_%d' % (label, ri, w))
            cmd = [exe, '--seed', str(seed), '--cases', str(run.cases), '--secs', str(cap), '--worker', str(w), '--prof', run.prof,
                   '--rule', run.rule, '--stats', b + '.json', '--viol', b + '.viol', '--uniq', b + '.uniq']
            r = sh(cmd, cap + 200, env=ENV)
            return r, b
        res = pmap(one, range(NPROC))
        for r, b in res:
            if r.returncode == 1 and os.path.exists(b + '.viol'):
                case = open(b + '.viol').read(); ti = engine_order(topos)[int(case.split('\n')[0].split()[1])]
                expl = open(b + '.viol.txt').read() if os.path.exists(b + '.viol.txt') else ''
                line = [l for l in r.stdout.splitlines() if l.startswith('FAIL')]
                raise Violation(line[0] if line else r.stdout[-300:],
                    dict(kind='chart', build=build.name, prof=run.prof, chart=topos[ti].to_json(), topos=[t.to_json() for t in topos] if 'difftopo' in run.prof else None,
                         case=case, chart_text=topo.describe(topos[ti]), message=line[0] if line else '', explanation=expl[-20000:]))
        uniq = set()
        for r, b in res:
            if r.returncode == 5:
                # failed in the stream, not alone: judge by repeating the very same stream
                w = int(b.rsplit('_', 1)[1]); again = [one(w)[0].returncode for _ in range(2)]
                if all(x == 5 for x in again):
                    raise Violation('state carried over between cases: ' + r.stdout[-300:], dict(kind='stream', build=build.name, prof=run.prof, charts=[t.to_json() for t in topos], seed=seed, worker=w, cases=run.cases, message=r.stdout[-600:]))
                raise CheckError('unstable failure: ' + r.stdout[-500:])
            if r.returncode in DIED:    # before or after all cases
                w = int(b.rsplit('_', 1)[1])
                if all(one(w)[0].returncode in DIED for _ in range(2)):
                    raise Violation('the program dies outside all cases (%s): %s' % (r.returncode, r.stdout[-300:]), dict(kind='stream', build=build.name, prof=run.prof, charts=[t.to_json() for t in topos], seed=seed, worker=w, cases=run.cases, message=r.stdout[-600:]))
            if r.returncode != 0: raise CheckError('engine exit %s: %s' % (r.returncode, r.stdout[-1500:]))
            s = json.load(open(b + '.json'))
            with open(b + '.uniq', 'rb') as f:
                data = f.read(); uniq.update(data[i:i + 8] for i in range(0, len(data), 8))
            ctx.ev += s['cases']
            for k in ('ops', 'nontrivial', 'inconclusive'): tot[k] = tot.get(k, 0) + s[k]
            for k, v in s['features'].items():
                if v: tot.setdefault('features', {}); tot['features'][k] = tot['features'].get(k, 0) + v
            if len(ctx.samples) < 4 * (ri + 1) and s['samples'] and r is res[0][0]:
                ti = engine_order(topos)[int(s['samples'][0].split('\n')[0].split()[1])]
                ctx.samples.append(dict(chart=topo.describe(topos[ti]), case=s['samples'][0], profile=run.prof))
        ctx.distinct += len(uniq)
        for r, b in res:
            for e in ('.json', '.uniq'):
                if os.path.exists(b + e): os.remove(b + e)
    e = ctx.extra; e['charts'] = e.get('charts', 0) + len(topos)
    for k in ('ops', 'inconclusive'): e[k] = e.get(k, 0) + tot.get(k, 0)
    f = e.setdefault('features', {})
    for k, v in tot.get('features', {}).items(): f[k] = f.get(k, 0) + v
    return tot

def engine_order(topos):
    """the engine numbers charts by their description"""
    d = [topo.describe(t) for t in topos]
    return sorted(range(len(topos)), key=lambda i: d[i].encode())

BUILDS = {}
def reg(b): BUILDS[b.name] = b; return b
reg(STD_BUILD); reg(SAN)
RELAX = reg(Build('relax', 'clang++', ['-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT']))
NATIVE = reg(Build('native', 'clang++', ['-DBOOST_STATECHART_USE_NATIVE_RTTI']))
GCC = reg(Build('gcc', 'g++', [], '-O1'))
# release builds, native type information, thread support, other language standards: a part of the charts of every check
OTHERS = [reg(Build('release', 'clang++', ['-DNDEBUG'], asserts=False)),
          reg(Build('native_release', 'clang++', ['-DNDEBUG', '-DBOOST_STATECHART_USE_NATIVE_RTTI', '-std=c++14'], asserts=False)),
          reg(Build('mt', 'clang++', ['-std=c++20'], threads=True)), reg(Build('native_mt', 'clang++', ['-DBOOST_STATECHART_USE_NATIVE_RTTI', '-std=c++11'], threads=True)),
          reg(Build('mt_release', 'clang++', ['-DNDEBUG', '-std=c++11'], threads=True, asserts=False))]
RLX = ['-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT']
OTHERS_RELAX = [reg(Build('relax_' + b.name, b.cxx, b.flags + RLX, b.opt, b.threads, b.asserts)) for b in OTHERS]
SANRELAX = reg(Build('asanrelax', 'clang++', SAN.flags + ['-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT']))

def replay_chart(ctx, d):
    """re-runs a stored failing case against the current tree"""
    build = BUILDS[d['build']]
    if d['kind'] == 'compile':
        build_engine(ctx, build, [topo.Topo.from_json(t) for t in d['charts']]); print('compiles now'); return
    if d['kind'] == 'stream':
        T = [topo.Topo.from_json(t) for t in d['charts']]; exe = build_engine(ctx, build, T)
        r = sh([exe, '--seed', str(d['seed']), '--cases', str(d['cases']), '--secs', '400', '--worker', str(d['worker']), '--prof', d['prof'], '--rule', '', '--stats', ctx.dir + '/s', '--viol', ctx.dir + '/v', '--uniq', ctx.dir + '/u'], 700, env=ENV)
        print(r.stdout[-2000:])
        if r.returncode: raise Violation('still fails', d)
        return
    if d.get('topos'): T = [topo.Topo.from_json(t) for t in d['topos']]; case = d['case']
    else: T = [topo.Topo.from_json(d['chart'])]; case = 'topo 0\n' + d['case'].split('\n', 1)[1]
    exe = build_engine(ctx, build, T)
    with open(ctx.dir + '/case', 'w') as f: f.write(case)
    r = sh([exe, '--replay', ctx.dir + '/case', '--prof', d['prof'], '--explain', ctx.dir + '/expl'], 100, env=ENV)
    print(r.stdout)
    if os.path.exists(ctx.dir + '/expl'): print(open(ctx.dir + '/expl').read()[-12000:])
    if r.returncode: raise Violation(r.stdout, d)
