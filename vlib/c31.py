"""C31: headers alone, in random orders and configurations, and charts split over several translation units."""
from .charts import *
from . import c29
from .c31pieces import PIECES

HEADERS = sorted(f for f in os.listdir(REPO + '/include/boost/statechart') if f.endswith('.hpp'))
USE = {
 'event.hpp': 'struct E : sc::event<E> {}; inline void u(const E & e) { e.intrusive_from_this(); e.dynamic_type(); E::static_type(); }',
 'event_base.hpp': 'inline void u(const sc::event_base & e) { boost::intrusive_ptr<const sc::event_base> p = e.intrusive_from_this(); (void)p; e.dynamic_type(); }',
 'fifo_worker.hpp': 'inline void f() {} inline unsigned long u() { sc::fifo_worker<> w; sc::fifo_worker<>::work_item i(&f); w.queue_work_item(i); w.terminate(); return w() + w.terminated(); }',
 'fifo_scheduler.hpp': 'inline unsigned long u() { sc::fifo_scheduler<> s; sc::fifo_scheduler<>::processor_handle h; s.initiate_processor(h); s.terminate_processor(h); s.destroy_processor(h); s.terminate(); return s(3) + s.terminated(); }',
 'state_machine.hpp': 'struct S; struct M : sc::state_machine<M, S> {};',
 'exception_translator.hpp': 'typedef sc::exception_translator<> T; inline int u() { return sizeof(T) + sizeof(sc::exception_thrown); }',
 'null_exception_translator.hpp': 'inline int a() { return 1; } inline int u() { sc::null_exception_translator t; int (*p)() = &a; (void)t; return p(); }',
 'result.hpp': 'inline sc::result u(sc::result r) { sc::result s(r); return s; }',
 'simple_state.hpp': 'inline int u() { return sc::has_full_history + sc::has_no_history + sc::has_shallow_history + sc::has_deep_history; }', 'state.hpp': 'struct C;',
 'transition.hpp': 'struct E; struct S; typedef sc::transition<E, S> T;', 'deferral.hpp': 'struct E; typedef sc::deferral<E> T;', 'termination.hpp': 'struct E; typedef sc::termination<E> T;',
 'custom_reaction.hpp': 'struct E; typedef sc::custom_reaction<E> T;', 'in_state_reaction.hpp': 'struct E; typedef sc::in_state_reaction<E> T;',
 'history.hpp': 'struct S; typedef sc::shallow_history<S> T; typedef sc::deep_history<S> U;', 'asynchronous_state_machine.hpp': 'struct S; struct M;',
 'processor_container.hpp': 'struct X;', 'event_processor.hpp': 'struct X;', 'shallow_history.hpp': 'struct S; typedef sc::shallow_history<S> T;', 'deep_history.hpp': 'struct S; typedef sc::deep_history<S> T;',
}
ASYNC = '''struct AS; struct AM : sc::asynchronous_state_machine<AM, AS> { AM(my_context c) : my_base(c) {} typedef sc::asynchronous_state_machine<AM, AS> my_base; }; struct AE : sc::event<AE> {};
struct AS : sc::simple_state<AS, AM> { typedef sc::transition<AE, AS> reactions; };
inline void au() { sc::fifo_scheduler<> s; sc::fifo_scheduler<>::processor_handle h = s.create_processor<AM>(); s.initiate_processor(h); s.queue_event(h, boost::intrusive_ptr<AE>(new AE)); s(); }
'''
def cfg(rng):
    f = []
    if rng.random() < .4: f.append('-DBOOST_STATECHART_USE_NATIVE_RTTI')
    if rng.random() < .4: f.append('-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT')
    if rng.random() < .4: f.append('-DBOOST_DISABLE_THREADS')
    r = rng.random()
    if r < .4:
        f.append('-DNDEBUG')
        if rng.random() < .4 and '-DBOOST_STATECHART_USE_NATIVE_RTTI' not in f: f.append('-fno-rtti')
    elif r < .6: f.append('-DBOOST_ENABLE_ASSERT_HANDLER')
    f.append('-std=' + rng.choice(['c++11', 'c++14', 'c++17', 'c++20', 'c++23', 'gnu++17']))
    return [rng.choice(['clang++', 'clang++', 'g++'])] + f

def pre(hs): return ''.join('#include <boost/statechart/%s>\n' % h for h in hs)
def syntax(ctx, name, text, c):
    p = ctx.dir + '/%s.cpp' % name
    with open(p, 'w') as f: f.write(text)
    r = sh([c[0], '-w', '-fsyntax-only'] + c[1:] + INC + [p], 300); os.remove(p)
    if r.returncode not in (0, 1): raise CheckError('compiler ended with %s: %s' % (r.returncode, r.stdout[-500:]))
    return '' if r.returncode == 0 else r.stdout

def alone(ctx, i, h, c):
    t = pre([h]) + 'namespace sc = boost::statechart;\n' + USE.get(h, '') + '\n' + pre([h])
    return t, c, syntax(ctx, 'a%d' % i, t, c)

def program(ctx, i, rng, c):
    """a chart with exactly the headers of what it uses, in random order, with repetitions, sometimes more headers"""
    T = c29.gen_chart(rng)
    body = c29.lite(T, 'p', rng.choice(['list', 'vector', 'mixed'])); need = ['state_machine.hpp', 'event.hpp']
    for w, h in (('sc::simple_state<', 'simple_state.hpp'), ('sc::state<', 'state.hpp'), ('sc::transition<', 'transition.hpp'), ('sc::in_state_reaction<', 'in_state_reaction.hpp'), ('sc::termination<', 'termination.hpp'),
                 ('sc::deferral<', 'deferral.hpp'), ('sc::custom_reaction<', 'custom_reaction.hpp'), ('sc::shallow_history<', 'shallow_history.hpp'), ('sc::deep_history<', 'deep_history.hpp')):
        if w in body: need.append(h)
    asy = rng.random() < .3
    if asy: need += ['asynchronous_state_machine.hpp', 'fifo_scheduler.hpp', 'simple_state.hpp', 'transition.hpp']
    need = sorted(set(need))
    hs = list(need)
    if rng.random() < .5: hs += rng.sample(HEADERS, rng.randint(1, 6))
    if rng.random() < .4: hs += rng.sample(hs, min(3, len(hs)))
    rng.shuffle(hs)
    mp = ['#include <boost/mpl/list.hpp>\n', '#include <boost/mpl/vector.hpp>\n']
    t = pre(hs) + ''.join(mp) + c29.HEAD[c29.HEAD.index('namespace sc ='):] + body + (ASYNC if asy else '')
    return t, c, syntax(ctx, 'p%d' % i, t, c)

def small(rng):
    """several small uses of the library, in 1 to 3 translation units with random sets and orders of headers; every unit uses everything its headers allow"""
    c = [x for x in cfg(rng) if x != '-fno-rtti']; files = []; n = rng.randint(1, 3); used = set()
    for k in range(n):
        hs = set(rng.sample(HEADERS, rng.choice([2, 3, 4, 6, 9, len(HEADERS)]))); want = rng.sample(range(len(PIECES)), rng.randint(1, 4))
        for w in want: hs |= PIECES[w][0]
        ps = [i for i in range(len(PIECES)) if PIECES[i][0] <= hs]; used |= set(ps)
        hs = list(hs); rng.shuffle(hs); hs += rng.sample(hs, rng.randint(0, 3)); rng.shuffle(ps)
        t = pre(hs) + '#include <boost/mpl/list.hpp>\n#include <boost/ref.hpp>\n#include <cstdio>\n#include <cstdlib>\n#include <exception>\nnamespace sc = boost::statechart;\n'
        for i in ps: t += 'namespace p%d {\n%s\n}\n' % (i, PIECES[i][1])
        t += 'int unit%d() { int bad = 0;\n' % k + ''.join('  if (!p%d::u()) { bad = 1; std::printf("use %d does not work in unit %d\\n"); }\n' % (i, i, k) for i in ps) + '  return bad; }\n'
        if k == 0:
            t += ''.join('int unit%d();\n' % i for i in range(1, n)) + ('namespace boost { void assertion_failed(char const* e, char const*, char const*, long) { std::printf("assertion %s\\n", e); std::exit(3); } void assertion_failed_msg(char const* e, char const*, char const*, char const*, long) { std::printf("assertion %s\\n", e); std::exit(3); } }\n' if '-DBOOST_ENABLE_ASSERT_HANDLER' in c else '')
            t += 'int main() { int b = 0; for (int i = 0; i < 2; ++i) { ' + ' '.join('b |= unit%d();' % i for i in range(n)) + ' } return b; }\n'
        files.append(t)
    return files, c

def run_small(ctx, name, files, c):
    """'' or what is wrong"""
    d = ctx.dir + '/s%s' % name; os.makedirs(d, exist_ok=True); objs = []
    try:
        for n, t in enumerate(files):
            s = '%s/%d.cpp' % (d, n); open(s, 'w').write(t)
            r = sh(c + ['-w', '-O0'] + INC + ['-c', s, '-o', s + '.o'], 400); objs.append(s + '.o')
            if r.returncode:
                if is_diag(r.stdout): return 'does not compile: ' + first_error(r.stdout)
                raise CheckError(r.stdout[-1500:])
        r = sh([c[0]] + objs + ['-o', d + '/x', '-pthread', '-lboost_thread'], 300)
        if r.returncode: return 'does not link: ' + '\n'.join([l for l in r.stdout.splitlines() if 'multiple' in l or 'undefined' in l][:3])[:500]
        r = sh([d + '/x'], 100)
        if r.returncode: return 'does not behave: exit %s, %s' % (r.returncode, r.stdout[:300])
        return ''
    finally: shutil.rmtree(d, ignore_errors=True)

def shrink_small(ctx, files, c, msg):
    """fewer units, then fewer header lines, with the same kind of failure"""
    kind = msg.split(':')[0]; runs = 0
    def same(f, i):
        nonlocal runs; runs += 1
        return runs < 120 and run_small(ctx, 'k', f, c).split(':')[0] == kind
    if len(files) > 1 and kind != 'does not link':
        for k in range(len(files)):
            f = files[k].split('int main()')[0] if k == 0 else files[k]
            if k: f += 'int main() { return unit%d() | unit%d(); }\n' % (k, k)
            else: f = '\n'.join(l for l in f.split('\n') if not re.match(r'int unit[1-9]\(\);', l)) + 'int main() { return unit0() | unit0(); }\n'
            if same([f], 0): files = [f]; break
    for n in range(len(files)):
        i = 0; lines = files[n].split('\n')
        while i < len(lines) and not lines[i].startswith('namespace'):
            if lines[i].startswith('#include <boost/statechart'):
                g = list(files); g[n] = '\n'.join(lines[:i] + lines[i + 1:])
                m = run_small(ctx, 'k', g, c) if runs < 120 else ''; runs += 1
                if m == msg: files = g; lines = g[n].split('\n'); continue
            i += 1
    return files

def units(ctx, j, rng):
    """one chart in several translation units, each with its own order of headers; returns topo, error"""
    kw = dict(hist=0.5, hinit=.5, hdest=.5, orth=.45, action=.6, evbase=.05, w=dict(tr=5, isr=1, term=.6, defer=.8, cust=5), translator=['none', 'any', 'sel'], exreact=.3)
    T = topo.gen(rng, **kw); k = rng.randint(2, 4); c = cfg(rng)
    c = [x for x in c if x not in ('-fno-rtti', '-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT')]
    head, parts = topo.emit(T, 't0', split=k)
    files = []; al = [h for h in HEADERS]
    for n, p in enumerate(parts):
        hs = list(al); rng.shuffle(hs)
        files.append(pre(hs) + '#include <boost/mpl/list.hpp>\n#include <boost/mpl/vector.hpp>\n#define H_LIBFIRST\n#include "h.hpp"\n#include "chart%d.hpp"\n' % j + p)
    return T, head, files, c

def build_units(ctx, j, head, files, c):
    d = ctx.dir + '/u%d' % j; os.makedirs(d, exist_ok=True)
    open(d + '/chart%d.hpp' % j, 'w').write(head)
    fl = [x for x in c[1:]] + ['-w', '-O0'] + ([] if '-DBOOST_ENABLE_ASSERT_HANDLER' in c else ['-DBOOST_ENABLE_ASSERT_HANDLER'] if '-DNDEBUG' not in c else []) + INC + ['-I', ENGINE, '-I', d]
    jobs = []
    for n, t in enumerate(files):
        s = d + '/p%d.cpp' % n; open(s, 'w').write(t); jobs.append((s, True))
    jobs += [(ENGINE + '/model.cpp', False), (ENGINE + '/engine.cpp', False)]
    objs = []
    def one(x):
        o = d + '/' + os.path.basename(x[0]) + '.o'; return o, sh([c[0]] + (fl if x[1] else [f if f != '-O0' else '-O1' for f in fl]) + ['-c', x[0], '-o', o], 600), x
    for o, r, x in pmap(one, jobs):
        if r.returncode:
            if x[1] and is_diag(r.stdout): return None, 'does not compile: ' + first_error(r.stdout)
            raise CheckError(r.stdout[-1500:])
        objs.append(o)
    r = sh([c[0]] + objs + ['-o', d + '/x', '-pthread', '-lboost_thread'], 300)
    if r.returncode: return None, 'does not link: ' + '\n'.join(l for l in r.stdout.splitlines() if 'multiple' in l or 'undefined' in l)[:400] + r.stdout[-300:]
    return d + '/x', ''
PROF = 'queries=1,query=0.2,hooks=0.3,post=0.2,clear=0.1,rT=4,rD=1,rZ=0.7,oI=0.5,oT=0.4,restart=0.1,tentry=0.02,texit=0.02,tact=0.03,treact=0.03'

def run(ctx):
    ctx.rule = ('case = (a) one header alone, twice, with a use of what it offers, in a random configuration; (a2) one to three translation units with random sets and orders of headers, each making and running every small use of the library its headers allow; (b) a generated chart with exactly the headers it needs, in random order, with repetitions; '
                '(c) a history of a generated chart spread over 2 to 4 translation units with different header orders, against the reference model; non-trivial: all of (a), (a2) and (b), and histories with several transitions')
    if ctx.replay: return replay(ctx)
    na, npg, nu, ns = (6, 60, 2, 40) if ctx.quick else (24, 500, 12, 600)
    jobs = []
    for h in HEADERS:
        for k in range(na): jobs.append(('a', h, k))
    jobs += [('p', None, k) for k in range(npg)]
    def one(x):
        i, (kind, h, k) = x; rng = ctx.rng(kind, h, k); c = cfg(rng)
        if kind == 'a' and k == 0: c = ['clang++', '-std=c++17']
        return alone(ctx, i, h, c) if kind == 'a' else program(ctx, i, rng, c)
    for t, c, msg in pmap(one, enumerate(jobs)):
        ctx.ev += 1
        if msg:
            t2 = shrink_incl(ctx, t, c)
            raise Violation('does not compile: ' + first_error(msg), dict(kind='syntax', source=t2, compiler=c, message=msg[-3000:]))
    ctx.distinct += len(jobs); ctx.extra['header_alone'] = na * len(HEADERS); ctx.extra['programs'] = npg
    ctx.samples.append(dict(kind='include order', source=jobs and one((0, ('p', None, 1)))[0].split('namespace sc')[0]))
    def oneSmall(k): f, c = small(ctx.rng('s', k)); return f, c, run_small(ctx, k, f, c)
    for f, c, msg in pmap(oneSmall, range(ns)):
        ctx.ev += 1
        if msg:
            f = shrink_small(ctx, f, c, msg)
            for _ in range(2):
                if not run_small(ctx, 'v', f, c): raise CheckError('not repeatable: ' + msg)
            raise Violation('a program of %d translation unit(s) ' % len(f) + msg, dict(kind='small', files=f, compiler=c, message=msg))
    ctx.distinct += ns; ctx.extra['small_programs'] = ns
    for j in range(nu):
        rng = ctx.rng('u', j); T, head, files, c = units(ctx, j, rng)
        exe, err = build_units(ctx, j, head, files, c)
        if err: raise Violation('a program of several translation units ' + err, dict(kind='units', head=head, files=files, compiler=c, j=j, message=err))
        b = Build('u', c[0])
        try: run_engine(ctx, exe, [T], b, [Run(PROF, 'transit+action,custom,posted', 1500)], label='u%d' % j)
        except Violation as v:
            v.replay.update(kind='unitrun', head=head, files=files, compiler=c, j=j); raise

def shrink_incl(ctx, t, c):
    """drops include lines that are not needed for the failure (keeps failing with the same first error)"""
    want = first_error(syntax(ctx, 's', t, c)).split('error:')[-1]; lines = t.split('\n'); i = 0
    while i < len(lines):
        if lines[i].startswith('#include'):
            m = syntax(ctx, 's', '\n'.join(lines[:i] + lines[i + 1:]), c)
            if m and first_error(m).split('error:')[-1] == want: del lines[i]; continue
        i += 1
    return '\n'.join(lines)

def replay(ctx):
    d = ctx.replay
    if d['kind'] == 'syntax':
        m = syntax(ctx, 'r', d['source'], d['compiler']); print(m[:2000] or 'compiles now')
        if m: raise Violation('still does not compile', d)
        return
    if d['kind'] == 'small':
        m = run_small(ctx, 'r', d['files'], d['compiler']); print(m or 'holds now')
        if m: raise Violation(m, d)
        return
    exe, err = build_units(ctx, d['j'], d['head'], d['files'], d['compiler'])
    if err: raise Violation(err, d)
    if d['kind'] == 'unitrun':
        open(ctx.dir + '/case', 'w').write('topo 0\n' + d['case'].split('\n', 1)[1])
        r = sh([exe, '--replay', ctx.dir + '/case', '--prof', d['prof']], 100, env=ENV); print(r.stdout)
        if r.returncode: raise Violation(r.stdout, d)
