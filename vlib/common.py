"""Common parts of all checks: work directory, parallel building, evidence, violations, replay files."""
import concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, tempfile, time, atexit, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = ['-I', REPO + '/include']
NPROC = min(8, os.cpu_count() or 4)
ENGINE = VERIF + '/engine'

class CheckError(Exception): pass

class Violation(Exception):
    def __init__(self, what, replay): self.what = what; self.replay = replay      # replay: json-able dict

def derive(seed, *names):
    return int.from_bytes(hashlib.sha256(('%d|' % seed + '|'.join(map(str, names))).encode()).digest()[:6], 'big')

def sh(cmd, timeout=None, cwd=None, env=None, input=None):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env, input=input, text=True, errors='replace')
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = -999; r.stdout = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''); return r

def pmap(fn, items, workers=NPROC):
    items = list(items)
    if not items: return []
    with cf.ThreadPoolExecutor(workers) as ex: return list(ex.map(fn, items))

class Ctx:
    """One run of one check."""
    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed, self.replay = prop, tier, seed, replay
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        atexit.register(self.cleanup)
        self.level = 'exploration'; self.ev = 0; self.distinct = 0; self.rule = ''; self.samples = []; self.extra = {}; self.assumptions = []
    def cleanup(self):
        if os.environ.get('VERIF_KEEP'): print('kept', self.dir); return
        shutil.rmtree(self.dir, ignore_errors=True)
    def rng(self, *names):
        import random
        return random.Random(derive(self.seed, self.prop, *names))
    def evidence(self, violations):
        cov = dict(evaluations=int(self.ev), distinct_nontrivial=int(self.distinct), rule=self.rule, samples=self.samples[:6]); cov.update(self.extra)
        d = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                 wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        p = VERIF + '/evidence/%s.json' % self.prop
        with open(p + '.tmp', 'w') as f: json.dump(d, f, indent=1)
        os.replace(p + '.tmp', p)

# ---------------------------------------------------------------- building
STD = ['-std=c++17', '-w']
CHART_DEFS = ['-DBOOST_ENABLE_ASSERT_HANDLER']

def compile1(src, obj, flags, cxx='clang++', timeout=600, fallback=True):
    """returns '' or the diagnostics; tries the other compiler before giving up"""
    last = ''
    order = [cxx]
    if fallback: order += ['g++' if cxx == 'clang++' else 'clang++', cxx]
    for c in order:
        r = sh([c] + flags + ['-c', src, '-o', obj], timeout)
        if r.returncode == 0: return ''
        last = r.stdout
    return last or 'compiler failed without a message'

def is_diag(t): return re.search(r'\berror:', t) is not None

def save_replay(ctx, d, name=''):
    d = dict(d); d['property'] = ctx.prop
    text = json.dumps(d, indent=1)
    os.makedirs(VERIF + '/replays', exist_ok=True)
    p = '%s/replays/%s-%s.json' % (VERIF, ctx.prop, hashlib.sha256(text.encode()).hexdigest()[:10])
    with open(p, 'w') as f: f.write(text)
    return p

# how a program ends that broke down on its own: assertion, freed memory, sanitizer, crash (not a kill from outside)
DIED = (43, 44, 45, 46, 47, -4, -6, -7, -8, -11)
