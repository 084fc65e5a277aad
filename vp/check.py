#!/usr/bin/env python3
"""Driver: decides one property by running CBMC on harnesses linked with /repo's current sources.

usage: check.py PROPERTY [quick|thorough] [--only HARNESS] [--keep]
exit 0: every obligation discharged (or only listed known findings), 1: VIOLATION (replayed natively),
2: no answer (solver limit, encoding error, counterexample that does not reproduce).
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, threading, hashlib, resource, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, VERIF)
T0 = time.time()
ALLOW = ['READDIR', 'STRERROR', 'FORK', 'PRINTF', 'PTHREAD_MUTEX_INIT', 'UMASK', 'GETTID']
CHECKS = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check', '--unwinding-assertions',
          '--no-malloc-may-fail', '--max-field-sensitivity-array-size', '256', '--drop-unused-functions', '--no-self-loops-to-assumptions']
MAXUNW_DEFAULT = 130
CAP = int(os.environ.get('VP_CAP', '0'))  # whole-check wall budget in s

def sh(cmd, timeout=None, cwd=None, env=None, mem=None):
    def pre():
        os.setsid()
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (4 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        except (ValueError, OSError):
            pass
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=pre)
    with RLOCK:
        RUNNING.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return -999, '', 'timeout'
    finally:
        with RLOCK:
            RUNNING.discard(p)

STOP = threading.Event()
RUNNING = set()
RLOCK = threading.Lock()
DEADLINE = {'quick': int(os.environ.get('VP_DL', '780')), 'thorough': 7200}

def stop_all():
    """a violation is confirmed: nothing else can change the answer"""
    STOP.set()
    with RLOCK:
        for p in list(RUNNING):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass

class Ctx:
    def __init__(self, scratch):
        self.s = scratch
        self.src = os.path.join(scratch, 'repo', 'src')
        self.lock = threading.Lock()
        self.extra, self.witnesses = {}, {}
        self.objlocks = {}
        self.index = None

    def mirror(self):
        r = os.path.join(self.s, 'repo')
        for base, dirs, files in os.walk(os.path.join(REPO, 'src')):
            rel = os.path.relpath(base, REPO)
            dirs[:] = [d for d in dirs if d not in ('.libs', 'node_modules')]
            todo = [f for f in files if f.endswith(('.c', '.h'))]
            if todo:
                os.makedirs(os.path.join(r, rel), exist_ok=True)
                for f in todo:
                    shutil.copyfile(os.path.join(base, f), os.path.join(r, rel, f))
        for f in ('config.h', 'build_timestamp.h', 'build_directory.h'):
            p = os.path.join(REPO, f)
            shutil.copyfile(p if os.path.exists(p) else os.path.join(HERE, 'fallback', f), os.path.join(r, f))
        p = os.path.join(r, 'src/lib/rrr-build-config.h')
        if not os.path.exists(p):
            shutil.copyfile(os.path.join(HERE, 'fallback/rrr-build-config.h'), p)

    def substitute(self, specs):
        """scaled constants: [(file, regex, replacement)] applied to the scratch copy"""
        # difference of two pointers into one object, in a form the symbolic executor folds to a constant
        always = {'subst': [('lib/rrr_types.h', r'\(uintptr_t\) a - \(uintptr_t\) b', '(uintptr_t) ((const char *) a - (const char *) b)')]}
        for sp in [always] + specs:
            for f, rx, rep in sp.get('subst', []):
                p = os.path.join(self.src, f)
                if os.path.exists(p):
                    t = open(p).read()
                    open(p, 'w').write(re.sub(rx, rep, t))

    def flags(self):
        r = os.path.join(self.s, 'repo')
        return ['-std=gnu11', '-w', '-I' + os.path.join(HERE, 'shim'), '-I' + HERE, '-I' + self.src, '-I' + self.src + '/lib', '-I' + r,
                '-include', os.path.join(r, 'config.h'), '-include', os.path.join(r, 'build_timestamp.h'),
                '-include', os.path.join(self.src, 'lib/intercept.h'), '-D_XOPEN_SOURCE=700'] + \
               ['-DRRR_INTERCEPT_ALLOW_' + a for a in ALLOW] + self.extra_inc()

    def extra_inc(self):
        return ['-I/usr/include']

    def build_index(self):
        """function name -> files under src/lib that define it (used to follow helpers a change moves elsewhere)"""
        idx = {}
        for base, _, files in os.walk(os.path.join(self.src, 'lib')):
            for f in files:
                if not f.endswith('.c'):
                    continue
                p = os.path.join(base, f)
                for x in extern_defs(p):
                    idx.setdefault(x, []).append(os.path.relpath(p, self.src))
        self.index = idx

    def obj(self, kind, path, defs, is_repo):
        """compile to a goto binary ('g') or native object ('n'); returns (path, error)"""
        key = hashlib.sha1(('%s|%s|%s' % (kind, path, ' '.join(defs))).encode()).hexdigest()[:16]
        out = os.path.join(self.s, 'obj', '%s-%s-%s.o' % (os.path.basename(path)[:-2], kind[0], key))
        with self.lock:
            l = self.objlocks.setdefault(out, threading.Lock())
        with l:
            if os.path.exists(out):
                return out, None
            if os.path.exists(out + '.err'):
                return None, open(out + '.err').read()
            p = path if path.startswith('/') else os.path.join(self.src, path)
            if kind == 'g':
                cmd = ['goto-cc', '-c', '-DVP_CBMC=1'] + self.flags() + defs + [p, '-o', out + '.tmp']
            else:
                cmd = ['gcc', '-c', '-g', '-O0', '-fno-inline', '-fno-builtin', '-fsanitize=address', '-fsanitize=bounds,integer-divide-by-zero',
                       '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=' + kind[1:]] + self.flags() + defs + [p, '-o', out + '.tmp']
            rc, o, e = sh(cmd, timeout=300)
            if rc != 0:
                open(out + '.err', 'w').write((o + e)[-4000:])
                return None, (o + e)[-4000:]
            if kind != 'g' and is_repo:
                sh(['objcopy', '--weaken', out + '.tmp'])
            os.rename(out + '.tmp', out)
            return out, None

RX_DEF = re.compile(r'^(?!static\b|typedef\b|extern\b|#)[A-Za-z_][\w \t\*]*?\b(\w+)[ \t]*\(', re.M)

def extern_defs(p):
    """names of the non-static functions a C file defines"""
    t = open(p, errors='replace').read()
    res = []
    for m in RX_DEF.finditer(t):
        depth, i = 0, m.end() - 1
        while i < len(t):
            c = t[i]
            if c == '(':
                depth += 1
            elif c == ')':
                depth -= 1
                if depth == 0:
                    break
            i += 1
        if t[i + 1:i + 200].lstrip().startswith('{'):
            res.append(m.group(1))
    return res

SYM = {}
def symbols(gb):
    """(functions with a body, functions without) of a goto binary"""
    if '/obj/' in gb: # these do not change
        if gb not in SYM:
            SYM[gb] = symbols_of(gb)
        return SYM[gb]
    return symbols_of(gb)

def symbols_of(gb):
    rc, o, e = sh(['goto-instrument', '--list-goto-functions', gb], timeout=300)
    d, u = set(), set()
    for line in o.splitlines():
        m = re.match(r'^\S+ /\* (\S+?)(, body not available)? \*/$', line.strip())
        if m:
            (u if m.group(2) else d).add(m.group(1))
    return d, u

def defined_here(gb):
    return symbols(gb)[0]

def reachable(gb):
    rc, o, e = sh(['goto-instrument', '--reachable-call-graph', gb], timeout=300)
    r = {'main'}
    for line in o.splitlines():
        m = re.match(r'^(\S+) -> (\S+)$', line.strip())
        if m:
            r |= set(m.groups())
    return r

class Job:
    def __init__(self, ctx, spec, cfg, tier):
        self.ctx, self.spec, self.cfg, self.tier = ctx, spec, cfg, tier
        self.name = spec['id'] + ('-' + cfg['_name'] if '_name' in cfg else ''.join('-%s%s' % (k, v) for k, v in sorted(cfg.items()) if not k.startswith('_')))
        self.res = {'harness': self.name, 'bounds': spec.get('bounds', ''), 'config': {k: v for k, v in cfg.items()}}
        d = re.sub(r'[^\w.-]', '_', self.name)
        self.dir = os.path.join(ctx.s, 'job', d if len(d) < 120 else d[:90] + '_' + hashlib.sha1(self.name.encode()).hexdigest()[:12])
        os.makedirs(self.dir, exist_ok=True)

    def defs(self):
        return ['-D%s=%s' % (k, v) for k, v in self.cfg.items() if not k.startswith('_')] + list(self.spec.get('defs', []))

    def files(self):
        vh = open(os.path.join(HERE, 'vp.h')).read()
        def used(f):
            # only the definitions the file can see the difference of, so that objects can be shared between configurations
            t = vh + open(f).read()
            return [d for d in self.defs() if re.search(r'\b%s\b' % re.escape(d[2:].split('=')[0]), t) or not d.startswith('-D')]
        h = [(os.path.join(VERIF, 'harness', self.spec['file']), self.defs(), False), (os.path.join(HERE, 'rt.c'), used(os.path.join(HERE, 'rt.c')), False)]
        for s in self.spec.get('stubs', []) + ['log', 'libc']:
            f = os.path.join(VERIF, 'stubs', s + '.c')
            h.append((f, used(f) + (['-DVP_OWN_MEMCPY'] if 'memrange' in self.spec.get('stubs', []) else []), False))
        r = [(s, list(self.spec.get('src_defs', [])) + (self.defs() if self.spec.get('defs_to_src') else []), True) for s in self.spec['srcs']]
        return h, r

    def build_goto(self):
        h, r = self.files()
        own, ownall, objs = set(), set(), []
        for f, d, _ in h:
            o, err = self.ctx.obj('g', f, d, False)
            if o is None:
                return 'compile %s: %s' % (f, err)
            own |= set(extern_defs(f)) & defined_here(o)
            if not f.endswith('/libc.c'):
                ownall |= defined_here(o)
            objs.append(o)
        own -= {'__CPROVER_initialize', '__CPROVER__start'}
        nobody = set(self.spec.get('nobody', []))
        # files which another configuration of the same harness was found to need
        r += self.ctx.extra.get(self.spec['id'], [])
        for rnd in range(8):
            robjs = []
            for f, d, _ in r:
                o, err = self.ctx.obj('g', f, d, True)
                if o is None:
                    return 'compile %s: %s' % (f, err)
                # functions the harness replaces
                ov = sorted((own | nobody) & defined_here(o))
                if ov:
                    o2 = o[:-2] + '-ov-' + hashlib.sha1(' '.join(ov).encode()).hexdigest()[:12] + '.o'
                    with self.ctx.lock:
                        lk = self.ctx.objlocks.setdefault(o2, threading.Lock())
                    with lk:
                        if not os.path.exists(o2):
                            cmd = ['goto-instrument']
                            for x in ov:
                                cmd += ['--remove-function-body', x]
                            rc, so, se = sh(cmd + [o, o2 + '.tmp'], timeout=300)
                            if rc != 0:
                                return 'override: ' + so + se
                            os.rename(o2 + '.tmp', o2)
                    o = o2
                robjs.append(o)
            gb = os.path.join(self.dir, 'h.gb')
            rc, so, se = sh(['goto-cc', '--function', 'main'] + objs + robjs + ['-o', gb], timeout=300)
            if rc != 0:
                return 'link: ' + (so + se)[-3000:]
            d, u = symbols(gb)
            reach = reachable(gb)
            und = reach & u
            add = []
            if self.spec.get('auto', True):
                noauto = set(self.spec.get('noauto', [])) | nobody
                for u in sorted(und):
                    if u in noauto:
                        continue
                    fs = self.ctx.index.get(u, [])
                    if len(fs) >= 1:
                        f = fs[0]
                        if f not in NOAUTO and f not in [x[0] for x in r] and f not in add:
                            add.append(f)
            if not add:
                break
            r += [(a, list(self.spec.get('src_defs', [])), True) for a in add]
        if not self.spec.get('defs_to_src'):
            n0 = len(self.spec['srcs'])
            if len(r) - n0 > len(self.ctx.extra.get(self.spec['id'], [])):
                self.ctx.extra[self.spec['id']] = r[n0:]
        self.rfiles, self.hfiles = r, h
        g2 = os.path.join(self.dir, 'h2.gb')
        rc, so, se = sh(['goto-instrument', '--drop-unused-functions', gb, g2], timeout=300)
        if rc != 0:
            return 'drop-unused: ' + (so + se)[-2000:]
        self.gb = g2
        self.und = set(x for x in und if not x.startswith('__CPROVER'))
        self.reach = reach
        self.fns = sorted(set(x.split('$link')[0] for x in reach & d if not x.startswith('__CPROVER') and x not in own))
        self.own = ownall
        return None

    keep_props = None

    def set_keep_props(self):
        rc, o, e = sh(['cbmc', self.gb] + CHECKS + (['--signed-overflow-check'] if self.spec.get('signed') else []) + ['--show-properties', '--json-ui'], timeout=120)
        self.keep_props = []
        for x in json.loads(o):
            for p in x.get('properties', []):
                if not p['description'].startswith('pointer relation'):
                    self.keep_props.append(p['name'])

    def loops(self):
        rc, o, e = sh(['goto-instrument', '--show-loops', self.gb], timeout=120)
        return re.findall(r'^Loop (\S+):', o, re.M)

    def cbmc(self, unwindset, extra, timeout):
        cmd = ['cbmc', self.gb] + CHECKS + ['--unwind', str(self.cfg.get('_unwind', self.spec.get('unwind', 10))), '--object-bits', str(self.spec.get('object_bits', 11)), '--json-ui', '--verbosity', '8'] + list(self.spec.get('flags', [])) + extra
        if self.keep_props is not None and '--property' not in extra:
            for x in self.keep_props:
                cmd += ['--property', x]
        if self.spec.get('signed'):
            cmd += ['--signed-overflow-check']
        if unwindset:
            cmd += ['--unwindset', ','.join('%s:%d' % kv for kv in sorted(unwindset.items()))]
        solver = self.cfg.get('_solver', self.spec.get('solver', 'cadical'))
        if solver in ('cadical', 'minisat2'):
            cmd += ['--sat-solver', solver]
        elif solver:
            cmd += ['--' + solver]
        self.cmd = cmd
        t = time.time()
        rc, o, e = sh(cmd, timeout=timeout, mem=int(self.spec.get('mem_gb', 14)) << 30)
        dt = time.time() - t
        if rc == -999:
            return None, 'timeout after %ds' % timeout, dt
        try:
            js = json.loads(o)
        except Exception:
            return None, 'cbmc rc=%s: %s' % (rc, (o[-1500:] + e[-1500:])), dt
        return js, None, dt

    def run(self):
        t0 = time.time()
        res = self.res
        err = self.build_goto()
        if err:
            res.update(status='error', error=err)
            return self
        fnun = dict(self.spec.get('unwind_fn', {}))
        fnun.update(self.cfg.get('_unwind_fn', {}))
        loops = self.loops()
        uw = {}
        for l in loops:
            fn = l.rsplit('.', 1)[0]
            if fn in fnun:
                uw[l] = fnun[fn]
            elif l.rsplit('.', 1)[0] in self.own:
                uw[l] = self.spec.get('own_unwind', 400)
        for fn in fnun:
            if fn in ('strlen', 'strcmp', 'memcmp', 'memcpy', 'memset', 'strncmp', 'strcasecmp') and fn in self.reach and fn + '.0' not in uw:
                uw[fn + '.0'] = fnun[fn] # from the library of the solver
        for f, n in dict(self.spec.get('recursion', {}), **self.cfg.get('_recursion', {})).items():
            if f in self.fns:
                uw[f] = n
        tmo = self.cfg.get('_timeout', self.spec.get('timeout', 600))
        maxunw = self.spec.get('maxunwind', MAXUNW_DEFAULT)
        solver_t = 0
        if self.spec.get('no_ptr_rel'):
            self.set_keep_props()
        for attempt in range(8):
            left = min(tmo - (time.time() - t0), DEADLINE[self.tier] - (time.time() - T0))
            if STOP.is_set():
                res.update(status='skipped', error='a violation was already confirmed', wall=time.time() - t0)
                return self
            if left < 5:
                res.update(status='inconclusive', error='time limit', wall=time.time() - t0)
                return self
            js, err, dt = self.cbmc(uw, [], left)
            solver_t += dt
            if js is None:
                res.update(status='inconclusive', error=err, wall=time.time() - t0, cmd=' '.join(self.cmd))
                return self
            props, msgs = [], []
            for x in js:
                if 'result' in x:
                    props = x['result']
                if 'messageText' in x:
                    msgs.append(x['messageText'])
            if not props:
                bad = [x['messageText'] for x in js if x.get('messageType') == 'ERROR']
                if not bad and any('VERIFICATION SUCCESSFUL' in m for m in msgs):
                    bad = ['no properties']
                res.update(status='error', error='; '.join(bad) or 'no result', wall=time.time() - t0)
                return self
            covers = [p for p in props if 'VPCOVER' in p['description']]
            unw = [p for p in props if 'unwinding assertion' in p['description']]
            real = [p for p in props if 'VPCOVER' not in p['description'] and 'unwinding assertion' not in p['description']]
            # forming (not using) an out-of-bounds pointer: undefined by the standard, no effect on the compiled code; listed in evidence only
            note = [p for p in real if p['description'].startswith('pointer relation') and p['status'] == 'FAILURE']
            if note:
                res['ub_pointer_arithmetic_notes'] = sorted(set('%s: %s' % (p['property'], p['description']) for p in note))
                if self.keep_props is None:
                    self.set_keep_props()
                    continue
                real = [p for p in real if not p['description'].startswith('pointer relation')]
            fails = [p for p in real if p['status'] == 'FAILURE']
            unwf = [p for p in unw if p['status'] == 'FAILURE']
            if not unwf or (fails and attempt >= 3):
                break
            # raise the bounds of exactly the loops whose unwinding assertion fails
            grew = False
            for p in unwf:
                pid = p['property']
                m = re.match(r'^(.*)\.(unwind|recursion)\.?(\d*)$', pid)
                lid = '%s.%s' % (m.group(1), m.group(3)) if m and m.group(2) == 'unwind' else None
                if lid is None or m.group(2) == 'recursion':
                    lid = m.group(1) if m else None
                if lid is None:
                    continue
                cur = uw.get(lid, self.cfg.get('_unwind', self.spec.get('unwind', 10)))
                if cur < maxunw:
                    uw[lid] = min(maxunw, cur * 2 + 2)
                    grew = True
            if not grew:
                break
            res['escalations'] = res.get('escalations', 0) + 1
        res['unwindset'] = {k: v for k, v in uw.items() if k.rsplit('.', 1)[0] not in self.own}
        res['unwind'] = self.cfg.get('_unwind', self.spec.get('unwind', 10))
        def grab(rx, cast=int):
            for m in reversed(msgs):
                g = re.search(rx, m)
                if g:
                    return cast(g.group(1))
            return None
        res['ssa_steps'] = grab(r'size of program expression: (\d+) steps')
        res['vccs'] = grab(r'Generated (\d+) VCC')
        res['vccs_remaining'] = grab(r'VCC\(s\), (\d+) remaining')
        res['variables'] = grab(r'(\d+) variables')
        res['clauses'] = grab(r', (\d+) clauses')
        res['solver_s'] = round(sum(float(g) for m in msgs for g in re.findall(r'Runtime decision procedure: ([\d.e+-]+)s', m)), 3)
        res['queries'] = sum(1 for m in msgs if re.match(r'^Passing problem to|^Running ', m)) or None
        res['obligations'] = len(real) + len(unw)
        res['discharged'] = sum(1 for p in real + unw if p['status'] == 'SUCCESS')
        res['vp_assertions'] = sorted(set(p['description'] for p in real if p['description'].startswith('VP: ')))
        res['covers'] = len(covers)
        res['covers_reached'] = sum(1 for p in covers if p['status'] == 'FAILURE')
        res['functions'] = self.fns
        res['undefined_as_nondet'] = sorted(u for u in self.und if u not in CBMC_LIB)
        res['cbmc_s'] = round(solver_t, 2)
        self.fails, self.unwf, self.uw = fails, unwf, uw
        self.cov = dict((p['description'], p['status'] == 'FAILURE') for p in covers)
        notcov = [p['description'] for p in covers if p['status'] != 'FAILURE']
        if fails:
            res['status'] = 'failed'
            res['failed'] = [(p['property'], p['description'], '%s:%s' % (p.get('sourceLocation', {}).get('file', ''), p.get('sourceLocation', {}).get('line', ''))) for p in fails]
            self.confirm(fails, tmo)
        elif unwf:
            res['status'] = 'unwind'
            res['failed'] = [(p['property'], p['description'], '') for p in unwf]
            self.confirm(unwf, tmo, hang=True)
        elif covers and len(notcov) == len(covers) and not self.cfg.get('_nocover'):
            res['status'] = 'vacuous'
            res['error'] = 'never reached: ' + '; '.join(notcov)
        elif any(p['status'] not in ('SUCCESS',) for p in real + unw):
            res['status'] = 'inconclusive'
            res['error'] = 'unknown status'
        else:
            res['status'] = 'ok'
            with self.ctx.lock:
                nw = self.ctx.witnesses[self.spec['id']] = self.ctx.witnesses.get(self.spec['id'], 0) + 1
            if any(self.cov.values()) and self.spec.get('witness', True) and (self.tier != 'quick' or nw <= 4):
                self.witness([p for p in covers if p['status'] == 'FAILURE'])
        res['wall'] = round(time.time() - t0, 2)
        return self

    def inputs_of(self, prop, timeout):
        js, err, dt = self.cbmc(self.uw, ['--trace', '--property', prop], timeout)
        if js is None:
            return None, err
        for x in js:
            for p in x.get('result', []):
                if p['property'] == prop and 'trace' in p:
                    vals, raw = [], p['trace']
                    for st in raw:
                        if st.get('stepType') == 'input' and st.get('inputID') == 'vpin':
                            v = st['values'][0]
                            b = v.get('binary')
                            vals.append(int(b, 2) if b else int(v['data']))
                    return vals, None
        return None, 'no trace'

    def native(self):
        """native builds of the same harness with the same real sources"""
        if hasattr(self, 'nat'):
            return self.nat
        self.nat, self.naterr = [], None
        for kind in ('npattern', 'nzero'):
            objs = []
            for f, d, isr in self.hfiles + self.rfiles:
                o, err = self.ctx.obj(kind, f, d, isr)
                if o is None:
                    self.naterr = err
                    return self.nat
                objs.append(o)
            exe = os.path.join(self.dir, 'replay-' + kind)
            rc, so, se = sh(['gcc', '-fsanitize=address', '-Wl,--unresolved-symbols=ignore-all'] + objs + ['-o', exe, '-lm', '-lpthread'] + self.spec.get('libs', []), timeout=300)
            if rc != 0:
                self.naterr = so + se
                return self.nat
            self.nat.append((kind, exe))
        return self.nat

    def replay(self, vals, hang=False):
        inp = os.path.join(self.dir, 'inputs.txt')
        open(inp, 'w').write(''.join('%d\n' % v for v in vals))
        last = ''
        for kind, exe in self.native():
            for fill in (['0xbe', '0', '0xff'] if kind == 'npattern' else ['0', '1']):
                env = dict(os.environ, VP_INPUTS=inp, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=%d:allocator_may_return_null=1:detect_stack_use_after_return=1' % int(fill, 0))
                rc, o, e = sh([exe], timeout=20, env=env)
                last = e[-3000:]
                if rc == -999:
                    if hang:
                        return True, 'does not terminate within 20 s (input above)', exe, env
                    last = 'timeout'
                    continue
                if rc in (0, 77, 78):
                    continue
                return True, 'rc=%s\n%s' % (rc, e[-3000:]), exe, env
        return False, last, None, None

    def confirm(self, fails, tmo, hang=False):
        res = self.res
        res['confirmed'], res['unconfirmed'] = [], []
        fails = sorted(fails, key=lambda p: (0 if p['description'].startswith('VP: ') else 1, p['property']))
        seen = set()
        for p in fails[:40]:
            if p['description'] in seen:
                continue
            if len(res['confirmed']) >= 2 or len(res['unconfirmed']) >= 6:
                break
            seen.add(p['description'])
            vals, err = self.inputs_of(p['property'], tmo)
            if vals is None:
                res['unconfirmed'].append((p['property'], p['description'], 'no trace: %s' % err))
                continue
            ok, detail, exe, env = self.replay(vals, hang)
            if not ok:
                res['unconfirmed'].append((p['property'], p['description'], 'inputs %s did not reproduce natively: %s %s' % (vals[:60], detail[-600:], self.naterr or '')))
                continue
            rd = os.path.join(VERIF, 'replays', self.spec['prop'], self.name)
            os.makedirs(rd, exist_ok=True)
            shutil.copy(os.path.join(self.dir, 'inputs.txt'), os.path.join(rd, 'inputs.txt'))
            shutil.copy(exe, os.path.join(rd, 'replay.exe'))
            with open(os.path.join(rd, 'replay.sh'), 'w') as f:
                f.write('#!/bin/sh\n# %s: %s\ncd "$(dirname "$0")" && VP_INPUTS=inputs.txt ASAN_OPTIONS=%s ./replay.exe\n' % (p['property'], p['description'], env['ASAN_OPTIONS']))
            os.chmod(os.path.join(rd, 'replay.sh'), 0o755)
            with open(os.path.join(rd, 'README'), 'w') as f:
                f.write('property %s\nobligation %s\n%s\nlocation %s\nsolver inputs (in order): %s\nnative result:\n%s\n' % (self.spec['prop'], p['property'], p['description'], p.get('sourceLocation'), vals, detail))
            res['confirmed'].append({'obligation': p['property'], 'what': p['description'], 'inputs': vals[:200], 'replay': os.path.join(rd, 'replay.sh'), 'native': detail[:1500]})

    def witness(self, covers):
        """push one reachability witness of the solver through the native build: it must run and hold there too"""
        p = covers[-1]
        vals, err = self.inputs_of(p['property'], 300)
        if vals is None:
            self.res['witness'] = 'no trace: %s' % err
            return
        ok, detail, exe, env = self.replay(vals)
        if self.nat and not ok:
            self.res['witness'] = {'goal': p['description'], 'inputs': vals[:64], 'native': 'harness holds on the compiled code'}
            self.res['witness_ok'] = 1
        else:
            self.res['witness'] = {'goal': p['description'], 'inputs': vals[:64], 'native': 'DISAGREES: ' + (detail or '')[-400:] + (self.naterr or '')[-800:]}
            self.res['witness_ok'] = 0

NOAUTO = {'lib/log.c'}
CBMC_LIB = set('''malloc calloc realloc free memcpy memset memmove memcmp strlen strcmp strncmp strcpy strncpy strcat strncat strcasecmp strncasecmp strchr strrchr strstr
memchr isdigit isalpha isalnum isspace isupper islower toupper tolower isxdigit abs labs llabs'''.split())

def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('status') == 'open' and k['property'] == prop]

def main():
    prop = sys.argv[1]
    tier = 'quick'
    only, keep, verbose, onlycfg = None, False, False, None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ('quick', 'thorough'):
            tier = x
        elif x == '--only':
            only = a.pop(0)
        elif x == '--cfg':
            onlycfg = a.pop(0)
        elif x == '--keep':
            keep = True
        elif x == '-v':
            verbose = True
    import specs
    todo = [s for s in specs.SPECS if s['prop'] == prop]
    if not todo:
        print('no harness for', prop)
        return 2
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop, dir=os.environ.get('VP_TMP', '/tmp'))
    os.makedirs(os.path.join(scratch, 'obj'))
    ctx = Ctx(scratch)
    rc = 2
    try:
        ctx.mirror()
        ctx.substitute(todo)
        ctx.build_index()
        jobs = []
        for s in todo:
            if only and not re.match(only, s['id']):
                continue
            cfgs = s.get(tier) if s.get(tier) is not None else s.get('quick', [{}])
            for c in cfgs:
                j = Job(ctx, s, dict(c), tier)
                if not onlycfg or re.search(onlycfg, j.name):
                    jobs.append(j)
        jobs.sort(key=lambda j: -(j.cfg.get('_cost', j.spec.get('cost', 10))))
        with ThreadPoolExecutor(int(os.environ.get('VP_JOBS', '8'))) as ex:
            for j in [f for f in ex.map(lambda j: safe(j), jobs)]:
                pass
        rc = report(prop, tier, jobs, verbose)
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print('kept', scratch)
    return rc

def is_known(kf, j, c):
    return [k for k in kf if re.match(k['harness'] + '$', j.spec['id']) and k['what'] in c['what']]

def safe(j):
    try:
        if STOP.is_set():
            j.res.update(status='skipped', error='a violation was already confirmed')
            return j
        j.run()
        if j.res.get('status') in ('failed', 'unwind') and not STOP.is_set():
            kf = known_findings(j.spec['prop'])
            if any(not is_known(kf, j, c) for c in j.res.get('confirmed', [])):
                stop_all()
        elif STOP.is_set() and j.res.get('status') not in ('ok', 'failed', 'unwind'):
            j.res['status'] = 'skipped'
        return j
    except Exception as e:
        import traceback
        j.res.update(status='error', error=traceback.format_exc())
        return j

def report(prop, tier, jobs, verbose):
    rc = 0
    kf = known_findings(prop)
    viol, undecided = 0, []
    for j in jobs:
        r = j.res
        line = '[%s] %s obligations=%s discharged=%s covers=%s/%s wall=%ss solver=%ss esc=%s' % (r.get('status'), r['harness'], r.get('obligations'), r.get('discharged'), r.get('covers_reached'), r.get('covers'), r.get('wall'), r.get('solver_s'), r.get('escalations', 0))
        print(line)
        if verbose:
            print('   undefined:', r.get('undefined_as_nondet'), 'unwindset:', r.get('unwindset'), 'witness:', r.get('witness'), 'vccs', r.get('vccs'), 'vars', r.get('variables'))
        elif r.get('witness_ok') == 0:
            print('   witness:', r.get('witness'))
        st = r.get('status')
        if st in ('ok', 'skipped'):
            continue
        if st in ('failed', 'unwind'):
            for c in r.get('confirmed', []):
                known = is_known(kf, j, c)
                if known:
                    print('KNOWN-FINDING: property=%s %s' % (prop, known[0]['text']))
                    r['known'] = True
                else:
                    viol += 1
                    print('VIOLATION property=%s replay=%s' % (prop, c['replay']))
                    print('   obligation %s: %s inputs=%s' % (c['obligation'], c['what'], c['inputs'][:48]))
                    print('   native: ' + ' | '.join(c['native'].splitlines()[:6]))
                    rc = 1
            if not r.get('confirmed'):
                print('   NOT CONFIRMED:', json.dumps(r.get('unconfirmed'))[:3000])
                rc = rc or 2
        elif st == 'inconclusive':
            # not explored: neither held nor failed; stated here and in the evidence, never counted as discharged
            print('    UNDECIDED (solver limit): %s' % (r.get('error') or '')[-300:])
            undecided.append(r['harness'])
        else:
            print('   ', st, (r.get('error') or '')[-2500:])
            rc = rc or 2
    if undecided and len(undecided) * 2 > len(jobs):
        rc = rc or 2
    # every reachability goal of a harness must be reached in at least one of its configurations
    for sid in sorted(set(j.spec['id'] for j in jobs)):
        cov = {}
        js = [j for j in jobs if j.spec['id'] == sid]
        for j in js:
            for d, v in getattr(j, 'cov', {}).items():
                cov[d] = cov.get(d, False) or v
        miss = [d for d, v in cov.items() if not v]
        if all(j.res.get('status') == 'ok' for j in js) and (miss or not cov):
            print('    vacuous: harness %s never reaches: %s' % (sid, miss))
            rc = rc or 2
    spec_notes = []
    for j in jobs:
        for a in j.spec.get('assume', []) + ['scaled constant: %s -> %s (%s)' % (x[1], x[2], x[0]) for x in j.spec.get('subst', [])]:
            if a not in spec_notes:
                spec_notes.append(a)
    ok = [j.res for j in jobs]
    fns = sorted(set(f for r in ok for f in r.get('functions', []) or []))
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Bounded symbolic execution of the real C sources (goto-cc of /repo working tree, CBMC 6.11 symex, SAT/SMT back end). Each obligation is an assertion shown to hold for every value of the symbolic inputs within the bounds listed per harness; loop bounds are checked by unwinding assertions; counterexamples are replayed on a native ASan build of the same sources before being reported.',
            'harness_runs': len(jobs),
            'obligations': sum(r.get('obligations') or 0 for r in ok),
            'discharged': sum(r.get('discharged') or 0 for r in ok),
            'verification_conditions': sum(r.get('vccs') or 0 for r in ok),
            'solver_time_s': round(sum(r.get('solver_s') or 0 for r in ok), 2),
            'cbmc_time_s': round(sum(r.get('cbmc_s') or 0 for r in ok), 2),
            'functions_encoded': fns,
            'functions_encoded_count': len(fns),
            'reachability_witnesses': sum(r.get('covers_reached') or 0 for r in ok),
            'witnesses_replayed_natively': sum(r.get('witness_ok') or 0 for r in ok),
            'samples': [r.get('witness') for r in ok if r.get('witness_ok')][:6],
            'runs': [{k: v for k, v in r.items() if k not in ('functions', 'cmd', 'witness')} for r in ok],
            'undecided': undecided,
            'exhaustive': False,
        },
        'assumptions': spec_notes + ['logging has empty bodies', 'memory allocation succeeds unless a harness says otherwise', 'x86-64, gcc data model'],
        'wall_s': round(time.time() - T0, 2), 'violations': viol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %s (%.1fs)' % (prop, tier, {0: 'holds within the stated bounds' + (', except undecided: ' + ' '.join(undecided) if undecided else ''), 1: 'VIOLATED', 2: 'NO ANSWER'}[rc], time.time() - T0))
    return rc

if __name__ == '__main__':
    sys.exit(main())
