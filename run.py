#!/usr/bin/env python3
"""Solver-based checks for GNOME/msitools.

  run.py check <property> [--tier quick|thorough] [--only ENTRY] [--keep]

Each harness in harness/<property>_*.c #includes the real sources from /repo
and states the property as CHECK()s over symbolic inputs.  A run
  1. regenerates the generated sources (bison, glib-mkenums) in a scratch dir,
  2. compiles every harness with goto-cc against the current /repo,
  3. lets CBMC decide every CHECK / memory-safety / unwinding assertion, and
     demands that every WITNESS is reachable (vacuity guard),
  4. replays each counterexample natively (gcc + ASan, same harness, same real
     sources, real glib) before reporting it as a VIOLATION.
Exit 0: held on everything explored.  Exit 1: a confirmed violation.
Exit 2: no verdict (solver timeout, unconfirmed counterexample, build error).
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, argparse, shlex, signal, threading, glob
from concurrent.futures import ThreadPoolExecutor
import resource

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '7'))
MEM = int(os.environ.get('VERIF_MEM_GB', '9')) << 30

GLIB_INC = ['-I/usr/include/glib-2.0', '-I/usr/lib/x86_64-linux-gnu/glib-2.0/include',
            '-I/usr/include/libgsf-1', '-I/usr/include/libxml2', '-I/usr/include/libgcab-1.0']

def sh(cmd, timeout=None, mem=None, env=None, cwd=None):
    """run, capture, kill the whole process group on timeout -> (rc, out, err)"""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                         preexec_fn=pre, env=env, cwd=cwd)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return 'timeout', '', ''

def generate(scratch):
    """sources the real build generates, from the current tree"""
    g = os.path.join(scratch, 'gen')
    os.makedirs(g)
    open(g + '/config.h', 'w').write(
        '#pragma once\n#define PACKAGE_NAME "msitools"\n#define PACKAGE_VERSION "0"\n#define PACKAGE_STRING "msitools"\n'
        '#define GETTEXT_PACKAGE "msitools"\n#define LOCALEDIR "/l"\n#define DATADIR "/d"\n')
    for ext, sub in (('h', 'include'), ('c', 'libmsi')):
        t = f'{REPO}/{sub}/libmsi-enums.{ext}.etemplate'
        rc, o, e = sh(['glib-mkenums', '--template', t, f'{REPO}/include/libmsi-types.h'])
        if rc != 0: raise SystemExit('glib-mkenums failed: ' + e)
        open(f'{g}/libmsi-enums.{ext}', 'w').write(o)
    y = f'{REPO}/libmsi/sql-parser.y'
    rc, o, e = sh(['bison', '-d', '-o', g + '/sql-parser.c', y], cwd=g)
    if rc != 0: raise SystemExit('bison failed: ' + e)
    return g

def vala(g):
    """the C the Vala compiler makes of tools/msiextract.vala, as the real build does"""
    if os.path.exists(g + '/msiextract.c'): return
    rc, o, e = sh(['valac', '-C', '--enable-experimental', '--target-glib', '2.12', '--vapidir=' + V + '/model', '--vapidir=' + REPO] +
                  sum([['--pkg', p] for p in ('gobject-2.0', 'gio-2.0', 'glib-2.0', 'gio-unix-2.0', 'libgcab-1.0', 'posix', 'config', 'libmsi-1.0')], []) +
                  ['-d', g, REPO + '/tools/msiextract.vala'], cwd=g, timeout=120)
    if rc != 0: raise SystemExit('valac failed: ' + e[-1500:])

def vala_wixl(g):
    """the C of wixl's sources"""
    if os.path.exists(g + '/wixl/msi.c'): return
    os.makedirs(g + '/wixl')
    rc, o, e = sh(['valac', '-C', '--enable-experimental', '-H', 'wixl.h', '--use-header', '--vapidir=' + V + '/model', '--vapidir=' + REPO] +
                  sum([['--pkg', p] for p in ('posix', 'config', 'gio-2.0', 'libxml-2.0', 'libmsi-1.0', 'libgcab-1.0')], []) +
                  ['-d', g + '/wixl'] + [f'{REPO}/tools/wixl/{f}.vala' for f in ('builder', 'msi', 'msi-default', 'preprocessor', 'util', 'wix')], cwd=g + '/wixl', timeout=120)
    if rc != 0: raise SystemExit('valac failed: ' + e[-1500:])

RUN = re.compile(r'^\s*//@\s*run\s+(.*)$', re.M)

class Job:
    def __init__(self, path, line):
        self.path = path
        w = shlex.split(line)
        self.entry = w[0]
        self.opt = dict(unwind='8', tier='quick', timeout='400', defs='', flags='', solver='', checks='mem', name='', covers='', srcs='',
                        engine='cbmc', lib='', workers='1', steps='', enum='', uninit='1')
        for kv in w[1:]:
            k, v = kv.split('=', 1)
            if k not in self.opt: raise SystemExit(f'{path}: unknown option {k}')
            self.opt[k] = v
        self.name = self.opt['name'] or self.entry
        self.unwind = int(self.opt['unwind'])
        self.status = None      # held / violated / inconclusive
        self.note = ''
        self.failed = []
        self.props = 0
        self.witnesses = 0
        self.functions = set()
        self.solver_s = 0.0
        self.queries = 0
        self.wall = 0.0
        self.vars = 0
        self.nobody = set()
        self.paths = self.insts = 0
        self.engine = self.opt['engine']
        self.workers = int(self.opt['workers'])

def harness_files(prop):
    d = os.path.join(V, 'harness')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.startswith(prop + '_') and f.endswith('.c'))

def jobs_for(prop, tier):
    out = []
    for f in harness_files(prop):
        for m in RUN.finditer(open(f).read()):
            j = Job(f, m.group(1))
            t = j.opt['tier']
            if t == 'quick' or t == tier: out.append(j)
    return out

class Runner:
    def __init__(self, prop, tier, scratch, deadline):
        self.prop, self.tier, self.scratch, self.deadline = prop, tier, scratch, deadline
        self.gen = generate(scratch)
        if any('msiextract.c' in open(f).read() for f in harness_files(prop)): vala(self.gen)
        if any('gen:wixl' in open(f).read() for f in harness_files(prop)): vala_wixl(self.gen)
        self.replays = 0
        self.bc = {}
        self.nat = {}
        self.lock = threading.Lock()
        self.slots = JOBS
        self.cond = threading.Condition()

    def inc(self):
        return ['-I' + V + '/model', '-I' + self.gen, '-I' + REPO, '-I' + REPO + '/libmsi', '-I' + REPO + '/include', '-I' + REPO + '/tools'] + GLIB_INC

    def goto_cc(self, job):
        out = os.path.join(self.scratch, re.sub(r'\W', '_', job.name) + '.gb')
        defs = shlex.split(job.opt['defs'])
        srcs = [job.path] + [V + '/model/' + m for m in ('glib.c', 'gobject.c', 'alloc.c')]
        srcs += [s if s.startswith('/') else f'{V}/model/{s}' for s in job.opt['srcs'].split(',') if s]
        rc, o, e = sh(['goto-cc', '-D__CPROVER__', '-DG_DISABLE_CAST_CHECKS', '-DENTRY=' + job.entry, '-o', out]
                      + defs + self.inc() + srcs, timeout=180)
        if rc != 0:
            job.status, job.note = 'inconclusive', 'goto-cc failed: ' + (e + o)[-1500:]
            return None
        return out

    def cbmc_cmd(self, job, gb, extra=()):
        c = ['cbmc', gb, '--function', job.entry, '--unwind', str(job.unwind), '--unwinding-assertions',
             '--unwindset', 'sym_fill.0:4000', '--drop-unused-functions', '--no-malloc-may-fail', '--json-ui', '--verbosity', '8', '--object-bits', '10']
        ck = job.opt['checks']
        if ck == 'none':
            c += ['--no-standard-checks', '--unwinding-assertions']
        else:
            c += ['--no-pointer-primitive-check', '--no-undefined-shift-check', '--no-signed-overflow-check', '--no-div-by-zero-check']
            if 'ovf' in ck: c.remove('--no-signed-overflow-check')
            if 'div' in ck: c.remove('--no-div-by-zero-check')
            if 'shift' in ck: c.remove('--no-undefined-shift-check')
        if job.opt['solver']: c += ['--sat-solver', job.opt['solver']]
        return c + shlex.split(job.opt['flags']) + list(extra)

    def left(self):
        return self.deadline - time.time()

    def solve(self, job):
        need = min(job.workers, JOBS)
        with self.cond:
            while self.slots < need: self.cond.wait()
            self.slots -= need
        t0 = time.time()
        try:
            if job.engine == 'msym': self._msym(job)
            else: self._solve(job)
        except Exception as ex:   # never mistake a broken run for a pass
            job.status, job.note = 'inconclusive', f'{type(ex).__name__}: {ex}'
        finally:
            with self.cond:
                self.slots += need
                self.cond.notify_all()
        job.wall = time.time() - t0

    def _solve(self, job):
        gb = self.goto_cc(job)
        if not gb: return
        for attempt in range(4):
            tmo = min(float(job.opt['timeout']), self.left())
            if tmo < 5:
                job.status, job.note = 'inconclusive', 'time budget exhausted'
                return
            rc, o, e = sh(self.cbmc_cmd(job, gb), timeout=tmo, mem=MEM)
            if rc == 'timeout':
                job.status, job.note = 'inconclusive', f'solver timeout after {tmo:.0f}s'
                return
            try:
                data = json.loads(o)
            except ValueError:
                job.status, job.note = 'inconclusive', f'cbmc rc={rc}: ' + (o + e)[-600:]
                return
            res = None
            for item in data:
                if 'result' in item: res = item['result']
                t = item.get('messageText', '')
                m = re.match(r'Runtime Solver: ([\d.e-]+)s', t)
                if m: job.solver_s += float(m.group(1)); job.queries += 1
                m = re.match(r'(\d+) variables, (\d+) clauses', t)
                if m: job.vars = max(job.vars, int(m.group(1)))
                m = re.match(r"no body for (?:function|callee) (\S+)", t)
                if m: job.nobody.add(m.group(1))
            if rc not in (0, 10) or res is None or any(r['status'] not in ('SUCCESS', 'FAILURE') for r in res):
                job.status, job.note = 'inconclusive', f'cbmc rc={rc} without a verdict: ' + ' '.join(i.get('messageText', '') for i in data[-4:])[:600]
                return
            wit = [r for r in res if 'WITNESS ' in r['description']]
            rest = [r for r in res if 'WITNESS ' not in r['description']]
            unw = [r for r in rest if r['status'] == 'FAILURE' and 'unwinding assertion' in r['description']]
            bad = [r for r in rest if r['status'] == 'FAILURE' and 'unwinding assertion' not in r['description']]
            job.props = len(rest)
            job.witnesses = len(wit)
            job.functions = {(os.path.relpath(r['sourceLocation'].get('file', ''), REPO), r['sourceLocation'].get('function', ''))
                             for r in res if r['sourceLocation'].get('file', '').startswith(REPO + '/')}
            if bad:
                self.confirm(job, gb, bad)
                return
            if unw:
                if attempt < 3:
                    job.unwind *= 2
                    continue
                job.status, job.note = 'inconclusive', 'unwinding bound too small: ' + unw[0]['property']
                return
            dead = [r['description'] for r in wit if r['status'] != 'FAILURE']
            if dead or not wit:
                job.status, job.note = 'inconclusive', 'vacuous: unreachable ' + '; '.join(dead)
                return
            job.status = 'held'
            return


    # ------------------------------------------------------------ msym
    def lib_sources(self, job):
        """real sources linked into the harness: lib=all,-table.c or lib=table.c,string.c"""
        if not job.opt['lib']: return []
        al = sorted(glob.glob(REPO + '/libmsi/*.c')) + [self.gen + '/sql-parser.c', self.gen + '/libmsi-enums.c']
        out = []
        for w in job.opt['lib'].split(','):
            if w == 'all': out += al
            elif w.startswith('-'): out = [f for f in out if os.path.basename(f) != w[1:]]
            elif w.startswith('gen:'): out.append(self.gen + '/' + w[4:])
            elif w.startswith('/') or '/' in w: out.append(os.path.join(REPO, w))
            else: out += [f for f in al if os.path.basename(f) == w]
        return out

    def once(self, cache, key, fn):
        with self.lock:
            ev = cache.get(key)
            mine = ev is None
            if mine: ev = cache[key] = [threading.Event(), None]
        if mine:
            try: ev[1] = fn()
            finally: ev[0].set()
        ev[0].wait()
        return ev[1]

    def bitcode(self, src, defs):
        def build():
            out = os.path.join(self.scratch, f'bc{len(self.bc)}_{abs(hash((src, defs)))}.bc')
            rc, o, e = sh(['clang', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fno-builtin', '-emit-llvm', '-c', '-DMSYM', '-U_FORTIFY_SOURCE',
                           '-D_FILE_OFFSET_BITS=64', '-DG_DISABLE_CAST_CHECKS'] + shlex.split(defs) + self.inc() + [src, '-o', out], timeout=120)
            return (out, None) if rc == 0 else (None, f'clang failed on {src}: ' + (e + o)[-1500:])
        return self.once(self.bc, (src, defs), build)

    def _msym(self, job):
        srcs = [(job.path, job.opt['defs'] + ' -DENTRY=' + job.entry)] + [(V + '/model/' + m, '') for m in ('libc.c', 'glib.c', 'gobject.c', 'gsf.c')]
        srcs += [(s if s.startswith('/') else f'{V}/model/{s}', '') for s in job.opt['srcs'].split(',') if s]
        srcs += [(s, '') for s in self.lib_sources(job)]
        with ThreadPoolExecutor(4) as ex: parts = list(ex.map(lambda a: self.bitcode(*a), srcs))
        for p, err in parts:
            if err: job.status, job.note = 'inconclusive', err; return
        base = os.path.join(self.scratch, re.sub(r'\W', '_', job.name))
        # models give way to the real definition of the same function
        rc, o, e = sh(['llvm-link-18', '-o', base + '.l.bc', parts[0][0]] + [p for p, _ in parts[5:]] + sum([['--override', p] for p, _ in parts[1:5]], []), timeout=120)
        if rc == 0:
            rc, o, e = sh(['opt', '-passes=internalize,globaldce,function(sroa,simplifycfg,instsimplify,early-cse,simplifycfg)', '-internalize-public-api-list=' + job.entry, base + '.l.bc', '-o', base + '.bc'], timeout=120)
        if rc != 0: job.status, job.note = 'inconclusive', 'link failed: ' + (e + o)[-1500:]; return
        tmo = min(float(job.opt['timeout']), self.left())
        if tmo < 5: job.status, job.note = 'inconclusive', 'time budget exhausted'; return
        cmd = [engine(), base + '.bc', job.entry, '-o', base + '.json', '--time', str(tmo), '--workers', str(min(job.workers, JOBS))]
        if job.opt['steps']: cmd += ['--steps', job.opt['steps']]
        if job.opt['enum']: cmd += ['--enum', job.opt['enum']]
        if job.opt['uninit'] == '0': cmd += ['--no-uninit']
        rc, o, e = sh(cmd, timeout=tmo + 90, mem=MEM)
        if rc != 0: job.status, job.note = 'inconclusive', f'msym rc={rc}: ' + (o + e)[-800:]; return
        if e.strip(): job.note = e.strip()[-600:]
        ds = [json.load(open(base + '.json'))]
        n = ds[0]['incomplete'].pop('parts', 0)
        for i in range(n):
            f = f'{base}.json.{i}'
            if os.path.exists(f): ds.append(json.load(open(f))); os.unlink(f)
            else: ds[0]['incomplete'][f'part {i} missing'] = 1
        inc, wit, exp, errs, checks = {}, {}, set(), [], {}
        for d in ds:
            for k, v in d['incomplete'].items(): inc[k] = inc.get(k, 0) + v
            for k, v in d['witnesses'].items(): wit[k] = wit.get(k, 0) + v
            for k, v in d['checks'].items(): checks[k] = checks.get(k, 0) + v
            exp |= set(d['expected'])
            errs += d['errors']
            job.paths += d['paths'] + d['ended']; job.insts += d['instructions']; job.queries += d['queries']; job.solver_s += d['solver_s']
            for fn in d['functions']:
                a, b = fn.rsplit(':', 1)
                if a.startswith(REPO + '/') or a.startswith(self.gen): job.functions.add((os.path.relpath(a, REPO) if a.startswith(REPO) else 'generated/' + os.path.basename(a), b))
        job.props = len(checks) + 1      # + memory safety
        job.witnesses = len(wit)
        notes = [k for k in inc if k.startswith('note:')]
        inc = {k: v for k, v in inc.items() if not k.startswith('note:')}
        if errs:
            self.confirm_msym(job, errs)
            return
        if inc:
            job.status = 'inconclusive'
            job.note += ' incomplete: ' + '; '.join(f'{k} (x{v})' for k, v in list(inc.items())[:4])
            return
        dead = sorted(exp - set(wit))
        if dead or not wit:
            job.status, job.note = 'inconclusive', 'vacuous: unreachable ' + '; '.join(dead)
            return
        job.status = 'held'

    def native_cc(self, src, defs, san):
        def build():
            out = os.path.join(self.scratch, f'n{len(self.nat)}_{abs(hash((src, defs, tuple(san))))}.o')
            rc, o, e = sh(['gcc', '-w', '-O1', '-g', '-D_FILE_OFFSET_BITS=64', '-DREPLAY', '-DG_DISABLE_CAST_CHECKS', '-U_FORTIFY_SOURCE', '-fno-builtin-write'] + san + shlex.split(defs) + self.inc() + ['-c', src, '-o', out], timeout=180)
            return (out, None) if rc == 0 else (None, e[-1500:])
        return self.once(self.nat, (src, defs, tuple(san)), build)

    def native_msym(self, job, san):
        tag = 'asan' if san else 'plain'
        exe = os.path.join(self.scratch, re.sub(r'\W', '_', job.name) + '.' + tag)
        if os.path.exists(exe): return exe
        main = os.path.join(self.scratch, 'main_' + job.entry + '.c')
        open(main, 'w').write(f'void {job.entry}(void);\n#include <stdio.h>\nint main(void){{{job.entry}();fprintf(stderr,"REPLAY-END\\n");return 0;}}\n')
        srcs = [(job.path, job.opt['defs'] + ' -DENTRY=' + job.entry), (main, ''), (V + '/model/gobject.c', ''), (V + '/model/gsf.c', '')]
        srcs += [(s if s.startswith('/') else f'{V}/model/{s}', '') for s in job.opt['srcs'].split(',') if s]
        srcs += [(s, '') for s in self.lib_sources(job)]
        with ThreadPoolExecutor(7) as ex: parts = list(ex.map(lambda a: self.native_cc(a[0], a[1], san), srcs))
        for p, err in parts:
            if err: job.note = 'native build failed: ' + err; return None
        return self.link_native(job, exe, [p for p, _ in parts], san)

    def link_native(self, job, exe, objs, san):
        stubs = exe + '_stubs.c'
        open(stubs, 'w').write('')
        for i in range(2):
            rc, o, e = sh(['gcc', '-w', '-Wl,-z,muldefs'] + san + ['-o', exe] + objs + [stubs, '-lglib-2.0'], timeout=180)
            if rc == 0: return exe
            # functions of the library no harness path may reach
            und = re.findall(r"undefined reference to `(\w+)'|hidden symbol `(\w+)' isn't defined", e)
            und = sorted({x or y for x, y in und})
            open(stubs, 'w').write('#include <stdio.h>\n#include <unistd.h>\n' + ''.join(
                f'void {u}(void) {{ fprintf(stderr, "REPLAY-UNMODELLED {u}\\n"); _exit(79); }}\n' for u in und))
        job.note = 'native link failed: ' + e[-1500:]
        return None

    def confirm_msym(self, job, errs):
        notes = []
        order = {'check': 0, 'memory': 1, 'abort': 2, 'hang': 3, 'div': 4, 'uninit': 5}
        errs.sort(key=lambda r: order.get(r['kind'], 9))
        seen = {}
        for r in errs:
            k = (r['kind'], r['msg'], r['loc'])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > 3 or len(seen) > 8: continue
            san = [] if r['kind'] == 'uninit' else ['-fsanitize=address', '-fno-omit-frame-pointer']
            exe = self.native_msym(job, san)
            if not exe: notes.append(job.note); break
            d = os.path.join(V, 'evidence', 'replay', f'{self.prop}-{job.name}')
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, f'{r["kind"]}_{len(seen)}_{seen[k]}.vals')
            open(f, 'w').write('\n'.join(str(v) for v in r['inputs']) + '\n')
            ok, how = self.replay(exe, f, valgrind=not san)
            if ok:
                txt = f[:-5] + '.txt'
                open(txt, 'w').write(
                    f'property {self.prop}\nharness {os.path.relpath(job.path, V)} entry {job.entry} defs {job.opt["defs"]}\n'
                    f'solver: {r["kind"]}: {r["msg"]} ({r["loc"]})\nstack: {r["stack"]}\n'
                    f'inputs (order of sym_*() calls): {" ".join(map(str, r["inputs"]))}\n'
                    f'replayed against {REPO}: {how}\n'
                    f'again: {V}/run.py replay {self.prop} {job.name} {f}\n')
                job.failed.append((f'{r["kind"]}: {r["msg"]} at {r["loc"]} [{r["stack"]}]', txt, how))
                job.status = 'violated'
                return
            notes.append(f'{r["kind"]} {r["msg"]} at {r["loc"]} [{r["stack"]}] inputs {r["inputs"][:12]}: not reproduced natively: {how}')
        job.status, job.note = 'inconclusive', 'counterexample(s) not confirmed: ' + '\n'.join(notes)

    def native(self, job):
        if job.engine == 'msym': return self.native_msym(job, ['-fsanitize=address', '-fno-omit-frame-pointer'])
        exe = os.path.join(self.scratch, re.sub(r'\W', '_', job.name) + '.exe')
        if os.path.exists(exe): return exe
        defs = shlex.split(job.opt['defs'])
        main = os.path.join(self.scratch, 'main_' + job.entry + '.c')
        open(main, 'w').write(f'void {job.entry}(void);\n#include <stdio.h>\nint main(void){{{job.entry}();fprintf(stderr,"REPLAY-END\\n");return 0;}}\n')
        srcs = [s if s.startswith('/') else f'{V}/model/{s}' for s in job.opt['srcs'].split(',') if s]
        obj = exe[:-4] + '.o'
        san = ['-g', '-fsanitize=address', '-fno-omit-frame-pointer']
        cc = ['gcc', '-w', '-O1', '-D_FILE_OFFSET_BITS=64', '-DREPLAY', '-DG_DISABLE_CAST_CHECKS', '-DENTRY=' + job.entry] + san + defs + self.inc()
        objs = []
        for i, src in enumerate([job.path, main, V + '/model/gobject.c'] + srcs):
            objs.append(f'{exe[:-4]}_{i}.o')
            rc, o, e = sh(cc + ['-c', src, '-o', objs[-1]], timeout=180)
            if rc != 0:
                job.note = 'native build failed: ' + e[-1500:]
                return None
        return self.link_native(job, exe, objs, san)

    def confirm(self, job, gb, bad):
        exe = self.native(job)
        notes = []
        # own CHECKs first, then memory safety
        bad.sort(key=lambda r: 0 if 'CHECK ' in r['description'] else 1)
        for r in bad[:6]:
            tmo = min(float(job.opt['timeout']) * 2, self.left())
            if tmo < 5: notes.append('no time left to build the trace'); break
            rc, o, e = sh(self.cbmc_cmd(job, gb, ['--trace', '--property', r['property']]), timeout=tmo, mem=MEM)
            vals = None
            try:
                for item in json.loads(o):
                    for x in item.get('result', []):
                        if x['property'] == r['property'] and 'trace' in x:
                            vals = self.values(x['trace'])
            except (ValueError, TypeError):
                pass
            if vals is None:
                notes.append(f'{r["property"]}: no trace ({rc})')
                continue
            d = os.path.join(V, 'evidence', 'replay', f'{self.prop}-{job.name}')
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, re.sub(r'\W', '_', r['property']) + '.vals')
            open(f, 'w').write('\n'.join(str(v) for v in vals) + '\n')
            if not exe:
                notes.append(job.note)
                continue
            ok, how = self.replay(exe, f)
            if ok:
                txt = f[:-5] + '.txt'
                open(txt, 'w').write(
                    f'property {self.prop}\nharness {os.path.relpath(job.path, V)} entry {job.entry} defs {job.opt["defs"]}\n'
                    f'solver: {r["property"]}: {r["description"]} ({r["sourceLocation"].get("file")}:{r["sourceLocation"].get("line")})\n'
                    f'inputs (order of sym_*() calls): {" ".join(map(str, vals))}\n'
                    f'replayed against {REPO}: {how}\n'
                    f'again: {V}/run.py replay {self.prop} {job.name} {f}\n')
                job.failed.append((r['description'], txt, how))
                job.status = 'violated'
                return
            notes.append(f'{r["property"]} ({r["description"]}): not reproduced natively: {how}')
        job.status, job.note = 'inconclusive', 'counterexample(s) not confirmed: ' + ' | '.join(notes)

    @staticmethod
    def values(trace):
        vals = []
        for s in trace:
            if s.get('stepType') == 'input' and s.get('inputID') == 'symv':
                v = s['values'][0]
                if 'binary' in v: vals.append(int(v['binary'], 2))
                else: vals.append(int(re.match(r'-?\d+', v['data']).group(0)))
        return vals

    def replay(self, exe, vals, valgrind=False):
        self.replays += 1
        how = ''
        if valgrind:
            env = dict(os.environ, SYM_REPLAY=vals, G_SLICE='always-malloc', LC_ALL='C.UTF-8', TZ='UTC')
            rc, o, e = sh(['valgrind', '-q', '--error-exitcode=98', '--undef-value-errors=yes', '--partial-loads-ok=yes', exe], timeout=120, env=env, cwd=self.scratch)
            if rc == 98: return True, 'valgrind: ' + ' '.join(l.split('== ')[-1].strip() for l in e.splitlines() if l.startswith('=='))[:400]
            if rc == 42: return True, ([l for l in e.splitlines() if 'REPLAY-VIOLATION' in l] or ['REPLAY-VIOLATION'])[-1]
            return False, f'valgrind exit {rc}: ' + e.strip()[-200:]
        for fill in (0xbe, 0, 0xff, 1):
            env = dict(os.environ, SYM_REPLAY=vals, G_DEBUG='', G_MESSAGES_DEBUG='', LC_ALL='C.UTF-8', TZ='UTC',
                       ASAN_OPTIONS=f'detect_leaks=0:abort_on_error=0:exitcode=99:malloc_fill_byte={fill}:max_malloc_fill_size=65536:strict_string_checks=0:allocator_may_return_null=1:max_allocation_size_mb=13')
            rc, o, e = sh([exe], timeout=30, env=env, cwd=self.scratch)
            if rc == 77: how = [l for l in e.splitlines() if 'REPLAY-ASSUME' in l][-1]; continue
            if os.environ.get('MS_STDERR'): sys.stderr.write(e)
            if rc == 42:
                return True, ([l for l in e.splitlines() if 'REPLAY-VIOLATION' in l] or ['REPLAY-VIOLATION'])[-1]
            if rc == 99:
                m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', e)
                fr = re.findall(r'#\d+ 0x\S+ in (\S+) (\S+)', e)[:3]
                return True, 'AddressSanitizer: ' + (m.group(1) if m else '?') + ' ' + ' < '.join(f'{a} {b}' for a, b in fr)
            if rc == 'timeout': return True, 'does not terminate within 30 s'
            if isinstance(rc, int) and rc < 0: return True, f'killed by signal {-rc}'
            how = f'exit {rc}: ' + e.strip()[-200:]
        return False, how

def engine():
    """the msym binary, (re)built from engine/ when missing or out of date"""
    import fcntl
    d = os.path.join(V, 'engine')
    with open(os.path.join(d, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o, e = sh(['make', '-s', '-C', d, '-j4'], timeout=600)
        if rc != 0: raise SystemExit('cannot build the engine: ' + e[-2000:])
    return os.path.join(d, 'msym')

def load_known():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def check(prop, tier, only=None, keep=False):
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', '820' if tier == 'quick' else '6000'))
    scratch = tempfile.mkdtemp(prefix='verif-' + prop + '-')
    shutil.rmtree(os.path.join(V, 'evidence', 'replay'), ignore_errors=True) if os.environ.get('VERIF_CLEAN') else None
    rc = 2
    try:
        r = Runner(prop, tier, scratch, t0 + budget)
        jobs = [j for j in jobs_for(prop, tier) if not only or j.name == only or j.entry == only]
        if not jobs: raise SystemExit('no harness for ' + prop)
        names = [j.name for j in jobs]
        assert len(set(names)) == len(names), 'duplicate job names'
        if any(j.engine == 'msym' for j in jobs): engine()
        with ThreadPoolExecutor(32) as ex:
            list(ex.map(r.solve, jobs))
        known = {e: w for p, e, w in load_known() if p == prop}
        viol, incon, findings = [], [], []
        for j in jobs:
            line = f'{j.name}: {j.status} checks={j.props} witnesses={j.witnesses} ' + (f'paths={j.paths} insts={j.insts} queries={j.queries}' if j.engine == 'msym' else f'unwind={j.unwind} vars={j.vars}') + f' solver={j.solver_s:.1f}s wall={j.wall:.1f}s'
            if j.name in known:
                # an entry that drives exactly the listed input: it is expected to fail
                if j.status == 'violated': findings.append((j, known[j.name]))
                elif j.status == 'inconclusive': incon.append(j)
                line += ' (known-finding probe)'
            elif j.status == 'violated': viol.append(j)
            elif j.status != 'held': incon.append(j)
            print(line)
            if j.nobody: print('  unmodelled:', ' '.join(sorted(j.nobody)))
            if j.note: print('  ' + j.note.replace('\n', '\n  '))
            for d, f, how in j.failed: print(f'  FAILED {d}\n  replay: {how}')
        for j, w in findings:
            print(f'KNOWN-FINDING: property={prop} {w}')
        for j in viol:
            print(f'VIOLATION property={prop} replay={j.failed[0][1]}')
        rc = 1 if viol else 2 if incon else 0
        fn = sorted({f'{a}:{b}' for j in jobs for a, b in j.functions})
        ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other',
                  coverage=dict(
                      explanation='Bounded symbolic execution of the real sources of ' + REPO + ' as of this run (engine cbmc: CBMC 6.11 with a SAT solver; engine msym: '
                                  'path-wise execution of the LLVM bitcode with z3 deciding every branch, bound and assertion): every assertion was shown to hold for all '
                                  'values of the symbolic inputs within the bounds given per harness, or a counterexample was replayed natively. cbmc: unwinding assertions show '
                                  'the loop bounds sufficient; msym: all feasible paths were followed to their end. Witnesses show each harness reaches its checks.',
                      obligations=sum(j.props for j in jobs), discharged=sum(j.props for j in jobs if j.status == 'held'),
                      checker_cmd='cbmc --unwinding-assertions / engine/msym (see run.py)',
                      functions_encoded=fn, solver_queries=sum(j.queries for j in jobs),
                      solver_seconds=round(sum(j.solver_s for j in jobs), 2), witnesses_reached=sum(j.witnesses for j in jobs if j.status == 'held'),
                      counterexamples_replayed=r.replays,
                      harnesses=[dict(name=j.name, engine=j.engine, file=os.path.relpath(j.path, V), unwind=j.unwind if j.engine == 'cbmc' else None, paths=j.paths, instructions=j.insts, queries=j.queries, defs=j.opt['defs'], status=j.status,
                                      covers=j.opt['covers'], assertions=j.props, sat_variables=j.vars, solver_s=round(j.solver_s, 2), wall_s=round(j.wall, 2),
                                      unmodelled=sorted(j.nobody), note=j.note) for j in jobs]),
                  assumptions=assumptions(prop), wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
        print(f'{prop} {tier}: {"VIOLATED" if viol else "INCONCLUSIVE" if incon else "held"} in {time.time() - t0:.1f}s')
    finally:
        if not keep: shutil.rmtree(scratch, ignore_errors=True)
        else: print('scratch', scratch)
    return rc

def assumptions(prop):
    out = ['malloc does not fail (--no-malloc-may-fail)', 'glib/gobject/libgsf functions behave as modelled in model/*.c', 'logging output is not modelled']
    for f in harness_files(prop):
        out += re.findall(r'^\s*//@\s*assume\s+(.*)$', open(f).read(), re.M)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay'])
    ap.add_argument('prop')
    ap.add_argument('rest', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    if a.cmd == 'check':
        sys.exit(check(a.prop, a.tier, a.only, a.keep))
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        r = Runner(a.prop, 'thorough', scratch, time.time() + 600)
        j = [j for j in jobs_for(a.prop, 'thorough') if j.name == a.rest[0]][0]
        exe = r.native(j)
        if not exe: print(j.note); sys.exit(2)
        ok, how = r.replay(exe, os.path.abspath(a.rest[1]))
        print('reproduced' if ok else 'not reproduced', how)
        sys.exit(1 if ok else 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    main()
