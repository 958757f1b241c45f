#!/usr/bin/env python3
"""Builds a property's harness from /repo's working tree, runs it over generated cases, reports.

  check.py build                  compile everything once (setup)
  check.py C05 quick|thorough     run one property (VERIF_SEED chooses the cases)
  check.py replay FILE            re-run a saved failing case
"""
import concurrent.futures as cf, glob, hashlib, json, os, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
HARN = os.path.join(HERE, 'harness')
CXX, CC = 'g++', 'gcc'
SAN = ['-fsanitize=address', '-fsanitize=bool,enum,bounds,signed-integer-overflow,return,unreachable,vla-bound,integer-divide-by-zero',
       '-fno-sanitize-recover=all', '-D_GLIBCXX_SANITIZE_VECTOR', '-fno-omit-frame-pointer']
TSAN = ['-fsanitize=thread', '-fno-omit-frame-pointer']   # the property about threads
BASEFLAGS = ['-std=c++17', '-O1', '-g1', '-w']
CXXFLAGS = BASEFLAGS + SAN
INC = ['-I%s/include' % REPO, '-I%s/src_yaml_interface' % REPO, '-I%s/src_json_interface' % REPO]
LUA = os.path.join(REPO, 'src_lua_interface/lua-5.4.6/src')
MEX = os.path.join(HERE, 'harness', 'mex')   # a stand-in for MATLAB's mex.h
SHARDS = 8

from props import PROPS  # id -> dict(src, lua, quick, thorough)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def rd(f):
    with open(f, 'rb') as fh: return fh.read()

_hdr = {}
def headers_key(dirs):
    k = tuple(dirs)
    if k not in _hdr:
        fs = []
        for d in dirs:
            for root, _, names in os.walk(d):
                fs += [os.path.join(root, n) for n in names if n.endswith(('.h', '.hh', '.hpp', '.hxx', '.inl', '.inc', '.tpp'))]
        _hdr[k] = sha(*[x for f in sorted(fs) for x in (f, rd(f))])
    return _hdr[k]

REPO_HDR_DIRS = [os.path.join(REPO, d) for d in ('include', 'src', 'src_yaml_interface', 'src_json_interface', 'src_toml_interface')]

def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError('%s failed:\n%s\n%s' % (what, ' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))

def compile_one(src, flags, key, cc):
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        run([cc] + flags + ['-c', src, '-o', tmp], 'compiling ' + src)
        os.replace(tmp, obj)
    return obj

def ruby_units():
    # a shared library without sanitizers, for the ruby process: the core, the C interface and what the harness needs
    us = []
    for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.cc'))) + [os.path.join(HARN, 'ruby', 'gcx.cc')]:
        fl = BASEFLAGS + ['-fPIC', '-fno-semantic-interposition'] + INC
        us.append((f, fl, sha(rd(f), f, ' '.join(fl), headers_key(REPO_HDR_DIRS)), CXX))
    return us

def repo_units(lua=False, tsan=False, matlab=False):
    us = []
    CXXFLAGS = BASEFLAGS + (TSAN if tsan else SAN)
    for d in ('src', 'src_json_interface', 'src_yaml_interface', 'src_toml_interface') + (('src_lua_interface',) if lua else ()):
        for f in sorted(glob.glob(os.path.join(REPO, d, '*.cc'))):
            fl = CXXFLAGS + INC + (['-I' + LUA] if d == 'src_lua_interface' else [])
            if d in ('src_yaml_interface', 'src_toml_interface'): fl = fl + ['-fno-sanitize=signed-integer-overflow', '-DNDEBUG']  # fkYAML and toml++: intended wraps; their asserts are off as in the repository's build
            us.append((f, fl, sha(rd(f), f, ' '.join(fl), headers_key(REPO_HDR_DIRS + ([os.path.join(REPO, 'src_lua_interface')] if lua and d == 'src_lua_interface' else []))), CXX))
    if matlab:
        f = os.path.join(REPO, 'src_matlab_interface', 'GenericContainerInterface_matlab.cc')
        fl = CXXFLAGS + INC + ['-I' + MEX]
        us.append((f, fl, sha(rd(f), f, ' '.join(fl), headers_key(REPO_HDR_DIRS + [MEX, os.path.dirname(f)])), CXX))
    if lua:
        for f in sorted(glob.glob(LUA + '/*.c')):
            if os.path.basename(f) in ('lua.c', 'luac.c'): continue
            fl = ['-O1', '-g1', '-w', '-fsanitize=%s' % ('thread' if tsan else 'address'), '-DLUA_USE_LINUX', '-DLUA_USE_APICHECK', '-I' + LUA]
            us.append((f, fl, sha(rd(f), f, ' '.join(fl), headers_key([LUA])), CC))
    return us

def harness_units(prop):
    lua = prop.get('lua', False)
    CXXFLAGS = BASEFLAGS + (TSAN if prop.get('tsan') else SAN)
    us = []
    for n in ['core.cc', 'model.cc'] + prop['src']:
        f = os.path.join(HARN, n)
        fl = CXXFLAGS + INC + ['-I' + HARN] + (['-I' + LUA] if lua and n in prop['src'] else []) + (['-I' + MEX] if prop.get('matlab') and n in prop['src'] else [])
        us.append((f, fl, sha(rd(f), f, ' '.join(fl), headers_key(REPO_HDR_DIRS + [HARN] + ([os.path.join(REPO, 'src_lua_interface')] if lua and n in prop['src'] else []))), CXX))
    return us

def build_all(ids):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    todo, per = {}, {}
    for i in ids:
        p = PROPS[i]
        hu, ru = ([], ruby_units()) if p.get('ruby') else (harness_units(p), repo_units(p.get('lua', False), p.get('tsan', False), p.get('matlab', False)))
        per[i] = (hu, ru)
        for u in hu + ru: todo.setdefault(u[2], u)
    order = sorted(todo.values(), key=lambda u: -os.path.getsize(u[0]) if u[3] == CXX else 0)
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = dict(zip([u[2] for u in order], ex.map(lambda u: compile_one(*u), order)))
    def link(i):
        hu, ru = per[i]
        hobj = [objs[u[2]] for u in hu]; robj = [objs[u[2]] for u in ru]
        key = sha(*(hobj + robj))
        exe = os.path.join(BUILD, 'bin', i + '-' + key)
        if not os.path.exists(exe):
            tmp = exe + '.%d' % os.getpid()
            if PROPS[i].get('ruby'): run([CXX, '-shared'] + robj + ['-lm', '-o', tmp], 'linking ' + i)
            else: run([CXX] + (TSAN + ['-pthread'] if PROPS[i].get('tsan') else SAN) + hobj + ['-Wl,--start-group'] + robj + ['-Wl,--end-group', '-lm', '-ldl', '-o', tmp], 'linking ' + i)
            os.replace(tmp, exe)
        return exe
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        return dict(zip(ids, ex.map(link, ids)))

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:symbolize=0:malloc_context_size=4:quarantine_size_mb=16',
           UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:abort_on_error=1', LC_ALL='C', LANG='C', TZ='UTC')

def command(pid, exe):
    # how the harness is started: itself, or ruby with the library and the repository's Ruby file
    if not PROPS[pid].get('ruby'): return [exe], ENV
    return ['ruby', os.path.join(HARN, 'ruby', PROPS[pid]['src'][0])], dict(ENV, GC_LIB=exe, GC_RB=os.path.join(REPO, 'src_ruby_interface', 'GenericContainer_ffi.rb'))

def prune():
    # keep the cache small: drop the oldest objects and binaries
    for sub, lim in (('obj', 1500e6), ('bin', 1500e6)):
        fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(os.path.join(BUILD, sub, '*'))), reverse=True)
        tot = 0
        for _, s, f in fs:
            tot += s
            if tot > lim:
                try: os.remove(f)
                except OSError: pass

def known(pid):
    path = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(path): return []
    return [l.strip() for l in open(path) if l.startswith('known: property=%s ' % pid)]

def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = PROPS[pid]
    cmd, env = command(pid, build_all([pid])[pid])
    t_build = time.time() - t0
    cases = p[tier]
    cap = 300 if tier == 'quick' else 3000
    outdir = os.path.join(BUILD, 'run', '%s-%d' % (pid, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    procs = []
    for s in range(SHARDS):
        rep = os.path.join(HERE, 'replays', '%s-seed%d-shard%d.txt' % (pid, seed, s))
        if os.path.exists(rep): os.remove(rep)
        out = os.path.join(outdir, '%d.json' % s)
        procs.append((s, rep, out, subprocess.Popen(cmd + ['--seed', str(seed), '--shard', str(s), '--cases', str((cases + SHARDS - 1) // SHARDS),
                      '--budget', str(cap), '--out', out, '--replayfile', rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=outdir, start_new_session=True)))
    agg = dict(cases=0, evals=0, nontrivial=0, distinct=0); labels = {}; samples = []; rule = ''
    viol = []; notes = []; errors = []
    first_fail = None
    pending = list(procs)
    while pending:
        for x in list(pending):
            s, rep, out, pr = x
            if pr.poll() is None: continue
            pending.remove(x)
            txt = pr.stdout.read().decode(errors='replace')
            if pr.returncode == 1 and os.path.exists(rep):
                viol.append((s, rep, txt))
                if first_fail is None: first_fail = time.time()
            elif pr.returncode == 3: notes.append('shard %d: a failure that did not reproduce: %s' % (s, txt.strip()[:300]))
            elif pr.returncode != 0: errors.append('shard %d: harness exit %s %s' % (s, pr.returncode, txt[-500:]))
            if os.path.exists(out):
                try: d = json.load(open(out))
                except ValueError:
                    errors.append('shard %d: its report cannot be read' % s); continue
                for k in agg: agg[k] += d.get(k, 0)
                for k, v in d['labels'].items(): labels[k] = labels.get(k, 0) + v
                samples += d['samples'][:2]; rule = d['rule'] or rule
            elif pr.returncode == 0: errors.append('shard %d: no report' % s)
        if first_fail is not None and pending:
            # one minimised reproduction is enough; give the other shards a moment, then stop them
            if time.time() - first_fail > 5:
                for x in pending:
                    try: os.killpg(x[3].pid, signal.SIGKILL)
                    except OSError: pass
                for x in pending: x[3].wait()
                pending = []
        if pending: time.sleep(0.05)
    subprocess.run(['rm', '-rf', outdir])
    for _, rep, txt in viol[1:]:
        try: os.remove(rep)
        except OSError: pass
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=len(viol[:1]),
              coverage=dict(evaluations=agg['cases'], distinct_nontrivial=agg['distinct'], rule=rule, samples=samples[:6],
                            nontrivial=agg['nontrivial'], oracle_comparisons=agg['evals'], labels=dict(sorted(labels.items())),
                            shards=SHARDS, build_s=round(t_build, 2)),
              assumptions=p.get('assumptions', []) + notes)
    if viol: ev['coverage']['failure'] = viol[0][2][:2000]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in known(pid): print('KNOWN-FINDING: ' + k[len('known: '):])
    for n in notes: print('note: ' + n)
    if viol:
        s, rep, txt = viol[0]
        print(txt.strip()[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if not errors and not agg['cases']: errors.append('no case was run')
    if errors:
        print('\n'.join(errors)); return 2
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracle comparisons, held (%.1f s, build %.1f s)' % (pid, tier, seed, agg['cases'], agg['distinct'], agg['evals'], wall, t_build))
    return 0

def main():
    a = sys.argv[1:]
    if a[:1] == ['build']:
        build_all(sorted(PROPS)); prune(); return 0
    if a[:1] == ['replay']:
        pid = [l.split()[1] for l in open(a[1]) if l.startswith('property ')][0]
        cmd, env = command(pid, build_all([pid])[pid])
        return subprocess.call(cmd + ['--replay', os.path.abspath(a[1])] + (['--err', '1'] if '-v' in a else []), env=env)
    if len(a) == 2 and a[0] in PROPS and a[1] in ('quick', 'thorough'):
        r = check(a[0], a[1]); prune(); return r
    print(__doc__); return 2

if __name__ == '__main__':
    sys.dont_write_bytecode = True
    try: sys.exit(main())
    except RuntimeError as e:
        print('ERROR: ' + str(e)); sys.exit(2)
