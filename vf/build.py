"""Build XRTM from the working tree of /repo into /verif/_build/<content hash>."""
import hashlib, os, shutil, subprocess, sys, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BROOT = os.environ.get('VF_BUILD', os.path.join(VERIF, '_build'))
EXC = ['.git', '_build', 'doc', 'src2', 'utils2']

def sh(cmd, cwd=None, env=None, timeout=800):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        sys.stderr.write('build step failed: %s\n%s\n' % (cmd, p.stdout.decode(errors='replace')[-4000:]))
        raise SystemExit(2)
    return p.stdout.decode(errors='replace')

def tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == '.':
            dirs[:] = [d for d in dirs if d not in EXC]
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.o', '.d', '.a', '.so', '.mod', '.pyc')):
                continue
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update((os.path.join(rel, f)).encode())
            with open(p, 'rb') as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:16]

def tree(kind='plain', extra='', targets=('src', 'misc')):
    """Copy and build; returns the directory of the build."""
    d = os.path.join(BROOT, tree_hash() + '-' + kind)
    os.makedirs(BROOT, exist_ok=True)
    if not os.path.exists(d + '/.copied'):
        # keep the cache small
        old = sorted([x for x in glob.glob(BROOT + '/*') if os.path.isdir(x)], key=os.path.getmtime)
        for x in old[:-5]:
            shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ex = ' '.join("--exclude=/" + x for x in EXC)
        sh("rsync -rl -p %s --exclude='*.o' --exclude='*.d' --exclude='*.a' --exclude='*.so' --exclude='*.mod' --exclude=/make.inc %s/ %s/" % (ex, REPO, d))
        mk = open(os.path.join(d, 'make.inc.example')).read()
        mk = mk.replace(' -Werror', '').replace('${HOME}/opt/openblas/lib/libopenblas.a', '-lopenblas').replace('#make_int_python', 'make_int_python')
        import re
        mk = re.sub(r'(?m)^make_int_python.*$', 'make_int_python = 1', mk)
        mk += '\nINCDIRS += -I/usr/include/python3.12 -I/usr/lib/python3/dist-packages/numpy/core/include\n' + extra + '\n'
        open(os.path.join(d, 'make.inc'), 'w').write(mk)
        sh('touch -d 2000-01-01 utils/*.l interfaces/*.def', cwd=d)
        open(d + '/.copied', 'w').write('x')
    for t in targets:
        st = os.path.join(d, '.built-' + t.replace('/', '_'))
        if os.path.exists(st):
            continue
        if t == 'interfaces':
            sh('make -C interfaces xrtm_int_f90.o', cwd=d)
        if t == 'utils':
            if not os.path.exists(d + '/utils/input_yylex.c'):
                sh('flex --header-file=input_yylex.h -oinput_yylex.c input_yylex.l', cwd=d + '/utils')
        sh('make -j8 -C %s all' % t, cwd=d)
        open(st, 'w').write('x')
    return d

def driver(kind='plain', extra='', cflags='-g -O1', wrap=True, src='driver.c', out=None, links=''):
    d = tree(kind, extra)
    s = os.path.join(VERIF, 'harness', src)
    h = hashlib.sha256(open(s, 'rb').read() + (cflags + str(wrap) + links).encode()).hexdigest()[:8]
    exe = os.path.join(d, (out or src.rsplit('.', 1)[0]) + '-' + h)
    if not os.path.exists(exe):
        w = '-DVF_WRAP -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc' if wrap else ''
        sh('gcc -w %s -Isrc -Imisc %s src/libxrtm.a misc/libxrtm_misc.a src/libxrtm.a -lopenblas -lgfortran -lm -fopenmp -lpthread %s -o %s.tmp %s && mv %s.tmp %s'
           % (cflags, s, links, exe, w, exe, exe), cwd=d)
    return exe

def binding_driver(lang, cflags='-g -O1', wrap=True):
    """The driver with every call of the C interface going through a binding of the tree."""
    from . import bindgen
    d = tree('plain', targets=('src', 'misc', 'interfaces'))
    s = os.path.join(VERIF, 'harness', 'driver.c')
    hs = [s] + [os.path.join(VERIF, 'harness', x) for x in ('bindings.def', 'bindings_fd.def')] + [bindgen.__file__]
    h = hashlib.sha256(b''.join(open(x, 'rb').read() for x in hs) + (cflags + str(wrap)).encode()).hexdigest()[:8]
    exe = os.path.join(d, 'driver-%s-%s' % (lang, h))
    if os.path.exists(exe): return exe
    w = os.path.join(d, 'vb-' + lang)
    srcs = bindgen.write(lang, w)
    inc = '-I%s/src -I%s/misc -I%s/interfaces -I%s' % (d, d, d, w)
    py = ''
    if lang == 'py':
        inc += " -I/usr/include/python3.12 -I/usr/lib/python3/dist-packages/numpy/core/include -DVB_PATH='\"%s/interfaces\"'" % d
        py = '-lpython3.12'
    for x in srcs:
        cc = 'g++ -w' if x.endswith('.cpp') else 'gfortran -w -ffree-line-length-none' if x.endswith('.f90') else 'gcc -w'
        sh('%s %s %s -c %s' % (cc, cflags, inc, x), cwd=w)
    wr = '-DVF_WRAP -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc' if wrap else ''
    sh('gcc -w %s %s -include vb_rename.h -c %s -o driver.o %s' % (cflags, inc, s, '-DVF_WRAP' if wrap else ''), cwd=w)
    L = lambda x: os.path.join(d, x)
    sh('g++ %s driver.o %s %s %s %s %s -lopenblas -lgfortran -lm -fopenmp -lpthread %s -o %s.tmp && mv %s.tmp %s'
       % (wr, ' '.join(x.rsplit('.', 1)[0] + '.o' for x in srcs), L('interfaces/libxrtm_interfaces.a'), L('src/libxrtm.a'), L('misc/libxrtm_misc.a'), L('src/libxrtm.a'), py, exe, exe, exe), cwd=w)
    return exe
