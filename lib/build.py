"""Builds what the checks need from /repo's current working tree: LLVM bitcode for the symbolic engine, and instrumented
native objects of the same sources for replaying the engine's counterexamples. Everything is cached under /verif/build by
content hash; nothing is written to /repo."""
import hashlib, os, subprocess, sys, glob, re, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JL = os.path.join(REPO, 'src/jomlib')
CXX = 'clang++'
WINELIB = '/opt/vp/winelib/include'
DEFS = '''-std=gnu++17 -m64 -fshort-wchar -DWINE_UNICODE_NATIVE -D_REENTRANT -fPIC -DWIN64 -D_WIN64 -D__WIN64 -D__WIN64__ -DWIN32 -D_WIN32
-D__WIN32 -D__WIN32__ -D__WINNT -D__WINNT__ -D__stdcall=__attribute__((ms_abi)) -D__cdecl=__stdcall -D__fastcall=__stdcall
-D_stdcall=__stdcall -D_cdecl=__cdecl -D_fastcall=__fastcall -D__declspec(x)=__declspec_##x
-D__declspec_align(x)=__attribute__((aligned(x))) -D__declspec_allocate(x)=__attribute__((section(x)))
-D__declspec_deprecated=__attribute__((deprecated)) -D__declspec_dllimport= -D__declspec_dllexport= -D__declspec_naked=__attribute__((naked))
-D__declspec_noinline=__attribute__((noinline)) -D__declspec_noreturn=__attribute__((noreturn)) -D__declspec_nothrow=__attribute__((nothrow))
-D__declspec_novtable=__attribute__(()) -D__declspec_selectany=__attribute__((weak)) -D__declspec_thread=__thread -D__int8=char -D__int16=short
-D__int32=int -D__int64=long -D__WINE__ -DQT_CORE_LIB -DQT_NO_CAST_FROM_ASCII -DQT_NO_CAST_TO_ASCII -DQT_NO_DEBUG -DUNICODE'''.split() + [
    '-I' + JL, '-isystem', '/usr/include/x86_64-linux-gnu/qt5', '-isystem', '/usr/include/x86_64-linux-gnu/qt5/QtCore',
    '-isystem', '/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++', '-w', '-I' + WINELIB, '-include', 'msvc_names.h', '-DNDEBUG',
    '-isystem', '/usr/include/wine/wine/windows', '-idirafter', '/usr/include/wine', '-fno-exceptions-placeholder']
DEFS.remove('-fno-exceptions-placeholder')
IRFLAGS = ['-fno-pic', '-fno-pie', '-D__PIC__=2', '-O1', '-g0', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm']
NATFLAGS = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']
MINC = ['-I' + os.path.join(VERIF, 'model')]
REDEF = ['exit', 'fputs', 'puts', 'printf', 'fprintf', 'fwrite', 'putchar', 'fputc', 'putc', 'fflush', 'fopen', 'freopen', 'fclose', 'system', '__errno_location',
         '_ZN16QSystemSemaphoreC1ERK7QStringiNS_10AccessModeE', '_ZN16QSystemSemaphoreD1Ev', '_ZN16QSystemSemaphore7acquireEv', '_ZN16QSystemSemaphore7releaseEi', '_ZNK16QSystemSemaphore5errorEv',
         '_ZN12QDirIteratorC1ERK7QStringRK11QStringList6QFlagsIN4QDir6FilterEES6_INS_12IteratorFlagEE', '_ZN12QDirIterator4nextEv', '_ZNK12QDirIterator7hasNextEv', '_ZNK12QDirIterator8filePathEv', '_ZNK12QDirIterator8fileNameEv', '_ZNK12QDirIterator8fileInfoEv',
         '_ZN16QCoreApplicationC2ERiPPci', '_ZN16QCoreApplicationD2Ev', '_ZN16QCoreApplication9argumentsEv', '_ZN8QProcess17systemEnvironmentEv', '_ZN10QTextCodec17setCodecForLocaleEPS_', '_ZN7QThread5startENS_8PriorityE',
         '_ZN16QCoreApplication19applicationFilePathEv', '_ZN4QDir11currentPathEv', '_ZN6QMutex4lockEv', '_ZN6QMutex6unlockEv', '_ZNK13QElapsedTimer7elapsedEv']

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def readb(p):
    with open(p, 'rb') as f: return f.read()
def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd[:3] + ['...'] + cmd[-3:]), r.stdout.decode(errors='replace')[-3000:]))
    return r.stdout
_memo = {}
def once(key, fn):
    if key not in _memo: _memo[key] = fn()
    return _memo[key]

def toolchain(): return once('tc', lambda: run([CXX, '--version']))
def repo_headers_key():
    def f():
        h = []
        for d in (JL,):
            for p in sorted(glob.glob(d + '/*')):
                if os.path.isfile(p) and not p.endswith('.cpp'): h.append(p.encode() + readb(p))
        return sha(*h)
    return once('hk', f)
def model_headers_key():
    return once('mhk', lambda: sha(*[readb(p) for p in sorted(glob.glob(VERIF + '/model/*.h') + glob.glob(VERIF + '/harness/*.h'))]))

def atomic(dst, make):
    if os.path.exists(dst): return dst
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = dst + '.tmp%d' % os.getpid()
    make(tmp)
    os.rename(tmp, dst)
    return dst

def engine():
    srcs = [VERIF + '/engine/jomsym.cpp', VERIF + '/engine/expr.h']
    key = sha(*[readb(s) for s in srcs])
    def mk(tmp):
        run(['g++', '-O2', '-g1', '-std=c++17', '-I/usr/include/llvm-18', '-I/usr/include/llvm-c-18', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
             '-D__STDC_LIMIT_MACROS', srcs[0], '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
    return atomic('%s/engine/jomsym-%s' % (BUILD, key), mk)

def compile_to(src, native, extra=(), text=None, depkey=''):
    """compile one C++ source (or generated text) to bitcode or to an instrumented object"""
    data = text if text is not None else readb(src)
    flags = (PLAIN if os.path.basename(src) == 'rt_disp.cpp' else DEFS) + (NATFLAGS if native else IRFLAGS) + list(extra)
    key = sha(toolchain(), data, os.path.basename(src), repo_headers_key(), model_headers_key(), depkey, ' '.join(flags))
    dst = '%s/%s/%s-%s.%s' % (BUILD, 'nat' if native else 'bc', os.path.basename(src).replace('.cpp', ''), key, 'o' if native else 'bc')
    def mk(tmp):
        if text is not None:
            d = dst + '.src'; os.makedirs(d, exist_ok=True); p = os.path.join(d, os.path.basename(src))
            with open(p, 'wb') as f: f.write(text)
        else: p = src
        run([CXX] + flags + ['-c', p, '-o', tmp])
        if text is not None: shutil.rmtree(d, ignore_errors=True)
    return atomic(dst, mk)

def jom_units():
    """(name, source path, generated text or None) for every translation unit of jomlib that is part of the Winelib build"""
    def f():
        units = []
        for p in sorted(glob.glob(JL + '/*.cpp')):
            n = os.path.basename(p)[:-4]
            if n == 'jomprocess_qt': continue
            units.append((n, p, None))
        for p in sorted(glob.glob(JL + '/*.h')):
            if b'Q_OBJECT' in readb(p):
                n = 'moc_' + os.path.basename(p)[:-2]
                out = run(['moc', '-DWIN32', '-D_WIN32', '-DQ_OS_WIN', p])
                out = re.sub(rb'#include "[^"]*/(\w+\.h)"', rb'#include "\1"', out)
                units.append((n, n + '.cpp', out))
        return units
    return once('units', f)
def app_units():
    """the translation units of the jom program itself; its main() becomes jom_main()"""
    A = os.path.join(REPO, 'src/app'); v = (readb(A + '/version.txt').decode().strip().split('.') + ['0'] * 3)[:3]
    x = ('-I' + A,) + tuple('-DJOM_VERSION_%s=%s' % (n, k) for n, k in zip(('MAJOR', 'MINOR', 'PATCH'), v)) + ('-Dmain=jom_main',)
    key = sha(*[readb(p) for p in sorted(glob.glob(A + '/*.h'))]); r = []
    for p in sorted(glob.glob(A + '/*.cpp')): r.append((os.path.basename(p)[:-4], p, None, x, key))
    for p in sorted(glob.glob(A + '/*.h')):
        if b'Q_OBJECT' in readb(p):
            n = 'moc_' + os.path.basename(p)[:-2]; out = run(['moc', '-DWIN32', '-D_WIN32', '-DQ_OS_WIN', p])
            r.append((n, n + '.cpp', re.sub(rb'#include "[^"]*/(\w+\.h)"', rb'#include "\1"', out), x, key))
    return r
def notifier_moc_dir():
    d = BUILD + '/gen'; os.makedirs(d, exist_ok=True); p = d + '/moc_qwineventnotifier.cpp'
    if not os.path.exists(p):
        out = run(['moc', '-DWIN32', '-D_WIN32', '-DQ_OS_WIN', '/usr/include/x86_64-linux-gnu/qt5/QtCore/qwineventnotifier.h'])
        with open(p + '.tmp', 'wb') as f: f.write(out)
        os.rename(p + '.tmp', p)
    return d
MODEL_SYM = ['qt_core', 'qt_core2', 'qt_regexp', 'qt_io', 'qt_object', 'rt_common', 'rt_sym', 'std_core', 'winnotifier']
MODEL_NAT = ['rt_common', 'rt_native', 'winnotifier', 'rt_disp']
PLAIN = ['-std=gnu++17', '-fPIC', '-w', '-isystem', '/usr/include/x86_64-linux-gnu/qt5', '-isystem', '/usr/include/x86_64-linux-gnu/qt5/QtCore', '-DQT_CORE_LIB', '-DQT_NO_DEBUG']

def directives(path):
    d = {'exclude': [], 'units': [], 'entries': [], 'app': False}
    for l in readb(path).decode().splitlines():
        m = re.match(r'//\s*@(\w+):\s*(.*)', l)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'exclude': d['exclude'] += v.split()
        elif k == 'app': d['app'] = True
        elif k == 'entry': d['entries'].append(v)
        else: d.setdefault(k, []).append(v)
    return d

def build_pair(harness, tier, native=True, symbolic=True):
    """returns (linked bitcode, native replay binary)"""
    d = directives(harness)
    gen = notifier_moc_dir()
    hx = ['-DTIER=%d' % tier, '-I' + VERIF + '/harness']
    units = [u + ((), '') for u in jom_units() if u[0] not in d['exclude']] + (app_units() if d['app'] else [])
    jobs = []
    with ThreadPoolExecutor(max_workers=10) as ex:
        if symbolic:
            sh = ex.submit(compile_to, harness, False, MINC + hx)
            sj = [ex.submit(compile_to, u[1], False, u[3], u[2], u[4]) for u in units]
            sm = [ex.submit(compile_to, '%s/model/%s.cpp' % (VERIF, m), False, MINC + ['-I' + gen]) for m in MODEL_SYM]
        if native:
            nh = ex.submit(compile_to, harness, True, MINC + hx)
            nj = [ex.submit(compile_to, u[1], True, u[3], u[2], u[4]) for u in units]
            nm = [ex.submit(compile_to, '%s/model/%s.cpp' % (VERIF, m), True, MINC + ['-I' + gen]) for m in MODEL_NAT]
    bc = nat = None
    if symbolic:
        objs = [sh.result()] + [f.result() for f in sm] + [f.result() for f in sj]
        dst = '%s/link/%s-%s.bc' % (BUILD, os.path.basename(harness)[:-4], sha(*objs))
        bc = atomic(dst, lambda tmp: run(['llvm-link-18', '-o', tmp] + objs))
    if native:
        jo = [f.result() for f in nj]; mo = [f.result() for f in nm] + [nh.result()]
        dst = '%s/link/%s-%s.exe' % (BUILD, os.path.basename(harness)[:-4], sha(*(jo + mo + REDEF)))
        def mk(tmp):
            al = tmp + '.o'
            run(['ld', '-r', '-o', al] + jo)
            run(['objcopy'] + sum([['--redefine-sym', '%s=h_%s' % (s, s)] for s in REDEF], []) + [al])
            cmd = [CXX, '-fsanitize=address', '-rdynamic', '-o', tmp, al] + mo
            libs = ['-lQt5Core', '-lpthread', '-ldl']
            r = subprocess.run(cmd + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, LC_ALL='C'))
            if r.returncode:
                # functions of the system that are not modelled: calling them ends a native run without verdict
                o = r.stdout.decode(errors='replace')
                und = sorted(set(re.findall(r"undefined reference to `([A-Za-z_]\w*)'", o)) | set(re.findall(r"hidden symbol `([A-Za-z_]\w*)' isn't defined", o)))
                if not und: raise BuildError('link failed\n' + o[-3000:])
                with open(tmp + '.stubs.c', 'w') as f:
                    f.write('void sym_internal_error(const char *);\n')
                    for u in und: f.write('long %s() { sym_internal_error("not modelled: %s"); return 0; }\n' % (u, u))
                run(['clang', '-w', '-fPIC', '-fno-builtin', '-c', '-o', tmp + '.stubs.o', tmp + '.stubs.c'])
                run(cmd + [tmp + '.stubs.o'] + libs)
                os.remove(tmp + '.stubs.c'); os.remove(tmp + '.stubs.o')
            os.remove(al)
        nat = atomic(dst, mk)
    return bc, nat
