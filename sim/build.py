#!/usr/bin/env python3
"""Builds the simulator: /repo's current sources, unmodified, compiled to one
relocatable object whose imports are renamed to the simulator's, linked with
the harness.  Everything goes to /verif/.build (ignored by git), keyed by the
contents of the sources, so that a check rebuilds exactly when they change."""
import glob, hashlib, os, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ASM_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.path.join(VERIF, '.build')

GNULIB = """asnprintf basename-lgpl bitrotate c-ctype c-strcasecmp c-strncasecmp dirname-lgpl exitfail
getprogname gl_avltree_list gl_list gl_xlist hash printf-args printf-parse stripslash unistd vasnprintf
xalloc-die xasprintf xmalloc xsize xvasprintf""".split()

# Imports redirected to the simulator.
SHIMS = """malloc calloc realloc reallocarray free aligned_alloc posix_memalign strdup strndup vasprintf asprintf
getdelim getline fopen fopen64 fdopen fclose freopen fflush tmpfile fileno isatty open open64 creat read write
close lseek fsync fdatasync ftruncate truncate unlink remove rename access stat lstat fstat mkstemp tmpnam mkdir
rmdir chmod link symlink chdir system popen fork execv execvp kill raise flock fcntl lockf utimes puts putchar vprintf printf
perror getchar exit _exit abort __assert_fail __stack_chk_fail atexit sleep usleep nanosleep time gettimeofday
clock_gettime clock getpid getppid getenv secure_getenv rand random srand srandom strtok getopt_long
getopt_long_only getopt getcwd stdin stdout stderr getrandom getentropy arc4random setenv unsetenv putenv getuid geteuid umask
gethostname signal sigaction alarm setlocale pread pwrite readv writev mmap munmap open_memstream fmemopen opendir readdir
rewinddir closedir openat unlinkat renameat fchmod futimens utimensat utime stat64 lstat64 fstat64 lseek64 ftruncate64 realpath""".split()

# C library functions that only compute, or only use the streams given to
# them: these run for real inside the simulator.
PURE = set("""memcpy memset memmove memcmp memchr memrchr strlen strnlen strcmp strncmp strcpy strncpy strcat strncat strchr
strrchr strstr strcspn strspn strpbrk stpcpy strerror strtol strtoul strtoll strtoull strtoimax strtoumax strtod strtof strtold
snprintf vsnprintf sprintf vsprintf sscanf fprintf vfprintf fputc putc fputs fwrite fgetc getc fgets fread ungetc ferror feof
clearerr _IO_getc _IO_putc rewind fseek ftell fseeko ftello setvbuf setbuf toupper tolower isalpha isdigit isspace isalnum isxdigit
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc __errno_location qsort bsearch abs labs floor ceil fmod pow
optind optarg opterr optopt strcasecmp strncasecmp frexp frexpl ldexp ldexpl modf rint round trunc fabs isnan isinf
__isoc99_sscanf __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull __isoc23_strtoimax __isoc23_strtoumax
__isoc23_sscanf putc_unlocked getc_unlocked fputc_unlocked fwrite_unlocked fread_unlocked ferror_unlocked
program_invocation_name program_invocation_short_name nl_langinfo localtime gmtime strftime ctime mktime difftime tolower_l fseeko64 ftello64 localeconv explicit_bzero strsep strtok_r strchrnul rand_r atoi atol atof div ldiv sqrt exp log nan nearbyint lround llround copysign ffs abs swab memmem mempcpy rawmemchr strverscmp strcoll strxfrm strsignal fputs_unlocked fgetc_unlocked fgets_unlocked putc_unlocked feof_unlocked clearerr_unlocked flockfile funlockfile getc_unlocked mblen wctomb mbtowc iswprint towlower mbrtowc mbsinit btowc wcslen
__sanitizer_cov_trace_pc _GLOBAL_OFFSET_TABLE_ __longjmp_chk longjmp setjmp _setjmp""".split())

ASM_CFLAGS = ['-std=gnu11', '-DHAVE_CONFIG_H', '-g', '-O1', '-fno-pic', '-fno-pie', '-fcf-protection=none', '-fno-stack-protector',
              '-U_FORTIFY_SOURCE', '-w', '-fno-common', '-fno-builtin-printf', '-fno-builtin-fprintf',
              '-fsanitize-coverage=trace-pc']
CXXFLAGS = ['-std=c++17', '-O1', '-g', '-fno-pie', '-Wall', '-Wextra', '-Wno-unused-parameter', '-Wno-missing-field-initializers']


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stdout.write('build: %s\n%s\n' % (' '.join(cmd), r.stdout))
        raise SystemExit(2)
    return r.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def repo_sources():
    out = []
    for d in ('src', 'dt101', 'gnulib'):
        for ext in ('c', 'h', 'y', 'l'):
            out += glob.glob(os.path.join(REPO, d, '*.' + ext))
    drop = {os.path.join(REPO, 'src', n) for n in ('grammar.c', 'grammar.h', 'lex.c')}
    return [p for p in out if p not in drop]


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    srcs = repo_sources()
    gen = [p for p in glob.glob(os.path.join(SIM, 'gen', '**', '*.h'), recursive=True)]
    key_asm = digest(srcs + gen + [os.path.abspath(__file__)])
    harness = sorted(glob.glob(os.path.join(SIM, '*.cc')))
    headers = sorted(glob.glob(os.path.join(SIM, '*.h')))
    key_h = digest(harness + headers + [os.path.abspath(__file__)])
    exe = os.path.join(BUILD, 'sim-%s-%s' % (key_asm, key_h))
    if os.path.exists(exe):
        return exe, key_asm
    adir = os.path.join(BUILD, 'asm-' + key_asm)
    hdir = os.path.join(BUILD, 'h')
    os.makedirs(hdir, exist_ok=True)
    # stale products of other revisions
    olds = sorted(glob.glob(os.path.join(BUILD, 'sim-*')) , key=os.path.getmtime)
    for p in olds[:-6]:
        os.remove(p)
    for p in sorted(glob.glob(os.path.join(BUILD, 'unk-*')), key=os.path.getmtime)[:-12]:
        os.remove(p)
    olds = sorted(glob.glob(os.path.join(BUILD, 'asm-*')), key=os.path.getmtime)
    for p in olds[:-3]:
        if p != adir: shutil.rmtree(p)
    pool = ThreadPoolExecutor(8)
    jobs = []
    hobjs = []
    for c in harness:
        key = digest([c] + headers + [os.path.abspath(__file__)])
        o = os.path.join(hdir, '%s-%s.o' % (os.path.basename(c)[:-3], key))
        hobjs.append(o)
        if not os.path.exists(o):
            for p in glob.glob(os.path.join(hdir, os.path.basename(c)[:-3] + '-*.o')):
                os.remove(p)
            jobs.append(pool.submit(run, ['g++'] + CXXFLAGS + ['-c', c, '-o', o]))
    asm_o = os.path.join(adir, 'asm.o')
    if not os.path.exists(asm_o):
        if os.path.exists(adir): shutil.rmtree(adir)
        for d in ('src', 'dt101', 'gnulib'):
            os.makedirs(os.path.join(adir, d))
        for p in srcs:
            shutil.copy(p, os.path.join(adir, os.path.basename(os.path.dirname(p)), os.path.basename(p)))
        # Generated headers of gnulib (products of configure), unless the tree has its own.
        for p in gen:
            rel = os.path.relpath(p, os.path.join(SIM, 'gen'))
            dst = os.path.join(adir, rel)
            if rel == 'config.h' or not os.path.exists(dst):
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy(p, dst)
        run(['bison', '-d', '-o', 'src/grammar.c', 'src/grammar.y'], cwd=adir)
        run(['flex', '-o', 'src/lex.c', 'src/lex.l'], cwd=adir)
        inc = ['-I.', '-Isrc', '-Idt101', '-Ignulib']
        main_c = sorted(glob.glob(os.path.join(adir, 'src', '*.c'))) + sorted(glob.glob(os.path.join(adir, 'dt101', '*.c')))
        gl_c = [os.path.join(adir, 'gnulib', n + '.c') for n in GNULIB]
        gl_c = [c for c in gl_c if os.path.exists(c)]
        cc = lambda c: run(['gcc'] + ASM_CFLAGS + inc + ['-c', c, '-o', c[:-2] + '.o'], cwd=adir)
        list(pool.map(cc, main_c + gl_c))
        lib = os.path.join(adir, 'libgnu.a')
        run(['ar', 'rcs', lib] + [c[:-2] + '.o' for c in gl_c])
        comb = os.path.join(adir, 'comb.o')
        run(['ld', '-r', '-o', comb] + [c[:-2] + '.o' for c in main_c] + [lib])
        redir = os.path.join(adir, 'redef')
        with open(redir, 'w') as f:
            f.write('main asm_main\n')
            for s in SHIMS:
                f.write('%s sim_%s\n' % (s, s))
        tmp = os.path.join(adir, 'tmp.o')
        ren = []
        for line in run(['objdump', '-h', comb]).splitlines():
            w = line.split()
            if len(w) >= 2 and w[0].isdigit():
                n = w[1]
                if n == '.data' or n.startswith('.data.') and not n.startswith('.data.rel.ro'):
                    ren += ['--rename-section', n + '=asm_data']
                elif n == '.bss' or n.startswith('.bss.'):
                    ren += ['--rename-section', n + '=asm_bss,alloc,load,data,contents']
                elif n.startswith('.tdata') or n.startswith('.tbss'):
                    sys.stdout.write('build: thread-local data is not supported\n'); raise SystemExit(2)
        run(['objcopy', '--redefine-syms=' + redir] + ren + [comb, tmp])
        unknown = []
        known = {'sim_' + s for s in SHIMS}
        for line in run(['nm', '-u', tmp]).splitlines():
            n = line.split()[-1].split('@')[0]
            if n not in known and n not in PURE:
                unknown.append(n)
        open(os.path.join(adir, 'unknown'), 'w').write('\n'.join(unknown))
        for p in glob.glob(os.path.join(adir, '*', '*.o')):
            os.remove(p)
        os.rename(tmp, asm_o)
    for j in jobs:
        j.result()
    tmpexe = exe + '.tmp'
    run(['g++', '-no-pie', '-o', tmpexe] + hobjs + [asm_o, '-lm', '-Wl,-z,noexecstack'])
    shutil.copy(os.path.join(adir, 'unknown'), exe.replace('/sim-', '/unk-'))
    os.rename(tmpexe, exe)
    return exe, key_asm


if __name__ == '__main__':
    exe, key = build(True)
    print(exe)
    print('unknown imports:', open(exe.replace('/sim-', '/unk-')).read().split())
