#!/usr/bin/env python3
"""Builds the library from /repo's working tree together with the driver."""
import os, re, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('FNFT_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def config(out):
    cm = open(f'{REPO}/CMakeLists.txt').read()
    def ver(n, d):
        m = re.search(r'FNFT_VERSION_%s\s+"?(\w*)"?' % n, cm); return m.group(1) if m else d
    txt = open(f'{REPO}/include/fnft_config.h.in').read()
    for n, d in (('MAJOR', '0'), ('MINOR', '5'), ('PATCH', '0'), ('SUFFIX', '')):
        txt = txt.replace(f'@FNFT_VERSION_{n}@', ver(n, d))
    on = {'HAVE___THREAD', 'HAVE_PRAGMA_GCC_OPTIMIZE_OFAST'}
    txt = re.sub(r'#cmakedefine (\w+)( \w+)?', lambda m: f'#define {m.group(1)} 1' if m.group(1) in on else f'/* #undef {m.group(1)} */', txt)
    open(f'{out}/fnft_config.h', 'w').write(txt)

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout, cmd

# temporaries that gfortran allocates inside EISCOR (not its allocate statements)
# are told apart from the allocations of the library
HIDDEN = ' && for o in *.o; do case $o in z_poly_roots_modified.o) ;; *) objcopy --redefine-sym malloc=eis_malloc --redefine-sym free=eis_free $o || exit 1;; esac; done'

def build(out, asan=False, manakov=False, low=False, sched=False, mex=False):
    os.makedirs(f'{out}/obj', exist_ok=True)
    os.makedirs(f'{out}/inc', exist_ok=True)
    config(f'{out}/inc')
    inc = [f'-I{out}/inc', f'-I{REPO}/include', f'-I{REPO}/include/private', f'-I{REPO}/include/3rd_party/eiscor', f'-I{REPO}/include/3rd_party/kiss_fft']
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
    srcs = sorted(glob.glob(f'{REPO}/src/*.c') + glob.glob(f'{REPO}/src/private/*.c')) + [f'{REPO}/src/3rd_party/kiss_fft/kiss_fft.c']
    srcs = [s for s in srcs if not s.endswith('_testcases.c')]
    if not manakov: srcs = [s for s in srcs if 'manakov' not in s]
    cov = ['-fsanitize-coverage=trace-pc'] if sched else []   # every basic block is a step of the scheduler
    srcs.sort(key=lambda s: (0 if 'manakov_fscatter' in s else 1, -os.path.getsize(s)))
    drv = [f'{HERE}/driver/{f}' for f in ('core.c', 'api.c', 'low.c', 'man.c', 'mex.c')]
    mexs = sorted(glob.glob(f'{REPO}/matlab/mex_*.c')) if mex else []
    f90 = sorted(glob.glob(f'{REPO}/src/3rd_party/eiscor/**/*.f90', recursive=True))
    jobs, objs = [], []
    for s in srcs + drv + mexs:
        o = f'{out}/obj/' + s.replace('/', '_') + '.o'; objs.append(o)
        opt = ['-O0', '-fcx-limited-range'] if 'manakov_fscatter' in s else ['-O1']
        extra = ([] if manakov else ['-DNO_MANAKOV']) + ([] if low else ['-DNO_LOW']) + ([f'-I{HERE}/driver/mexstub'] if mex else ['-DNO_MEX'])
        if s in mexs: extra.append('-DmexFunction=' + os.path.basename(s)[:-2])
        jobs.append(['gcc', '-std=gnu99' if s in drv + mexs else '-std=c99', '-w', '-g1', *opt, *san, *([] if s in drv else cov), *extra, *inc, '-c', s, '-o', o])
    n = 8; groups = [f90[i::n] for i in range(n)]
    for i, g in enumerate(groups):
        if not g: continue
        od = f'{out}/obj/f{i}'; os.makedirs(od, exist_ok=True)
        objs += [f'{od}/' + os.path.basename(s)[:-4] + '.o' for s in g]
        jobs.append(['sh', '-c', f'cd {od} && gfortran -O1 {" ".join(cov)} -cpp -ffree-line-length-none -w -I{REPO}/include/3rd_party/eiscor -c ' + ' '.join(g) + HIDDEN])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, jobs))
    for rc, txt, cmd in res:
        if rc: sys.stderr.write(' '.join(cmd)[:300] + '\n' + txt[-3000:]); raise SystemExit(3)
    exe = f'{out}/drv'
    rc, txt, _ = run(['gcc', *san, '-o', exe, *objs, '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free', '-lgfortran', '-lm', '-lpthread'])
    if rc: sys.stderr.write(txt[-3000:]); raise SystemExit(3)
    shutil.rmtree(f'{out}/obj')
    return exe

if __name__ == '__main__':
    print(build(sys.argv[1], 'asan' in sys.argv, 'manakov' in sys.argv, 'low' in sys.argv, 'sched' in sys.argv, 'mex' in sys.argv))
