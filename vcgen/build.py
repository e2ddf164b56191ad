"""harness .cpp (which includes the real headers of /repo) -> LLVM IR"""
import os, re, subprocess, hashlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
INC = ['-I%s/include' % REPO, '-I%s/harness/stub' % HERE, '-I/usr/include/eigen3']
CFLAGS = ['-std=c++17', '-w', '-DNDEBUG'] + INC
IRFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-strict-aliasing',
           '-fno-discard-value-names', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm']
F1 = 'sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>'
PIPE = 'function(%s),cgscc(inline,function(%s)),globaldce,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify)' % (F1, F1)


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + r.stderr[:3000])
    return r.stdout


def compile_with(go):
    """a header of the tree may rely on standard headers its users include"""
    try:
        return go([])
    except BuildError as e:
        try:
            return go(['-include', os.path.join(HERE, 'harness', 'std.h')])
        except BuildError:
            raise e


def build_ir(src, extra=(), tag=''):
    """returns the path of the inlined IR of all entries in src"""
    os.makedirs(BUILD, exist_ok=True)
    base = os.path.join(BUILD, os.path.basename(src)[:-4] + tag)
    compile_with(lambda more: run(['clang++-18'] + CFLAGS + list(extra) + more + IRFLAGS + [src, '-o', base + '.0.ll']))
    txt = open(base + '.0.ll').read()
    ents = re.findall(r'^define .*?@(vc_\w+)\(', txt, re.M)
    txt = '\n'.join(l for l in txt.split('\n') if not l.startswith(('@llvm.global_ctors', '@llvm.used', '@llvm.compiler.used')))
    open(base + '.0.ll', 'w').write(txt)
    run(['opt-18', '-S', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(ents), base + '.0.ll', '-o', base + '.1.ll'])
    # disable_tail_calls marks the functions a harness asks to keep (taken by contract)
    txt = '\n'.join(l if '"disable-tail-calls"="true"' in l else l.replace(' noinline ', ' ') for l in open(base + '.1.ll').read().split('\n'))
    open(base + '.1.ll', 'w').write(txt)
    run(['opt-18', '-S', '-passes=' + PIPE, '-inline-threshold=1000000', base + '.1.ll', '-o', base + '.ll'])
    for s in ('.0.ll', '.1.ll'):
        os.unlink(base + s)
    return base + '.ll'
