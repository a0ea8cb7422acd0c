"""/repo's current source -> LLVM IR -> the slice one contract is checked on."""
import os, re, subprocess, hashlib, tempfile, shutil
import ir

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = ['clang++-18', '--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/10', '-std=c++14', '-w', '-O1', '-DNDEBUG', '-D__STDC_LIMIT_MACROS',
       '-D__STDC_FORMAT_MACROS', '-DCANDY_HAVE_RLIMIT', '-Xclang', '-disable-llvm-passes', '-fno-access-control', '-S', '-emit-llvm']


class BuildError(Exception):
    pass


def compile_ir(src, out, extra=()):
    cmd = CXX + list(extra) + ['-I', REPO + '/src', '-I', REPO + '/lib', '-I', VERIF + '/harness', src, '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-3000:])
    return out


def demangle(names):
    names = list(names)
    if not names:
        return {}
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))


NAME = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)')


def resolve(ll, root):
    """a root given as ~REGEX names a function of the repository (or a library template instantiated by it) itself"""
    if not root.startswith('~'):
        return root
    dm = demangle([d.strip('"') for d in re.findall(r'^define [^\n]*?@("[^"]*"|[-a-zA-Z$._0-9]+)\(', open(ll).read(), re.M)])
    for d in sorted(dm):
        if re.search(root[1:], dm[d]):
            return d
    return None


def slice_ir(ll, root, noinline, outdir):
    """Everything reachable from root inlined, except the functions whose (demangled) name matches a noinline regex."""
    text = open(ll).read()
    defs = re.findall(r'^define [^\n]*?@("[^"]*"|[-a-zA-Z$._0-9]+)\(', text, re.M)
    dm = demangle([d.strip('"') for d in defs])
    rx = [re.compile(r) for r in noinline]
    keep = {d for d in dm if d != root and any(r.search(dm[d]) or r.search(d) for r in rx)}
    out = []
    for ln in text.split('\n'):
        if ln.startswith('define'):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            n = m.group(1).strip('"')
            if n == root:
                ln = re.sub(r'^define (?:linkonce_odr|linkonce|internal|weak_odr|weak) ', 'define ', ln)
                ln = re.sub(r' comdat(\([^)]*\))?', '', ln)
            if n in keep:
                ln = re.sub(r' (#\d+)', r' noinline \1', ln, count=1) if re.search(r' #\d+', ln) else ln.replace(' {', ' noinline {')
                ln = ln
        out.append(ln)
    # run every global initialiser as a constructor of its own, so that globalopt can evaluate the constant ones
    inits = [d for d in dm if d.startswith('__cxx_global_var_init')]
    if inits:
        inits.sort(key=lambda d: int(d.rsplit('.', 1)[1]) if '.' in d else 0)
        arr = ', '.join('{ i32, ptr, ptr } { i32 65535, ptr @%s, ptr null }' % d for d in inits)
        for i, ln in enumerate(out):
            if ln.startswith('@llvm.global_ctors'):
                out[i] = '@llvm.global_ctors = appending global [%d x { i32, ptr, ptr }] [%s]' % (len(inits), arr)
    os.makedirs(outdir, exist_ok=True)
    base = os.path.join(outdir, root if len(root) < 80 else hashlib.sha1(root.encode()).hexdigest())
    open(base + '.in.ll', 'w').write('\n'.join(out))
    passes = ('internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),globalopt,globaldce,'
              'function(sroa,early-cse<memssa>,simplifycfg,instsimplify,adce),cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg,instsimplify,adce,loop-simplify),globaldce')
    p = subprocess.run(['opt-18', '-S', '-passes=' + passes, '-inline-threshold=100000000', '-internalize-public-api-list=' + root,
                        base + '.in.ll', '-o', base + '.ll'], capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-2000:])
    os.unlink(base + '.in.ll')
    m = ir.parse_module(open(base + '.ll').read())
    names = set(m.funcs) | set(m.decls)
    return m, demangle(names)
