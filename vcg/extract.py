"""Mechanical extraction: /repo headers -> LLVM IR -> normalised IR.

Every run compiles a driver that only *instantiates* the repository's templates
(no repository text is copied), with clang 18 and the host stand-in for SYCL in
/verif/stub.  Nothing of the code is dropped; exception edges are removed
(-fignore-exceptions) and calls to functions listed as intrinsics/contracts are
kept as calls (their bodies are not inlined).
"""
import os, re, subprocess, hashlib, sys, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
FILT = '/usr/bin/llvm-cxxfilt-18'

class ExtractError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise ExtractError('command failed: %s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r.stdout

CFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
          '-Xclang', '-fignore-exceptions', '-ffp-contract=off', '-fno-strict-aliasing', '-w']

def compile_ll(src, out, incs=None):
    incs = incs or [os.path.join(VERIF, 'stub'), os.path.join(VERIF, 'stub_py'), os.path.join(REPO, 'include'), os.path.join(REPO, 'src')]
    run([CLANG] + CFLAGS + sum((['-I', i] for i in incs), []) + ['-S', '-emit-llvm', src, '-o', out])

def demangle(names):
    names = list(names)
    r = subprocess.run([FILT], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split('\n')))

DEF = re.compile(r'^define .*?@("[^"]+"|[\w.$]+)\(')

# library members whose meaning is an assumed contract (see values in exec.py)
STRIP = [
    r'std::vector<.*>::(~?vector|operator\[\]|at|size|empty|begin|end|cbegin|cend|data|front|back|resize|'
    r'push_back|emplace_back|clear|shrink_to_fit|reserve|operator=|assign|swap|capacity|insert|erase|pop_back)(<.*>)?\(',
    r'(void|.*iterator<.*|.*\*) std::(fill|copy|copy_n|fill_n|move|swap_ranges|sort|stable_sort)<',
    r'(.* )?(std|sycl)::(min|max|fmod)[<(]',
    r'sycl::(accessor|local_accessor|host_accessor|buffer|queue|handler)<?.*>?::(~?\w+|operator\[\])(<.*>)?\(',
    r"std::(basic_ostream<.*>::operator<<|endl<|operator<< <|flush<)", r"(.* )?std::(endl|flush|operator<< ?)<", r'votess::vtargs::(operator\[\]|get_\w+)\(', r'votess::vtargref::',
    r'std::thread::', r'std::(__cxx11::)?basic_string<.*>::', r'std::(__cxx11::)?basic_(o|i)?stringstream<.*>::',
    r"std::unordered_map<", r"std::basic_(o|i)?fstream<", r"std::basic_ios<", r"(.* )?std::make_pair<", r"std::pair<.*>::~?pair", r"std::allocator<.*>::~?allocator",
]

def annotate(ll, keep, strip=None, name=lambda d: d):
    """keep: predicate demangled-name -> True if the function stays a call (noinline).
    Functions matching STRIP are library members (noinline); everything else is alwaysinline."""
    strip0 = strip
    strip = [re.compile(s) for s in (STRIP if strip is None else strip)]
    lines = ll.split('\n')
    names = [DEF.match(l).group(1) for l in lines if l.startswith('define')]
    dm = demangle([n.strip('"') for n in names])
    out = []
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('define'):
            n = DEF.match(l).group(1)
            d = dm[n.strip('"')]
            base = re.split(r' (?=[\w:]+::)', d) if strip0 is None else []
            if any(s.match(name(d)) for s in strip) or any(s.match(x) for s in strip for x in base[1:]):
                attr = 'noinline'
            else:
                attr = 'noinline' if keep(d) else 'alwaysinline'
            l = re.sub(r' (#\d+)', r' %s \1' % attr, l, count=1) if re.search(r' #\d+', l) else l.replace(' {', ' %s {' % attr)
        elif l.startswith('attributes #'):
            l = re.sub(r'\b(noinline|alwaysinline|optnone|inlinehint)\b', '', l)
        out.append(l)
        i += 1
    return '\n'.join(out), dm

PASSES = 'always-inline,function(sroa,mem2reg,instsimplify,simplifycfg<no-switch-to-lookup;no-sink-common-insts;keep-loops>,adce,loop-simplify)'

def normalise(src_ll, dst_ll, passes=PASSES):
    run([OPT, '-S', '-passes=' + passes, src_ll, '-o', dst_ll])
