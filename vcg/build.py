"""driver -> verified module"""
import os, re, tempfile, shutil
import extract, ir

def build(driver_text, contracts, workdir, tag='m', incs=None, strip=None):
    src = os.path.join(workdir, tag + '.cpp')
    with open(src, 'w') as f: f.write(driver_text)
    a, b, c = (os.path.join(workdir, '%s.%s.ll' % (tag, x)) for x in 'abc')
    extract.compile_ll(src, a, incs)
    from exec import strip_ret
    rx = [re.compile(x.fn) for x in contracts]
    keep = lambda d: any(r.match(strip_ret(d)) for r in rx)
    t, dm = extract.annotate(open(a).read(), keep, strip, (lambda d: d) if strip is None else strip_ret)
    with open(b, 'w') as f: f.write(t)
    extract.normalise(b, c)
    txt = open(c).read()
    names = set(n.strip('"') for n in re.findall(r'@("[^"]+"|[\w.$]+)\(', txt))
    return ir.Module(txt, extract.demangle(names))
