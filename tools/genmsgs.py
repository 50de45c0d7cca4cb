"""Generate C++ structs shaped like genmsg's output from a ROS package's .msg/.srv files."""
import os, sys
PRIM = dict(bool='uint8_t', int8='int8_t', uint8='uint8_t', byte='int8_t', char='uint8_t', int16='int16_t', uint16='uint16_t',
            int32='int32_t', uint32='uint32_t', int64='int64_t', uint64='uint64_t', float32='float', float64='double',
            string='std::string', time='ros::Time', duration='ros::Duration')

def parse(text):
    """-> list of sections, each (fields [(type, name)], consts [(type, name, value)])"""
    secs = [([], [])]
    for line in text.splitlines():
        if line.strip() == '---':
            secs.append(([], [])); continue
        code = line.split('#')[0].strip() if 'string' not in line.split('=')[0] or '=' not in line else line.strip()
        if not code: continue
        typ, rest = code.split(None, 1)
        if '=' in rest:
            n, v = rest.split('=', 1); secs[-1][1].append((typ, n.strip(), v.strip()))
        else:
            secs[-1][0].append((typ, rest.strip()))
    return secs

def load(pkgdir):
    msgs, srvs = {}, {}
    for d, out in (('msg', msgs), ('srv', srvs)):
        p = os.path.join(pkgdir, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.' + d):
                out[f[:-4]] = parse(open(os.path.join(p, f)).read())
    return msgs, srvs

def cpp_struct(pkg, name, sec, deps):
    fields, consts = sec
    o = ['template <class ContainerAllocator> struct %s_ {' % name]
    for t, n in fields:
        arr = t.endswith('[]'); b = t[:-2] if arr else t
        if b in PRIM: c = PRIM[b]
        else:
            p, m = b.split('/') if '/' in b else (pkg, b)
            if b == 'Header': p = 'std_msgs'
            deps.add((p, m)); c = '::%s::%s_<ContainerAllocator>' % (p, m)
        init = '' if arr or c.startswith(('std::', 'ros::', '::')) else ' = 0'
        o.append('  %s %s%s;' % ('std::vector<%s>' % c if arr else c, n, init))
        o.append('  typedef %s _%s_type;' % ('std::vector<%s>' % c if arr else c, n))
    for t, n, v in consts:
        if t == 'string': o.append('  static std::string %s() { return "%s"; }' % (n, v))
        else: o.append('  enum { %s = %s };' % (n, v))
    o.append('  typedef std::shared_ptr<%s_> Ptr; typedef std::shared_ptr<const %s_> ConstPtr;' % (name, name))
    o.append('};\ntypedef %s_<std::allocator<void>> %s;\ntypedef std::shared_ptr<%s> %sPtr;' % (name, name, name, name))
    return '\n'.join(o)

HEAD = '#pragma once\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n#include <ros/time.h>\n'

def write(path, s):
    if os.path.exists(path) and open(path).read() == s: return
    open(path, 'w').write(s)

def generate(pkgdir, outdir):
    pkg = os.path.basename(os.path.normpath(pkgdir))
    os.makedirs(os.path.join(outdir, pkg), exist_ok=True)
    msgs, srvs = load(pkgdir)
    def emit(name, body, deps, tail=''):
        inc = ''.join('#include <%s/%s.h>\n' % d for d in sorted(deps))
        write(os.path.join(outdir, pkg, name + '.h'), HEAD + inc + 'namespace %s {\n%s\n%s}\n' % (pkg, body, tail))
    for n, secs in msgs.items():
        deps = set(); emit(n, cpp_struct(pkg, n, secs[0], deps), deps)
    for n, secs in srvs.items():
        deps = set()
        b = cpp_struct(pkg, n + 'Request', secs[0], deps) + '\n' + cpp_struct(pkg, n + 'Response', secs[1], deps)
        emit(n, b, deps, 'struct %s { typedef %sRequest Request; typedef %sResponse Response; typedef Request RequestType; typedef Response ResponseType; Request request; Response response; };\n' % (n, n, n))

if __name__ == '__main__':
    generate(sys.argv[1], sys.argv[2])
