"""Effects read off the syntax: used for the functions the interpreter gives up on.

A function is free of effects when neither it nor anything it mentions
 - names a function of std that does input or output, reads the clock or the
   environment, or works with shared or interior-mutable state,
 - names a mutable static or an inline-assembly or raw-pointer operation,
 - names a function of a crate that is not known here.
Naming is taken for calling, so indirect calls need no treatment of their own."""

# everything in these is a function of its arguments
PURE = ('core', 'alloc', 'nom', 'regex', 'memchr', 'aho_corasick', 'regex_syntax')
PURE_STD = ('std::string', 'std::vec', 'std::option', 'std::result', 'std::boxed', 'std::str', 'std::iter', 'std::char',
            'std::clone', 'std::cmp', 'std::ops', 'std::convert', 'std::default', 'std::slice', 'std::collections',
            'std::num', 'std::borrow', 'std::mem', 'std::rc', 'std::fmt', 'std::hash', 'std::any', 'std::error',
            'std::primitive', 'std::usize', 'std::u32', 'std::i32', 'std::u8', 'std::intrinsics', 'std::marker',
            'std::array', 'std::ascii', 'std::range', 'std::panicking', 'std::rt', 'std::panic', 'std::ffi::CStr',
            'std::ffi::OsStr', 'std::path')
IMPURE = ('std::io', 'std::fs', 'std::env', 'std::process', 'std::net', 'std::time', 'std::thread', 'std::sync',
          'std::ptr', 'std::cell', 'std::os', 'std::alloc', 'std::arch', 'std::backtrace', 'std::hash::RandomState',
          'std::collections::HashMap', 'std::collections::HashSet', 'std::collections::hash_map',
          'std::collections::hash_set', 'std::thread_local', 'core::ptr', 'core::cell', 'core::sync',
          'std::mem::transmute', 'std::intrinsics::volatile', 'std::intrinsics::atomic')


def strip(p):
    p = p.lstrip('<')
    while p.startswith('&') or p.startswith("'") or p.startswith('mut '):
        p = p[1:] if p[0] == '&' else p.split(' ', 1)[1] if ' ' in p else p[1:]
    return p


def judge(f):
    """What is wrong with a function that is not part of this crate."""
    for p in [f['p']] + ([f['res']['p']] if f.get('res') else []):
        q = strip(p)
        if any(q == e or q.startswith(e + '::') or q.startswith(e + '<') for e in IMPURE):
            return p
    c = f['crate']
    if c in PURE:
        return None
    if c == 'std':
        q = strip(f['p'])
        if any(q == e or q.startswith(e + '::') for e in PURE_STD):
            return None
    return f['p']


def effects(prog, keys):
    """[(function, place, what)] for the functions with these keys and all they name."""
    out, seen, work = [], set(), list(keys)
    while work:
        k = work.pop()
        if k in seen or k not in prog.bodies:
            continue
        seen.add(k)
        b = prog.bodies[k]
        for x in b['exprs']:
            w = prog.line(x['s'])
            if x['k'] == 'Closure':
                work.append(x['key'])
            elif x['k'] in ('Static', 'NamedConst', 'ConstBlock'):
                if x['k'] == 'Static':
                    t = prog.ty(x['t'])
                    if t['k'] != 'ref' or t['mut']:
                        out.append((k, w, 'use of the mutable static %s' % x['p']))
                if x.get('key'):
                    work.append(x['key'])
                elif x['k'] == 'Static':
                    out.append((k, w, 'use of the static %s' % x['p']))
            elif x['k'] == 'Unsupported':
                out.append((k, w, x['dbg'].split('(')[0].split(' ')[0]))
            elif x['k'] == 'Deref':
                e = b['exprs'][x['e']]
                if prog.ty(e['t'])['k'] == 'ptr':
                    out.append((k, w, 'access through a raw pointer'))
            if x.get('fn') is not None:
                f = prog.fns[x['fn']]
                r = f.get('res')
                keys2 = [y for y in (f['key'], r['key'] if r else None) if y]
                if keys2 and any(y in prog.bodies for y in keys2):
                    work.extend(keys2)
                elif f['ctor'] is None and not (r and r.get('derived')):
                    if f['crate'] == prog.crate:
                        # a trait method: any implementation may be meant
                        impls = [y for y, c in prog.bodies.items() if c['name'] == f['name']]
                        work.extend(impls)
                        if not impls:
                            out.append((k, w, 'a call of %s, which has no body here' % f['p']))
                        continue
                    j = judge(f)
                    if j:
                        out.append((k, w, j))
    return out, seen
