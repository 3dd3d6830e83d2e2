"""What each property's check consists of."""
import os

import charset as cs
import purity
from ir import Program
from ev import Ev
from val import *

TRUSTED = [
    'rustc nightly (parsing, macro expansion, name and type resolution, THIR construction)',
    'the model of nom 4.0.0, regex 1.x and the std functions used (sa/prims.py)',
    'the abstract interpreter and comparison engine in /verif/sa',
]


class Parser:
    """The parser functions of one crate, evaluated abstractly."""

    def __init__(self, path):
        self.prog = Program(path)
        for _ in range(8):
            self.ev = ev = Ev(self.prog) if not hasattr(self, 'ev') else self.ev
            ev.named = self.known_names()
            work = []
            for k, b in self.prog.bodies.items():
                if not ev.is_parser_body(b):
                    continue
                n = []
                for q in b['params'][1:]:
                    t = ev.peel(ev.ty(q['t']))
                    n.append(None if t['k'] in ('int', 'uint') else '?')
                if '?' not in n:
                    work.append((k, tuple(n)))
            self.roots = list(work)
            seen = set()
            while work:
                k = work.pop()
                if k in seen:
                    continue
                seen.add(k)
                r = ev.rule(k)
                work.extend(r.calls)
                if r.error is not None:
                    work.extend(self.variants())
            if ev.hint is None and any(ev.rules[k].error is not None for k in seen):
                # what cannot be analysed is taken to be as nullable as it should be
                ev.hint = self.nullable_names()
                ev.reset()
                continue
            if ev.settle():
                break
        else:
            raise Exception('nullability of the grammar rules does not settle')
        self.rules = {k: ev.rules[k] for k in seen}

    def variants(self):
        """Every parser function that takes a plain enum, at every value of it:
        what an unanalysed function may call."""
        out = []
        for k, b in self.prog.bodies.items():
            if not self.ev.is_parser_body(b):
                continue
            alts = [()]
            for q in b['params'][1:]:
                t = self.ev.peel(self.ev.ty(q['t']))
                if t['k'] in ('int', 'uint'):
                    alts = [a + (None,) for a in alts]
                elif t['k'] == 'adt' and t['p'] in self.prog.adts and not any(
                        v['fields'] for v in self.prog.adts[t['p']]['variants']):
                    n = len(self.prog.adts[t['p']]['variants'])
                    alts = [a + (('adt', t['p'], i, ()),) for a in alts for i in range(n)]
                else:
                    alts = []
            out.extend((k, a) for a in alts)
        return out

    def known_names(self):
        from spec import Spec
        try:
            return set(k[0].split('::')[-1] for k in Spec(self.prog).defs)
        except KeyError:
            return set()

    def nullable_names(self):
        from grammar import firsts_of
        from spec import Spec
        try:
            s = Spec(self.prog)
        except KeyError:
            return {}
        _, n = firsts_of(s)
        return {k[0].split('::')[-1]: v for k, v in n.items()}

    def copies(self, path, key):
        """None if the clone function at key returns its argument."""
        from ev import State
        b = self.prog.bodies[key]
        for i, v in enumerate(self.prog.adts[path]['variants']):
            a = ('adt', path, i, tuple(('opq', 'field %d' % n) for n in range(len(v['fields']))))
            try:
                outs = self.ev.call_body(State(), b, [a], None)
            except Unsupported as x:
                return x.msg
            for o in outs:
                if o.ctl is not None:
                    return 'it may not return'
                w = self.ev.read(o.st, o.val)
                if w[:3] != a[:3] or tuple(self.ev.read(o.st, f) for f in w[3]) != a[3]:
                    return 'variant %s' % v['name']
        return None

    def name(self, key):
        a = [str(x[2]) if x[0] == 'adt' else str(x) for x in key[1] if x is not None]
        return key[0].lstrip(':') + ('<%s>' % ','.join(a) if a else '')


def run(pid, out, rep):
    rep.trusted = list(TRUSTED)
    globals()['check_' + pid](out, rep)


def parser(out, rep, every=False):
    """every: the property is about each function, so one that cannot be analysed
    is a violation; otherwise only the comparisons it takes part in fail."""
    p = Parser(os.path.join(out, 'elm_parser.json'))
    ev = p.ev
    p.bad = [(k, r) for k, r in p.rules.items() if r.error is not None]
    if every:
        unsupported(p, rep)
    rep.info['functions_not_analysable'] = sorted(p.name(k) for k, _ in p.bad)
    rep.info['functions_analysed'] = len(ev.visited)
    rep.info['grammar_rules'] = len(p.rules)
    rep.info['expressions_evaluated'] = ev.stats['exprs']
    rep.info['call_sites_evaluated'] = ev.stats['paths']
    impls(p, rep)
    rep.ob('functions', len(p.rules) >= 60, 'only %d parser functions were found' % len(p.rules))
    return p


def unsupported(p, rep):
    for k, r in p.bad:
        rep.violation('unsupported:' + p.name(k), '%s: %s (%s)' % (p.name(k), r.error.msg, r.error.where))


def impls(p, rep):
    """Implementations that run without being called in the source: copies are
    taken to be exact and destructors to do nothing."""
    for path, names in sorted(p.ev.manual.items()):
        for what, key in sorted(names.items()):
            if what == 'drop':
                rep.violation('destructor:' + path, '%s has a destructor, which is not analysed' % path)
            elif what == 'clone':
                why = p.copies(path, key)
                if why:
                    rep.violation('clone:' + path, 'a copy of %s may differ from the original: %s' % (path, why))


def check_C01(out, rep):
    p = parser(out, rep, True)
    ev = p.ev
    for k, r in sorted(p.rules.items(), key=repr):
        ps = [o.ctl for o in r.panics]
        rep.ob('no-panic:' + p.name(k), not ps, '%s can panic: %s' % (p.name(k), ps))
    for (w, kind), who in sorted(ev.panic_sites.items()):
        rep.ob('site:%s@%s' % (kind, w), not who, '%s at %s is reachable (in %s)' % (kind, w, sorted(who)),
               key='panic:%s:%s' % (kind, ','.join(sorted(who))))
        rep.samples.append('%s %s' % (w, kind))


def base_zero(ev, st, pos):
    """Whether pos can be the position the function was entered at."""
    n = 0
    p = pos
    while p.parent is not None:
        if ev.evlen(st, p)[0] > 0:
            return False
        p = p.parent
    return True


def check_C02(out, rep):
    p = parser(out, rep, True)
    ev = p.ev
    for f, w, kind, n in ev.loops:
        rep.ob('loop:%s:%s' % (f, w), True, '')
    for w, what in ev.nonprogress:
        rep.ob('progress:' + w, False, 'the loop at %s can run for ever: %s' % (w, what))
    # recursion without consumption
    edges = {}
    for k, r in p.rules.items():
        edges[k] = set(ev.first_calls.get(k, ()))
    order, state = [], {}

    def visit(k, path):
        state[k] = 1
        for m in sorted(edges.get(k, ()), key=repr):
            if state.get(m) == 1:
                cyc = path[path.index(m):] + [m] if m in path else [k, m]
                rep.ob('recursion:' + p.name(m), False,
                       'recursion without consuming input: %s' % ' -> '.join(p.name(x) for x in cyc))
            elif m not in state:
                visit(m, path + [m])
        state[k] = 2
    for k in sorted(edges, key=repr):
        if k not in state:
            visit(k, [k])
    for k in edges:
        rep.ob('wellfounded:' + p.name(k), True, '')
    rep.info['loops'] = len(ev.loops)
    rep.info['leading_call_edges'] = sum(len(v) for v in edges.values())


def check_C03(out, rep):
    p = parser(out, rep)
    seen = set()
    for f, w, what in p.ev.effects:
        if (f, what) in seen:
            continue
        seen.add((f, what))
        rep.ob('effect:%s:%s' % (f, what), False, '%s performs %s (%s)' % (f, what, w))
    # functions the interpreter gives up on: by what they name
    if p.bad:
        found, walked = purity.effects(p.prog, [k[0] for k, _ in p.bad])
        for f, w, what in found:
            if (f, what) not in seen:
                seen.add((f, what))
                rep.ob('effect:%s:%s' % (f, what), False, '%s uses %s (%s)' % (f, what, w))
        rep.info['functions_judged_by_what_they_name'] = len(walked)
    for k in p.rules:
        rep.ob('pure:' + p.name(k), True, '')


def check_C04(out, rep):
    p = parser(out, rep)
    for k, r in sorted(p.rules.items(), key=repr):
        rep.ob('outcomes:' + p.name(k), not r.other,
               '%s can answer with something other than success or a plain error: %s' % (p.name(k), [o.val for o in r.other][:3]))
    grammar(out, rep, p, 'C04')


# ---- properties decided by comparison with the reference grammar ------------------
WHITE = ['spaces', 'spaces0', 'spaces_and_newlines', 'helpers::single_line_comment', 'spaces_or_new_lines_and_indent',
         'opt_spaces_or_new_lines_and_indent', 'new_line_and_same_indent']
NAMES = ['lo_name', 'up_name']
CHOICE = ['statement', 'expression', 'term', 'type_']

GROUPS = {
    'C04': ['ast::file', 'statements', 'statement'],
    'C05': ['lo_name', 'up_name', 'function_name', 'module_name', 'type_variable', 'type_constant', 'lower_case',
            'upper_with_dots', 'variable', 'access', 'access_function', 'term', 'record', 'record_update',
            'simplified_record', 'let_binding_target', 'type_record_pair', 'type_record', 'function_signature',
            'function_definition', 'type_declaration', 'type_alias_declaration', 'port_type_declaration'],
    'C06': ['operator', 'operator_or_as', 'op', 'variable', 'binary', 'lo_name'],
    'C07': ['integer', 'float', 'infix_declaration', 'term'],
    'C08': ['character_content', 'character', 'single_string', 'multi_string', 'string', 'term'],
    'C09': WHITE + ['helpers::single_line_comment', 'comment::single_line_comment', 'multi_line_comment', 'comment::comment',
            'spaces_or_new_lines_and_indent', 'statement'],
    'C10': ['lo_name', 'function_name', 'variable', 'lower_case', 'type_variable', 'let_binding_target', 'operator_or_as', 'let_expression', 'case_expression', 'if_expression', 'spaces',
            'spaces_or_new_lines_and_indent', 'import_statement', 'infix_declaration', 'port_module_declaration',
            'effect_module_declaration', 'module_declaration', 'port_type_declaration', 'port_declaration',
            'type_alias_declaration', 'type_declaration', 'binary', 'statement', 'expression'],
    'C11': WHITE,
    'C12': WHITE + ['lambda', 'application_or_var', 'let_binding', 'let_bindings', 'let_expression', 'case', 'cases',
                    'case_expression', 'if_expression', 'binary', 'function_signature', 'function_definition',
                    'function::function', 'list', 'tuple', 'parens', 'record', 'simplified_record',
                    'record_update', 'let_binding_target', 'term', 'expression'],
    'C13': ['list', 'tuple', 'record', 'simplified_record', 'record_update', 'term', 'let_binding_target'],
    'C14': ['application_or_var', 'binary', 'operator_or_as', 'term', 'expression'],
    'C15': ['parens', 'tuple', 'op', 'type_tuple', 'type_', 'type_parameter', 'term'],
    'C16': ['lambda', 'let_binding_target', 'let_binding', 'let_bindings', 'let_expression', 'case', 'cases',
            'case_expression', 'if_expression', 'expression'],
    'C17': ['function_signature', 'function_definition', 'function::function', 'new_line_and_same_indent', 'statement'],
    'C18': ['type_variable', 'type_constant', 'type_tuple', 'type_record_pair', 'type_record_pairs',
            'type_record_constructor', 'type_record', 'type_parameter', 'type_constructor', 'type_', 'type_annotation'],
    'C19': ['all_export', 'function_export', 'constructor_subset_exports', 'constructor_exports', 'type_export',
            'subset_export', 'exports', 'port_module_declaration', 'effect_module_declaration', 'module_declaration',
            'module_name', 'function_name', 'statement'],
    'C20': ['import_statement', 'exports', 'all_export', 'function_export', 'constructor_subset_exports',
            'constructor_exports', 'type_export', 'subset_export', 'module_name', 'function_name', 'statement'],
    'C21': ['infix_declaration', 'port_type_declaration', 'port_declaration', 'type_alias_declaration',
            'type_declaration', 'type_constructor', 'statement'],
    'C22': ['statement', 'term', 'expression', 'type_', 'type_parameter', 'variable', 'string', 'let_binding_target',
            'let_bindings', 'operator_or_as', 'exports', 'comment::comment', 'binary', 'access', 'access_function',
            'float', 'integer', 'parens', 'tuple', 'function::function', 'type_alias_declaration', 'type_declaration',
            'type_tuple', 'type_record', 'record', 'record_update'],
}


def members(g, pid):
    out = set()
    for k in g.spec.defs:
        for n in GROUPS[pid]:
            if k[0] == n or k[0].endswith('::' + n):
                out.add(k)
    return out


def grammar(out, rep, p, pid):
    from grammar import Grammar
    g = Grammar(p)
    mine = members(g, pid)
    reach = g.reach(('ast::file', ()))
    bad = g.verdict(mine)
    for k in sorted(mine & reach, key=repr):
        nm = k[0] + ('<%s>' % ','.join(k[1]) if k[1] else '')
        rep.ob('equal:' + nm, k not in bad, '%s does not do what the reference grammar says: %s' % (nm, bad.get(k)),
               key='rule:' + nm)
        rep.samples.append('%s: %s' % (nm, g.status.get(k)))
    rep.info['rules_of_the_reference_grammar_reached'] = len(reach)
    rep.info['rules_compared_for_this_property'] = len(mine & reach)
    rep.info['product_states_explored'] = sum(n for _, n, _, _ in g.log)
    # outside this property, but nothing is proved about a parser that differs elsewhere
    rep.info['rules_differing_elsewhere'] = sorted(k[0] for k in bad if k not in mine)


def tool(out, rep, name, want):
    import tool as t
    prog = Program(os.path.join(out, 'elm_parser_%s.json' % name))
    t.decide(prog, want, rep, 'elm-parser-' + name)
    # what is printed is the tree: its text comes from the compiler
    for k, b in sorted(prog.bodies.items()):
        if ' as std::fmt::Debug>::fmt' in b['path']:
            rep.ob('derived:' + b['path'], b['derived'], '%s is written by hand' % b['path'])


def check_C23(out, rep):
    import tool as t
    tool(out, rep, 'dump', t.want_dump)


def check_C24(out, rep):
    import tool as t
    tool(out, rep, 'check', t.want_check)


def make(pid):
    def f(out, rep):
        grammar(out, rep, parser(out, rep), pid)
    return f


for _pid in GROUPS:
    if _pid != 'C04':
        globals()['check_' + _pid] = make(_pid)
