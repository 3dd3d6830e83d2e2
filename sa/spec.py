"""The reference grammar: what the parser is required to accept and to build.

Every rule is named after the function of the code base it specifies."""
import charset as cs
import rx
from val import *
from peg import *

AZ = cs.rng('a', 'z')
UP = cs.rng('A', 'Z')
D = cs.rng('0', '9')
WORD = cs.union(cs.union(AZ, UP), cs.union(D, cs.of('_')))
HEX = cs.union(D, cs.union(cs.rng('a', 'f'), cs.rng('A', 'F')))
OPCH = cs.of('-+/*=.$<>:&|^?%#@~!')
NOTNL = cs.compl(cs.of('\n'))
WS = cs.of(' \t\r\n')
RESERVED = ['module', 'where', 'import', 'as', 'exposing', 'type', 'alias', 'port', 'if', 'then', 'else',
            'let', 'in', 'case', 'of']
RESERVED_OPS = ['=', '.', '..', '->', '--', '|', ':']

H = 'ast::helpers::'
X = 'ast::expression::'
S = 'ast::statement::'
Y = 'ast::type_::'


class Spec:
    def __init__(self, prog):
        self.prog = prog
        self.names = {}
        for p, d in prog.adts.items():
            if d['local']:
                self.names.setdefault(p.split('::')[-1], []).append(p)
        self.defs = {}
        self.rules = {}
        self.define()

    # ---- values ------------------------------------------------------------
    def ctor(self, name, variant, /, *fields, **named):
        ps = self.names.get(name)
        if not ps or len(ps) != 1:
            raise KeyError('type %s' % name)
        d = self.prog.adts[ps[0]]
        for i, v in enumerate(d['variants']):
            if v['name'] == variant or variant is None:
                if named:
                    fields = tuple(named[f] for f in v['fields'])
                return ('adt', ps[0], i, tuple(fields))
        raise KeyError('%s::%s' % (name, variant))

    # ---- rules ---------------------------------------------------------------
    def add(self, name, nparams, p, spec=(), group=None):
        self.defs[(name, tuple(spec))] = (nparams, p)

    def rule(self, key):
        r = self.rules.get(key)
        if r is None:
            n, p = self.defs[key]
            r = rule(key, p, n)
            r.nparams = n
            self.rules[key] = r
        return r

    def define(self):
        add = self.add
        E = lambda v, *a: self.ctor('Expression', v, *a)
        T = lambda v, *a: self.ctor('Type', v, *a)
        ST = lambda v, *a: self.ctor('Statement', v, *a)
        EX = lambda v, *a: self.ctor('ExportSet', v, *a)
        i = lambda e: e['i']
        N = lambda k: (lambda e: aslin(e[k]))

        # ---- names, operators, blanks ------------------------------------------
        word = lambda first: txt(seqp(cls(first), many(WORD, 0)))
        add(H + 'lo_name', 0, alt(lit('_'), notin(word(AZ), RESERVED)))
        add(H + 'function_name', 0, call(H + 'lo_name'))
        add(H + 'up_name', 0, word(UP))
        add(H + 'module_name', 0, sep1(cls('.'), call(H + 'up_name')))
        add(H + 'operator', 0, notin(many(OPCH, 1), RESERVED_OPS))
        add(H + 'spaces', 0, many(' ', 1))
        add(H + 'spaces0', 0, many(' ', 0))
        add(H + 'spaces_and_newlines', 0, many(' \n', 1))
        comment = seqp(lit('--'), B('x', many(NOTNL, 0)), val=lambda e: e['x'])
        add(H + 'single_line_comment', 0, comment)
        nl = seqp(cls('\n'), B('s', many(' ', 0)),
                  val=lambda e: lin_add(addr(e['s$']), addr(e['s^']), -1))
        rels = {'EQ': lambda a, b: Test(lambda e: lin_add(a(e), b(e), -1), '=='),
                'GT': lambda a, b: Test(lambda e: lin_add(lin_add(a(e), b(e), -1), num(-1)), '>='),
                'GTE': lambda a, b: Test(lambda e: lin_add(a(e), b(e), -1), '>=')}
        for rel, t in rels.items():
            zero = lambda e: num(0)
            lead = [opt(many(' ', 1)), opt(comment)]
            lines = star(seqp(cls('\n'), many(' ', 0), opt(comment), ahead(cls('\n'))))
            add(H + 'spaces_or_new_lines_and_indent', 1, alt(
                # one or more line ends: the last line decides
                seqp(*lead, lines, B('r', nl), fails(comment), fails(cls('\n')), t(N('r'), i), val=lambda e: e['r']),
                seqp(*lead, lines, nl, comment, fails(cls('\n')), t(zero, i), val=lambda e: num(0)),
                # all on one line
                seqp(many(' ', 1), fails(comment), fails(cls('\n')), val=i),
                seqp(opt(many(' ', 1)), comment, fails(cls('\n')), val=lambda e: num(0)),
            ), (rel,))
            add(H + 'opt_spaces_or_new_lines_and_indent', 1, alt(
                call(H + 'spaces_or_new_lines_and_indent', i, rel), seqp(val=i)), (rel,))
        add(H + 'new_line_and_same_indent', 1,
            seqp(B('r', nl), rels['EQ'](N('r'), i), val=lambda e: e['r']))
        ws = lambda rel, ind=i: call(H + 'spaces_or_new_lines_and_indent', ind, rel)
        ows = lambda ind=i: opt(ws('GTE', ind))
        owsn = lambda ind=i: call(H + 'opt_spaces_or_new_lines_and_indent', ind, 'GTE')
        sp = call(H + 'spaces')
        lo, up, op_ = call(H + 'lo_name'), call(H + 'up_name'), call(H + 'operator')
        msp0, msp1 = many(WS, 0), many(WS, 1)
        expr = lambda ind=i: call(X + 'expression', ind)

        # ---- literals ------------------------------------------------------------
        add(X + 'access::access', 0, seqp(
            B('v', call(X + 'variable::variable')),
            B('x', cls('.')), B('n', lo), B('ns', star(seqp(cls('.'), B('n', lo), val=lambda e: e['n']))),
            val=lambda e: E('Access', e['v'], ('seq', (('e', e['n']),) + e['ns'][1]))))
        add(X + 'access_function::access_function', 0,
            seqp(cls('.'), B('n', lo), val=lambda e: E('AccessFunction', e['n'])))
        hexcode = isin(seqp(cls(cs.ALL), cls(cs.ALL), val=lambda e: UNIT), rx.numeral_dfa(16, False, 255))
        add(X + 'character::character_content', 0, alt(
            seqp(lit('\\x'), B('h', txt(hexcode)), val=lambda e: ('cast', 'char', ('num', ('parsed', 16, e['h'])))),
            cls(cs.ALL)))
        add(X + 'character::character', 0, seqp(
            cls("'"), B('c', call(X + 'character::character_content')), cls("'"),
            val=lambda e: E('Character', e['c'])))
        sign = opt(cls('+-'))
        add(X + 'float::float', 0, seqp(
            B('t', txt(seqp(sign, many(D, 1), cls('.'), many(D, 1)))), val=lambda e: E('Float', e['t'])))
        add(X + 'integer::integer', 0, seqp(
            B('t', txt(seqp(sign, many(D, 1)))), val=lambda e: E('Integer', e['t'])))
        add(X + 'string::single_string', 0, between(
            cls('"'), txt(star(alt(lit('\\\\'), lit('\\"'), cls(cs.compl(cs.of('"\n')))))), cls('"')))
        add(X + 'string::multi_string', 0, between(lit('"""'), until('"""'), lit('"""')))
        add(X + 'string::string', 0, seqp(
            B('s', alt(call(X + 'string::multi_string'), call(X + 'string::single_string'))),
            val=lambda e: E('String', e['s'])))
        V1 = lambda v: E('Variable', ('seq', (('e', v),)))
        add(X + 'variable::lower_case', 0, mapp(lo, V1))
        add(X + 'variable::upper_with_dots', 0, mapp(sep1(cls('.'), up), lambda v: E('Variable', v)))
        add(X + 'variable::op', 0, mapp(between(cls('('), alt(op_, many(',', 1)), cls(')')), V1))
        add(X + 'variable::variable', 0, alt(
            call(X + 'variable::lower_case'), call(X + 'variable::upper_with_dots'), call(X + 'variable::op')))

        # ---- expressions -----------------------------------------------------------
        add(X + 'parens', 1, between(cls('('), expr(), cls(')')))
        add(X + 'tuple', 1, between(
            cls('('), sepn(cls(','), between(msp0, expr(), msp0), lambda v: E('Tuple', v)), cls(')')))
        comma = lambda: seqp(ows(), cls(','), ows())
        add(X + 'list', 1, mapp(between(
            seqp(cls('['), ows()), sep0(comma(), expr()), seqp(ows(), cls(']'))), lambda v: E('List', v)))
        pair = lambda a, mid, b: seqp(B('a', a), mid, B('b', b), val=lambda e: ('tup', (e['a'], e['b'])))
        add(X + 'record', 1, mapp(between(
            seqp(cls('{'), ows()), sep0(comma(), pair(lo, seqp(ows(), cls('='), ows()), expr())),
            seqp(ows(), cls('}'))), lambda v: E('Record', v)))
        add(X + 'simplified_record', 1, mapp(between(
            cls('{'), sep0(cls(','), mapp(between(msp0, lo, msp0), lambda v: ('tup', (v, V1(v))))), cls('}')),
            lambda v: E('Record', v)))
        add(X + 'record_update', 1, seqp(
            cls('{'), owsn(), B('n', lo), owsn(), cls('|'), msp0,
            B('ps', sep0(seqp(owsn(), cls(','), owsn()),
                         pair(lo, seqp(msp0, cls('='), msp0), expr()))),
            owsn(), cls('}'), val=lambda e: E('RecordUpdate', e['n'], e['ps'])))
        term = lambda ind=i: call(X + 'term', ind)
        add(X + 'term', 1, alt(*[call(X + n) for n in (
            'access::access', 'variable::variable', 'access_function::access_function', 'string::string',
            'float::float', 'integer::integer', 'character::character')] + [call(X + n, i) for n in (
                'parens', 'list', 'tuple', 'record_update', 'record', 'simplified_record')]))
        add(X + 'lambda', 1, seqp(
            cls('\\'), B('as', sep1(many(' \t', 1), term())), ws('GTE'), lit('->'), B('n', ws('GTE')),
            B('b', expr(N('n'))), val=lambda e: E('Lambda', e['as'], e['b'])))
        apc = self.ctor('Expression', 'Application', UNIT, UNIT)
        arg = seqp(ws('GT'), B('x', term()), val=lambda e: ('tup', (e['x'],)))
        add(X + 'application_or_var', 1, alt(
            seqp(B('f', term()), B('a', arg), B('as', star(arg)),
                 val=lambda e: ('spine', (apc[1], apc[2]), 0, e['f'], (('e', e['a']),) + e['as'][1])),
            term()))
        add(X + 'let_binding_target', 1, alt(
            call(X + 'variable::variable'), call(X + 'list', i), call(X + 'tuple', i), call(X + 'simplified_record', i)))
        add(X + 'let_binding', 1, seqp(
            B('t', call(X + 'let_binding_target', i)), ws('GTE'), cls('='), B('n', ws('GTE')), B('x', expr(N('n'))),
            val=lambda e: self.ctor('LetEntry', 'LetBinding', e['t'], e['x'])))
        add(X + 'let_bindings', 1, sep1(ws('EQ'), alt(
            call(X + 'let_binding', i),
            mapp(call(X + 'function::function', i), lambda v: self.ctor('LetEntry', 'LetFunction', v)))))
        add(X + 'let_expression', 1, seqp(
            lit('let'), B('n', ws('GTE')), B('as', call(X + 'let_bindings', N('n'))), ws('GTE'), lit('in'),
            ws('GTE'), B('x', expr()), val=lambda e: E('Let', e['as'], e['x'])))
        add(X + 'case', 1, seqp(
            B('p', expr()), ws('GTE'), lit('->'), B('n', ws('GTE')), B('x', expr(N('n'))),
            val=lambda e: ('tup', (e['p'], e['x']))))
        add(X + 'cases', 1, sep1(ws('EQ'), call(X + 'case', i)))
        add(X + 'case_expression', 1, seqp(
            lit('case'), ws('GTE'), B('x', expr()), ws('GTE'), lit('of'), B('n', ws('GTE')),
            B('cs', call(X + 'cases', N('n'))), val=lambda e: E('Case', e['x'], e['cs'])))
        add(X + 'if_expression', 1, seqp(
            lit('if'), ws('GTE'), B('c', expr()), ws('GTE'), lit('then'), B('n', ws('GTE')), B('a', expr(N('n'))),
            ws('GTE'), lit('else'), B('m', ws('GTE')), B('b', expr(N('m'))),
            val=lambda e: E('If', e['c'], e['a'], e['b'])))
        add(X + 'operator_or_as', 0, mapp(alt(lit('as'), op_), V1))
        add(X + 'binary', 1, alt(
            seqp(B('l', call(X + 'application_or_var', i)), ws('GTE'), B('o', call(X + 'operator_or_as')), msp1,
                 B('r', expr()), val=lambda e: E('BinOp', e['o'], e['l'], e['r'])),
            call(X + 'application_or_var', i)))
        add(X + 'expression', 1, alt(*[call(X + n, i) for n in (
            'binary', 'let_expression', 'case_expression', 'if_expression', 'lambda')]))

        # ---- functions -----------------------------------------------------------
        fname = alt(lo, between(cls('('), op_, cls(')')))
        ta = lambda ind: call(Y + 'type_annotation', ind)
        add(X + 'function::function_signature', 1, seqp(
            B('n', fname), sp, cls(':'), B('m', ws('GT')), B('t', ta(N('m'))),
            val=lambda e: self.ctor('FunctionSignature', None, name=e['n'], type_=e['t'])))
        add(X + 'function::function_definition', 1, seqp(
            B('n', fname), B('as', star(seqp(sp, B('a', term()), val=lambda e: e['a']))), sp, cls('='),
            B('m', ws('GT')), B('b', expr(N('m'))),
            val=lambda e: self.ctor('FunctionDefinition', None, name=e['n'], args=e['as'], body=e['b'])))
        add(X + 'function::function', 1, seqp(
            B('s', opt(seqp(B('s', call(X + 'function::function_signature', i)),
                            call(H + 'new_line_and_same_indent', i), val=lambda e: e['s']))),
            B('d', call(X + 'function::function_definition', i)),
            val=lambda e: self.ctor('Function', None, signature=e['s'], definition=e['d'])))

        # ---- types ---------------------------------------------------------------
        qual = sep1(cls('.'), up)
        ty = lambda ind=i: call(Y + 'type_', ind)
        add(Y + 'type_variable', 0, mapp(
            notin(word(AZ), RESERVED),
            lambda v: T('TypeVariable', v)))
        add(Y + 'type_constant', 0, mapp(qual, lambda v: T('TypeConstructor', v, ('seq', ()))))
        add(Y + 'type_tuple', 1, between(
            seqp(cls('('), ows()), sepn(comma(), ta(i), lambda v: T('TypeTuple', v)), seqp(ows(), cls(')'))))
        add(Y + 'type_record_pair', 1, pair(lo, seqp(ows(), cls(':'), ows()), ta(i)))
        add(Y + 'type_record_pairs', 1, sep0(comma(), call(Y + 'type_record_pair', i)))
        add(Y + 'type_record_constructor', 1, seqp(
            cls('{'), ws('GTE'), B('v', call(Y + 'type_variable')), ws('GTE'), cls('|'), ws('GTE'),
            B('ps', call(Y + 'type_record_pairs', i)), ws('GTE'), cls('}'),
            val=lambda e: T('TypeRecordConstructor', e['v'], e['ps'])))
        add(Y + 'type_record', 1, mapp(between(
            seqp(cls('{'), ows()), call(Y + 'type_record_pairs', i), seqp(ows(), cls('}'))),
            lambda v: T('TypeRecord', v)))
        inparens = between(seqp(cls('('), ows()), ta(i), seqp(ows(), cls(')')))
        rest = [call(Y + 'type_record_constructor', i), call(Y + 'type_record', i), call(Y + 'type_tuple', i), inparens]
        add(Y + 'type_parameter', 1, alt(call(Y + 'type_variable'), call(Y + 'type_constant'), *rest))
        add(Y + 'type_constructor', 1, seqp(
            B('n', qual),
            B('as', star(seqp(B('m', ws('GT')), B('a', call(Y + 'type_parameter', N('m'))), val=lambda e: e['a']))),
            val=lambda e: T('TypeConstructor', e['n'], e['as'])))
        add(Y + 'type_', 1, alt(call(Y + 'type_constructor', i), call(Y + 'type_variable'), *rest))
        tap = self.ctor('Type', 'TypeApplication', UNIT, UNIT)
        arrow = seqp(call(H + 'spaces_and_newlines'), lit('->'), call(H + 'spaces_and_newlines'))
        # the last type is the base, the ones before it are wrapped around it
        left = lambda: seqp(B('t', ty()), arrow, ahead(ty()), val=lambda e: ('tup', (e['t'],)))
        add(Y + 'type_annotation', 1, either(
            seqp(B('a', left()), B('as', star(left())), B('t', ty()),
                 val=lambda e: ('spine', (tap[1], tap[2]), 1, e['t'],
                                tuple((s[0], s[1], s[2], not s[3]) for s in reversed(e['as'][1])) + (('e', e['a']),))),
            seqp(fails(left()), B('t', ty()), val=lambda e: e['t'])))

        # ---- statements ----------------------------------------------------------
        add(S + 'comment::single_line_comment', 0, mapp(comment, lambda v: ST('Comment', v)))
        add(S + 'comment::multi_line_comment', 0, seqp(
            lit('{-'), B('x', until('-}')), lit('-}'), val=lambda e: ST('Comment', e['x'])))
        add(S + 'comment::comment', 0, alt(call(S + 'comment::single_line_comment'), call(S + 'comment::multi_line_comment')))
        add(S + 'export::all_export', 0, mapp(lit('..'), lambda v: EX('AllExport')))
        add(S + 'export::function_export', 0, mapp(
            alt(call(H + 'function_name'), between(cls('('), op_, cls(')'))), lambda v: EX('FunctionExport', v)))
        add(S + 'export::constructor_subset_exports', 0, mapp(
            sep1(lit(', '), mapp(up, lambda v: EX('FunctionExport', v))), lambda v: EX('SubsetExport', v)))
        add(S + 'export::constructor_exports', 0, opt(between(
            cls('('), alt(call(S + 'export::all_export'), call(S + 'export::constructor_subset_exports')), cls(')'))))
        add(S + 'export::type_export', 0, seqp(
            B('n', up), B('c', call(S + 'export::constructor_exports')), val=lambda e: EX('TypeExport', e['n'], e['c'])))
        snl = opt(call(H + 'spaces_and_newlines'))
        add(S + 'export::subset_export', 0, mapp(
            sep1(seqp(snl, cls(','), snl), alt(call(S + 'export::function_export'), call(S + 'export::type_export'))),
            lambda v: EX('SubsetExport', v)))
        z = lambda e: num(0)
        add(S + 'export::exports', 0, between(
            seqp(cls('('), ows(z)), alt(call(S + 'export::all_export'), call(S + 'export::subset_export')),
            seqp(ows(z), cls(')'))))
        exports = call(S + 'export::exports')
        mname = call(H + 'module_name')
        add(S + 'import::import_statement', 0, seqp(
            lit('import'), sp, B('n', mname), B('a', opt(seqp(sp, lit('as'), sp, B('x', up), val=lambda e: e['x']))),
            B('x', opt(seqp(sp, lit('exposing'), sp, B('x', exports), val=lambda e: e['x']))),
            val=lambda e: ST('ImportStatement', e['n'], e['a'], e['x'])))
        AS = lambda n: self.ctor('Assoc', n)
        add(S + 'infix::infix_declaration', 0, seqp(
            B('a', alt(mapp(lit('infixl'), lambda v: AS('L')), mapp(lit('infixr'), lambda v: AS('R')),
                       mapp(lit('infix'), lambda v: AS('N')))),
            sp, B('v', isin(many(D, 1), rx.numeral_dfa(10, True, 2 ** 63 - 1, -2 ** 63))), sp,
            B('n', alt(lo, op_)),
            val=lambda e: ST('InfixDeclaration', e['a'], ('num', ('parsed', 10, e['v'])), e['n'])))
        g = ws('GT', z)
        tail = [g, lit('exposing'), g, B('e', exports)]
        add(S + 'module::port_module_declaration', 0, seqp(
            lit('port'), g, lit('module'), g, B('n', mname), *tail,
            val=lambda e: ST('PortModuleDeclaration', e['n'], e['e'])))
        add(S + 'module::effect_module_declaration', 0, seqp(
            lit('effect'), g, lit('module'), g, B('n', mname), g, lit('where'), g,
            B('w', between(cls('{'), sep0(lit(', '), pair(lo, seqp(opt(sp), cls('='), opt(sp)), up)), cls('}'))), *tail,
            val=lambda e: ST('EffectModuleDeclaration', e['n'], e['w'], e['e'])))
        add(S + 'module::module_declaration', 0, seqp(
            lit('module'), g, B('n', mname), *tail, val=lambda e: ST('ModuleDeclaration', e['n'], e['e'])))
        add(S + 'port::port_type_declaration', 0, seqp(
            lit('port'), sp, B('n', lo), sp, cls(':'), B('m', g), B('t', ta(N('m'))),
            val=lambda e: ST('PortTypeDeclaration', e['n'], e['t'])))
        add(S + 'port::port_declaration', 0, seqp(
            lit('port'), sp, B('n', lo), B('as', star(seqp(sp, B('x', lo), val=lambda e: e['x']))), sp, cls('='),
            B('m', g), B('x', expr(N('m'))), val=lambda e: ST('PortDeclaration', e['n'], e['as'], e['x'])))
        one = lambda e: num(1)
        add(S + 'type_declaration::type_alias_declaration', 0, seqp(
            lit('type'), sp, lit('alias'), sp, B('n', ty(z)), sp, cls('='), ws('GTE', one), B('d', ta(one)),
            val=lambda e: ST('TypeAliasDeclaration', e['n'], e['d'])))
        m = N('m')
        add(S + 'type_declaration::type_declaration', 1, seqp(
            lit('type'), sp, B('n', ty()), B('m', g), cls('='), ws('GTE', m),
            B('d', sep1(seqp(ws('GTE', m), cls('|'), sp), call(Y + 'type_constructor', m))),
            val=lambda e: ST('TypeDeclaration', e['n'], e['d'])))
        add(S + 'statement', 0, alt(
            call(S + 'module::port_module_declaration'), call(S + 'module::effect_module_declaration'),
            call(S + 'module::module_declaration'), call(S + 'import::import_statement'),
            call(S + 'type_declaration::type_alias_declaration'), call(S + 'type_declaration::type_declaration', z),
            call(S + 'port::port_type_declaration'), call(S + 'port::port_declaration'),
            mapp(call(X + 'function::function', z), lambda v: ST('Function', v)),
            call(S + 'infix::infix_declaration'), call(S + 'comment::comment')))
        add(S + 'statements', 0, between(msp0, sep1(many(WS, 1), call(S + 'statement')), msp0))
        add('ast::file', 0, between(empty(), call(S + 'statements'), eof))
