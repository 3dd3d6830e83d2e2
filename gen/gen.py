"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLIN = 'every finite input text (any Unicode string), of any length and nesting depth'
P = []


def prop(pid, title, statement, why, files, mech, over=('inputs',), text=None, observe=('ast::file (the syntax tree or error it returns)',)):
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': list(over), 'text': text or ALLIN},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': list(observe)},
    })


A = 'src/ast/'
EX = A + 'expression/'
ST = A + 'statement/'
TY = A + 'type_/'

prop('C01', 'Parsing never panics',
     'Parsing any text ends with a syntax tree or an error value; it never panics, whatever the text contains. '
     'This covers unwraps, indexing, slicing off character boundaries, arithmetic overflow and popping empty lists, but not exhaustion of the stack or of memory.',
     'Tests sample a few hundred short well-formed inputs; a panic needs one unlucky input (non-ASCII text, a huge number, an empty list) among all inputs.',
     [A + 'mod.rs', A + 'helpers.rs', EX + 'mod.rs', EX + 'character.rs', TY + 'mod.rs', ST + 'infix.rs'],
     [('escape decoding of characters', EX + 'character.rs'), ('u32/i64 conversions', A + 'helpers.rs, ' + ST + 'infix.rs'),
      ('indexing of collected lists', EX + 'mod.rs, ' + TY + 'mod.rs')])
prop('C02', 'Every repetition makes progress and every recursion consumes input',
     'Parsing any finite text terminates: no repetition can run again without having consumed input, and no rule can call itself again at the position where it started.',
     'A test that passes says nothing about other inputs; non-termination shows only on inputs that reach the non-consuming path.',
     [A + 'helpers.rs', EX + 'mod.rs', TY + 'mod.rs', ST + 'mod.rs'],
     [('repetitions and separated lists', EX + 'mod.rs, ' + TY + 'mod.rs, ' + ST + '*.rs'), ('recursion of the grammar', EX + 'mod.rs')])
prop('C03', 'Parsing is a pure function of its input',
     'Parsing only computes a result from the text: it prints nothing, reads no files, clocks, environment or random numbers, and keeps no state between calls, so equal texts give equal results.',
     'Unit tests compare results and do not observe the output streams or hidden state; a side effect may depend on a rare branch.',
     [A + 'mod.rs', A + 'helpers.rs', EX + 'character.rs'], [('all parser functions', A)])
prop('C04', 'A file is accepted as a whole or rejected',
     'Parsing a file succeeds only if statements and blanks account for all of the text, with one list entry per statement in source order; otherwise it yields an error, never a partial result. '
     'The parser never asks for more input.',
     'Acceptance of everything up to the end must hold for every text; tests mostly run single rules and accept leftovers.',
     [A + 'mod.rs', ST + 'mod.rs'], [('file', A + 'mod.rs'), ('statements', ST + 'mod.rs')])
prop('C05', 'Identifiers: exactly the allowed words, never a reserved word',
     'A lower-case name is a single underscore, or a letter a-z followed by letters, digits and underscores that is not one of the reserved words; upper-case names begin with A-Z. '
     'Qualified names, module names, record access and access functions are such names joined by dots, every segment kept in order and verbatim.',
     'The set of words is infinite, and boundaries (a reserved word as prefix, digits, underscores, non-ASCII letters) are sampled by a handful of tests.',
     [A + 'helpers.rs', EX + 'variable.rs', EX + 'access.rs', EX + 'access_function.rs'],
     [('lo_name, up_name, function_name, module_name and the reserved word list', A + 'helpers.rs'), ('variables', EX + 'variable.rs'),
      ('access', EX + 'access.rs')])
prop('C06', 'Operators: maximal munch over the operator characters, reserved ones excluded',
     'An operator is the longest run of operator characters unless that run is one of the reserved symbols (such as =, ->, |, : and the dots), and its text is kept verbatim. '
     'The same holds in parentheses, where a run of commas is a tuple constructor.',
     'There are infinitely many operator spellings; tests try a few.',
     [A + 'helpers.rs', EX + 'variable.rs', EX + 'mod.rs'], [('operator and the reserved operator list', A + 'helpers.rs'), ('op', EX + 'variable.rs')])
prop('C07', 'Number literals are kept digit for digit',
     'An optionally signed run of digits is an integer and one with a dot and further digits is a float, taken as long as possible and kept as written. '
     'The precedence of an infix declaration is the value of its digits, and digits that do not fit are an error rather than a wrong number.',
     'All digit strings, including those around the limits of machine integers, and all contexts; tests use small numbers.',
     [EX + 'integer.rs', EX + 'float.rs', ST + 'infix.rs', EX + 'mod.rs'],
     [('integer', EX + 'integer.rs'), ('float', EX + 'float.rs'), ('precedence', ST + 'infix.rs'), ('float before integer', EX + 'mod.rs term')])
prop('C08', 'String and character literals keep their content and end at the right quote',
     'A single-line string runs to the first unescaped quote on its line, a triple-quoted string to the next three quotes, and their content is kept verbatim, escapes and non-ASCII text included. '
     'A character literal is exactly one character or a hexadecimal escape standing for its code.',
     'All texts with all combinations of escapes, quotes and line ends; a few tests.',
     [EX + 'string.rs', EX + 'character.rs'], [('single and multi line strings', EX + 'string.rs'), ('characters', EX + 'character.rs')])
prop('C09', 'Comments: exact extent, content kept, and neutral as blanks',
     'A line comment extends to the end of its line and a block comment to the first closing mark; as statements they keep their text verbatim. '
     'Inside declarations a line comment counts as blank space only.',
     'Any text may stand in a comment and a comment may stand in any gap.',
     [A + 'helpers.rs', ST + 'comment.rs'], [('comments in gaps', A + 'helpers.rs'), ('comment statements', ST + 'comment.rs')])
prop('C10', 'Keywords only count as whole words',
     'A keyword is recognised only where it is a word of its own: names that merely begin with or contain a keyword are ordinary names, and a keyword is never taken as a name.',
     'Every identifier having a keyword as prefix, in every context where the keyword may occur.',
     [A + 'helpers.rs', EX + 'mod.rs', ST + '*.rs'], [('reserved word test on the whole word', A + 'helpers.rs lo_name'), ('blanks after keywords', EX + 'mod.rs, ' + ST)])
prop('C11', 'Gap rule: the last line break decides indentation, exactly',
     'A gap is spaces, line ends and line comments; it fits a demanded indentation exactly if it has no line end, or if the indentation after its last line end is equal to, at least, or greater than the demanded one, as the context asks. '
     'The indentation it reports is the number of spaces after that line end, or the demanded one if there is none.',
     'All mixtures of spaces, line ends and comments against all indentations.',
     [A + 'helpers.rs'], [('spaces_or_new_lines_and_indent, its optional form, new_line_and_same_indent', A + 'helpers.rs')])
prop('C12', 'Layout: which indentation each part of an expression must have',
     'Arguments must be indented more than the enclosing expression, branches, bodies and operators at least as much, and all bindings of a let and all branches of a case exactly alike, relative to the first. '
     'Text that breaks these rules ends the construct; it is never absorbed into it.',
     'All ways to lay out nested constructs; unit tests use a few canonical layouts.',
     [EX + 'mod.rs', EX + 'function.rs', A + 'helpers.rs'], [('the indentation and relation each rule passes on', EX + 'mod.rs')])
prop('C13', 'Lists, tuples, records and updates keep every element once and in order',
     'Lists, tuples, records, record patterns and record updates contain exactly the elements written between their brackets, in source order, each with its own name and value; none is lost, duplicated or swapped. '
     'Separators must stand between elements, with blanks allowed around them.',
     'All lengths, nestings and layouts.',
     [EX + 'mod.rs'], [('list, tuple, record, simplified_record, record_update', EX + 'mod.rs')])
prop('C14', 'Application nests to the left and operators keep their operands',
     'A term followed by arguments is application applied to the arguments one after the other, leftmost innermost; an expression with an operator has what precedes it as left and everything that follows as right operand. '
     'No argument or operand is lost or reordered.',
     'Any number of arguments and operators in any layout; tests go up to three.',
     [EX + 'mod.rs'], [('application_or_var, binary', EX + 'mod.rs')])
prop('C15', 'Parentheses group, commas make tuples',
     'A parenthesised single expression or type, with or without blanks inside, is that expression or type itself; only two or more elements make a tuple.',
     'All parenthesised contents and layouts.',
     [EX + 'mod.rs', TY + 'mod.rs'], [('parens, tuple', EX + 'mod.rs'), ('type_tuple', TY + 'mod.rs')])
prop('C16', 'if, let, case and lambda: every part in its place',
     'If expressions keep condition, then and else branch, let expressions all bindings in order and the body, case expressions the subject and all branches in order with their patterns, and lambdas all parameters in order and the body; nothing is swapped or dropped.',
     'All subexpressions, numbers of branches, bindings and parameters.',
     [EX + 'mod.rs'], [('if_expression, let_expression, case_expression, lambda', EX + 'mod.rs')])
prop('C17', 'Function definitions: name, arguments, body and their own signature',
     'A function has its name, its arguments in order and its body; a type signature is attached exactly if it stands on the line before, at the same indentation, and keeps its own name and type.',
     'All names, argument patterns, bodies and layouts.',
     [EX + 'function.rs', A + 'helpers.rs'], [('function_signature, function_definition, function', EX + 'function.rs')])
prop('C18', 'Types: constructors, records, tuples and right-nested arrows',
     'A type expression yields the tree it denotes: arrows nest to the right, constructors keep their qualified name and arguments in order, record types all their fields in order, extensible records their base variable.',
     'All type expressions; tests sample some shapes.',
     [TY + 'mod.rs', TY + 'core.rs'], [('all type rules', TY + 'mod.rs')])
prop('C19', 'Module declarations and export lists are read exactly',
     'Plain, port and effect module declarations keep the full module name and exactly the exposed items in order: everything, values, parenthesised operators, and types with none, some or all of their constructors.',
     'All names, list lengths and layouts.',
     [ST + 'module.rs', ST + 'export.rs'], [('module_declaration and its variants', ST + 'module.rs'), ('exports', ST + 'export.rs')])
prop('C20', 'Imports: name, alias and exposed items are read exactly',
     'An import keeps the full module name, the alias if one is given, and the exposed items if given, in order; alias and exposing are independent of each other.',
     'All combinations of names, aliases and export lists.',
     [ST + 'import.rs', ST + 'export.rs'], [('import_statement', ST + 'import.rs')])
prop('C21', 'Type, alias, port and infix declarations are read exactly',
     'Type declarations keep their head and all constructors in order, aliases their head and definition, ports their name with type or arguments and body, and infix declarations their associativity, precedence and name.',
     'All names, types, numbers of constructors and layouts.',
     [ST + 'type_declaration.rs', ST + 'port.rs', ST + 'infix.rs'],
     [('type_declaration, type_alias_declaration', ST + 'type_declaration.rs'), ('port declarations', ST + 'port.rs'), ('infix_declaration', ST + 'infix.rs')])
prop('C22', 'Every construct is recognised as what it is',
     'Where several kinds of statement, expression, term or type could start alike, each text is read as the kind it denotes (an access rather than a variable, a float rather than an integer, a signature with its definition, a type alias rather than a type) and no kind hides another.',
     'The order of alternatives matters only for texts that are a prefix or an overlap of two kinds, for all contents.',
     [ST + 'mod.rs', EX + 'mod.rs', TY + 'mod.rs'], [('statement', ST + 'mod.rs'), ('expression, term', EX + 'mod.rs'), ('type_', TY + 'mod.rs')])

prop('C23', 'The dump tool parses every Elm file it is given, in full, and reports each',
     'Given a file, the dump tool parses its complete, unchanged content and writes to standard output the tree or the error, or, if asked to be quiet, one line that names the file and says whether it parsed. '
     'Given a directory, it does this exactly once for every file named *.elm at any depth below it and for no other file, whatever the outcome for the others. '
     'A named path that does not exist, and files or directories that cannot be read, end it with a failure.',
     'All directory trees, file contents and names, including unreadable ones, links and odd extensions; no test runs the tool.',
     ['src/dump.rs'], [('dump_file, dump_directory, main', 'src/dump.rs')], over=('inputs', 'configurations'),
     text='every command line, every directory tree with any names and links, every content of the files and every outcome of reading them',
     observe=('standard output and exit status of elm-parser-dump',))
prop('C24', 'The check tool lists exactly the values exposed by imports, in order',
     'For a file that parses, the check tool writes to standard output the list of the names of all values and operators that stand in the exposing lists of its imports, aliased or not, as often as and in the order they are written, and nothing else: no types, constructors, module names or exports of the module itself. '
     'For a file that does not parse it writes the error instead. '
     'Without an argument, or if the file cannot be read, it ends with a failure.',
     'All modules with any number of imports and shapes of exposing lists, and all outcomes of reading the file; no test runs the tool.',
     ['src/check.rs'], [('get_imported_names, get_export_set_imports, main', 'src/check.rs')],
     text='every command line, every content of the file (any number and mix of statements and export lists) and every outcome of reading it',
     observe=('standard output and exit status of elm-parser-check',))
prop('C25', 'Parsing time is bounded by a polynomial in the length of the text',
     'There is a polynomial that bounds the time to parse a text by its length, for every text.',
     'Tests use short texts with little nesting, on which no growth can be seen.',
     [EX + 'mod.rs', TY + 'mod.rs'], [('backtracking over nested constructs', EX + 'mod.rs, ' + TY + 'mod.rs')])
prop('C26', 'Nesting depth never exhausts the stack',
     'Parsing a text ends with a tree or an error however deeply its constructs are nested; it never overflows the stack.',
     'Tests nest two or three levels.',
     [EX + 'mod.rs', TY + 'mod.rs'], [('recursive descent', EX + 'mod.rs, ' + TY + 'mod.rs')])
prop('C27', 'Every module the Elm compiler accepts is parsed',
     'Every text that is a syntactically valid Elm 0.18 module is accepted.',
     'The language is infinite; tests sample a few files.',
     [A + 'mod.rs'], [('the whole grammar', A)])

NA = [
    ('C25', 'Not decided, and false as it stands: where a nested construct turns out not to parse, several alternatives read it again at every level, '
            'so rejecting `((((...` or `let a = let a = ...` takes time exponential in the nesting depth (seconds from 12 levels on). A sound cost bound '
            'would have to relate failures at all levels for all inputs; removing the cause means rewriting the grammar, which is no small repair.'),
    ('C26', 'Not decided: the parser is recursive descent and its depth is the nesting depth of the text, which nothing bounds; whether the stack '
            'suffices depends on frame sizes, stack limit and the input, which no static argument on this source bounds.'),
    ('C27', 'Not decided: needs the grammar of the Elm compiler as an oracle, which is not available here; the parser is known to reject some valid Elm '
            '(block comments inside expressions, some escapes), so the claim is about the language this parser defines (C04-C22).'),
]
TECH_G = ('abstract interpretation of the type-checked program (THIR) into grammar traces, then '
          'language-and-tree equivalence with a reference grammar by derivatives')
TECH = {
    'C01': 'abstract interpretation of THIR: reachability of panic sites',
    'C02': 'progress analysis of loops and acyclicity of the leading-call graph on THIR',
    'C03': 'effect analysis over the call graph of THIR',
    'C23': 'abstract interpretation of the tool (THIR) over an unknown command line, file system and tree: all paths enumerated and compared with the required ones',
    'C24': 'abstract interpretation of the tool (THIR) over an unknown command line, file system and tree: all paths enumerated and compared with the required ones',
    'C04': 'outcome analysis of every parser function; ' + TECH_G,
}
NOTE = ('For all inputs: every obligation is decided from the current source, nothing is executed or sampled. Trusts rustc (expansion, '
        'types, THIR), the models of nom, regex and std functions in sa/prims.py, and the analysis engine itself. Source the analysis '
        'cannot follow is reported as a violation (fails closed).')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    na = dict(NA)
    checks = []
    for p in P:
        i = p['id']
        if i in na:
            continue
        checks.append({
            'property': i,
            'quick_cmd': 'python3 sa/check.py ' + i,
            'thorough_cmd': 'python3 sa/check.py ' + i,
            'technique': TECH.get(i, TECH_G),
            'level': 'proof',
            'level_note': NOTE,
        })
    m = {'version': 1, 'setup_cmd': 'python3 sa/build.py', 'checks': checks,
         'not_applicable': [{'property': i, 'reason': r} for i, r in NA]}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
