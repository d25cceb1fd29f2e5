P = dict(id='P02', title='Razor expressions compute what their operators and calls say',
statement='''A razor expression made of literals, context and local variables, field/index/slice accesses, function calls and
arithmetic, bitwise, comparison and logical operators (symbols such as + ** << && ≠ ≦ ÷ « or words such as mod, band, eq, and) renders
the value given by the usual (Go) operator precedence, left associativity and parentheses applied to those operations.
Alternative spellings of the same operator give the same value, and the content of string literals (operators, $, :=, dots, brackets) is
never altered. The conversion never changes the meaning of an expression because of spaces inside of it.''',
over=['inputs', 'programs'],
text='every expression of the generated grammar (depth <= 4, all operators and spellings, tricky variable names such as rangeVal or default1) and every context of typed values',
why='razor_test.go pins about 150 fixed conversions; precedence, nesting and string protection must hold for every combination, which depends on ordered regex passes and an AST rewriting.',
files=['template/razor.go', 'template/razor_expr.go', 'template/razor_repl_expr.go', 'template/razor_repl_assign.go'],
mechanism=[('expression parsing to Go AST and generation of prefix calls', 'template/razor_expr.go'), ('string and operator protection', 'template/razor_repl_expr.go')],
observe=['output of Template.ProcessContent', 'output of the equivalent Go template rendered by text/template'],
note='''Generated expressions (quick 12000 templates of four, thorough 400000) are rendered by gotemplate and compared with the reference: an independent
translation rendered by text/template with independently written functions. Trusts text/template and the reference functions.''')
