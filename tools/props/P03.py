P = dict(id='P03', title='Razor programs are equivalent to their Go template counterparts',
statement='''A document that mixes text with razor statements (assignments := = += -= … on local and global variables and their fields, @if/@else if/@else,
@range/@foreach, @with, single line forms, comments, @{local}, @var.field, @var[index], @var[a:b], @func(args), @func(args).field, @(expr), @<, @@, @{{, inline "<<@…", autoIndent, autoWrap)
renders exactly what the equivalent Go template document renders. White spaces are eaten only on the sides requested by the -, _- and -- markers, and the
text around a razor statement is left unchanged, whatever comes after its terminating semicolon.''',
over=['inputs', 'programs'],
text='every generated document (nested blocks up to depth 3, all statement forms and spacing variants) and every typed context; the spellings documented as ambiguous (text such as a parenthesis glued to @(expr) without semicolon, user@domain.name) are not generated',
why='razor_test.go checks the converted text of isolated statements; interactions between statements on the same line, in nested blocks and with the surrounding text come from about 100 ordered regular expressions and cannot be enumerated by hand.',
files=['template/razor.go', 'template/razor_repl_assign.go', 'template/razor_repl_expr.go', 'template/razor_repl_literal.go'],
mechanism=[('ordered razor replacements', 'template/razor.go expressions'), ('assignments', 'template/razor_repl_assign.go')],
observe=['output of Template.ProcessContent for the razor document', 'output of Template.ProcessContent for the Go template document', 'output of text/template'],
note='''Each generated program has two spellings produced together (razor and Go template); three renderings are compared: gotemplate on razor, gotemplate on Go template and the standard
library with reference functions. Trusts text/template and the reference functions.''')
