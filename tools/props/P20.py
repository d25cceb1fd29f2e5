P = dict(id='P20', title='Substitutions are ordered rewritings of the source and of the result',
statement='''For every document and list of substitutes, each /pattern/replacement rewrites every match of its Go regular expression in order, environment ones before those of the caller, the first character being the separator; /pattern/d deletes the matches, and deletes whole newline-terminated lines when the pattern ends with $; -E removes blank lines; surrounding blanks of a substitute are ignored.
They apply once to the source of documents without code, to the source and then to the rendered result of documents with code, and the function substitute applies them to its argument; code produced by substituting a result is not evaluated.''',
over=['inputs'],
text='every list of substitutes of the generated shapes (literal text, groups, words, anchors, deletions, line joins) and every document, with or without code',
why='the unit test has one case; the order of application, line deletion and the interaction with code are visible only on combinations.',
files=['utils/substitute.go', 'template/template.go', 'template/template_handler.go', 'template/add_funcs.go', 'main.go'],
mechanism=[('InitReplacers, Substitute', 'utils/substitute.go'), ('application on source and result', 'template/template_handler.go')],
observe=['rendered text', 'files written by the command line'],
note='''Each generated substitute carries its meaning as a Go function on strings (no regular expression engine); the composed function is the oracle. Quick 20000 documents through the library, 300 folders through the command line with -s, --substitute, -E and GOTEMPLATE_SUBSTITUTES.''')
