P = dict(id='P01', title='Text that is not template code is rendered byte for byte',
statement='''A document without template delimiters is rendered unchanged, whatever characters it holds (dollar signs, quotes, brackets, unicode, <no value>).
In a document with code, everything that is not code is kept in place: e-mail addresses, ${…} references, triple backticks blocks, text of multi-line backtick strings (even if it looks like razor), and the
documented escapes give the literal mark (@@ gives @, @{{ gives {{). With custom delimiters, code is recognised only with them (go template and razor) and the default marks {{ }} @ are ordinary text.''',
over=['inputs', 'configurations'],
text='every document assembled from hostile tokens and code pieces separated by words, and every set of three delimiters',
why='tests check a dozen of literal cases alone; the literal marks go through placeholder substitutions and regexes whose interactions depend on the whole document and on the delimiters.',
files=['template/razor.go', 'template/razor_repl_literal.go', 'template/template_process.go', 'template/template_handler.go', 'template/template.go'],
mechanism=[('literal protections', 'template/razor.go expressions (Literals, Restoring literals)'), ('delimiters', 'template/razor.go ensureInit')],
observe=['output of Template.ProcessContent'],
note='''The expected output is assembled together with the document, piece by piece, without parsing. Quick: 13000 documents.''')
