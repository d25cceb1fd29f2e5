P = dict(id='P27', title='Library calls process each document once and obey the handler',
statement='''ProcessTemplates and ProcessTemplatesWithHandler of a Go program handle every document given (files or code) exactly once, in order: the handler receives the name, the source, the result, whether it changed and the error of each document, what it returns (text, changed, error) is what is written or printed and reported, and a document in error does not prevent the following ones.
The files returned are those written, and the resulting tree is the one determined by source and target folders, kind of source, overwrite and print options.''',
over=['inputs'],
text='every list of documents of the generated shapes (templates, other files, scripts, missing files, code), every decision of the handler and every combination of options',
why='the tests of the repository never give a handler; which calls are made and what is done with each decision depends on the kind of document, on its errors and on the options together.',
files=['template/template_handler.go', 'template/template_process.go', 'template/template.go'],
mechanism=[('ProcessTemplatesWithHandler, processTemplate', 'template/template_handler.go'), ('printResult', 'template/template_process.go')],
observe=['calls received by the handler', 'files', 'printed text', 'returned files and errors'],
note='''Quick 4000 lists of 1 to 5 documents, the handler records each of its calls and takes generated decisions (change, claim a change, deny, forgive an error, fail, empty); calls, tree of files, printed text, returned files and errors are compared with the model of P09.''')
