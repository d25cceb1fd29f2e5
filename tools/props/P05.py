P = dict(id='P05', title='Every faulty line is reported; a failing document gives no partial result',
statement='''When a document is strict (option, .gt/.gte/.template name or a force-gotemplate! mark), every line holding an expression that cannot be parsed
or executed is reported with its number and its text, no other line is, and no result is produced; a document that is not strict is left exactly as it was. An undefined value that would be
rendered is such an error (unless it is accepted, in which case it renders <no value>), whereas undefined values only tested, and the texts <no value> or <nil>
of the source, are not. From the command line the failure gives the exit code 1 and leaves no output file, and the plain assignment of
an unknown global variable is an error, a warning or ignored according to --strict-assignations-validation.''',
over=['inputs', 'programs', 'faults'],
text='documents of 3 to 17 lines mixing 33 kinds of faulty actions, blocks (executed or not) and correct lines; every combination of strictness, file names, accepted values and assignment validation',
why='The error recovery blanks the faulty line and retries recursively from the text of the error of text/template: positions, several errors on one document and messages of any shape cannot be enumerated by fixed tests.',
files=['template/template_error_handler.go', 'template/template_process.go', 'template/template_handler.go', 'template/razor_repl_assign.go', 'main.go'],
mechanism=[('errors extracted from the message of text/template, line blanked and retry', 'template/template_error_handler.go'), ('undefined values looked for in the result', 'template/template_process.go')],
observe=['error and result of Template.ProcessContent', 'exit code, stderr and files of the command line'],
note='''The generator knows which lines are wrong; the report is parsed and compared (2500 documents quick, 100000 thorough), modes 6000/200000, command line runs 600/10000.
Only the first error of a line and no error inside control statements is covered.''')
