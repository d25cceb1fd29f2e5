P = dict(id='P25', title='Messages, assertions and exits asked by templates are obeyed',
statement='''Every logging function (trace, debug, info, warning, error, fatal, panic, their aliases and deprecated names, assertWarning on an empty value) renders nothing and logs its message once per execution, in order, with its level: on the standard error if the template log level (--template-log-level or GOTEMPLATE_TEMPLATE_LOG_LEVEL, by name or number) includes it, and in the log file if the file level does, neither depending on the level of the internal messages.
A message is its arguments formatted by the first one when it is a format for them, otherwise separated by blanks.
fatal ends the program with the code 1 and exit with its argument, after the messages that precede and without processing what follows; raise, assert on an empty value and panic are errors with that message, for their document only; assert on other values does nothing. The temporary folder is removed in every case.''',
over=['inputs', 'configurations'],
text='every sequence of messages at any level, in text, conditions and loops, formats and values of the generated shapes, over one or two documents, with every way to give each level',
why='no test of the repository looks at the logs, and the program must be left in the middle of a document to observe exit and fatal.',
files=['template/extra_logging.go', 'template/extra_runtime.go', 'main.go'],
mechanism=[('logBase, loggingFuncs', 'template/extra_logging.go'), ('raise, assertError, assertWarning, exit', 'template/extra_runtime.go'), ('SetHookLevel, AddFile', 'main.go')],
observe=['stdout, stderr and exit code of the command line', 'log file', 'temporary folder'],
note='''The expected list of messages is produced with the documents; the log is parsed back into messages (level, text) and compared. 2500 command lines quick, 60000 thorough. A document in error is executed again to find its other errors: the messages are then compared as sets.''')
