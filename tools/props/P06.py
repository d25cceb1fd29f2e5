P = dict(id='P06', title='Rendering is deterministic',
statement='''The same content, rendered with the same context, options and folder, gives the same result and the same error every time: in the same process,
in a new engine or in another process. In particular the iteration order of maps never shows in what the functions return, in serialized data, in the lists of functions and templates
nor in the error reports. This excludes the functions whose purpose is to vary (random, dates, certificates, machine state), the logging functions and the unordered keys and values of Sprig.''',
over=['inputs', 'programs'],
text='generated documents over nested contexts, calls of more than 500 registered functions with random arguments, and repeated runs of the command line',
why='Every Go map iteration has its own order: a test that passes once proves nothing, each case must be repeated in engines and processes that do not share state.',
files=['template/template_process.go', 'template/func_table.go', 'template/extra_sprig.go', 'collections/implementation/dict_helper.go', 'template/extra_data.go'],
mechanism=[('registration of functions and aliases', 'template/func_table.go'), ('sorted keys and serialization', 'collections/implementation/dict_helper.go')],
observe=['result and error of repeated renderings', 'stdout, stderr and exit code of repeated processes'],
note='''Each document is rendered 4 times in fresh engines (3000 documents quick), each function call 3 times (14000 calls), each command line 3 times (150); thorough is 30 times more. Compares executions with each other: no other oracle.''')
