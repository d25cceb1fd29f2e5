P = dict(id='P07', title='Documents rendered by the same engine are isolated from each other',
statement='''The result of a document does not depend on the documents that were rendered before it by the same engine or by others, nor on the other files of the same command
line: it is what a new engine gives for it alone, whether these other documents assign variables, alter dictionaries and lists in place, include others or fail (definitions, aliases and explicit writes
through the parent reference _ excepted, since they are meant to be shared). The options of a context obtained from an engine (GetNewContext) are its own. The context of the engine and the map that the caller supplied are left as they were, constants excepted.''',
over=['inputs', 'histories'],
text='sequences of 2 to 9 documents made of 50 kinds of mutations, data functions, razor programs and errors, by one engine, by engines with different delimiters and options used in turn, and by the command line with files in any order',
why='The leak depends on the history: a mutation, an error path or an option set by one document shows only in another one; tests render one document per engine.',
files=['template/template_process.go', 'template/template_error_handler.go', 'template/extra_runtime.go', 'template/template_handler.go', 'collections/implementation/dict_helper.go'],
mechanism=[('context cloned before each execution and kept by the retries', 'template/template_process.go'), ('context of the included templates', 'template/extra_runtime.go')],
observe=['results of Template.ProcessContent alone and in sequence', 'context and supplied map before and after', 'files written by the command line'],
note='''2500 sequences, 21000 function calls, 400 engine interleavings, 500 histories of contexts and 100 command line batches quick; about 30 times more when thorough. The oracle is the same document rendered alone and a deep comparison of the context.''')
