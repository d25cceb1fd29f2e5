P = dict(id='P23', title='Hostile documents, data and arguments neither hang nor crash',
statement='''Whatever the text of a document, the delimiters, the text of a data file or the arguments of the command line, processing ends in bounded time with a result or an error: no panic comes out of the library, the command never stops on an internal failure (stack trace), a non-zero exit comes with a message, and its temporary folder is removed.
After any such document the same engine still renders a valid document correctly.
Templates that include themselves without end are reported as an error.''',
over=['inputs', 'histories'],
text='documents obtained by mutation (truncation, splices, repeated and inserted tokens of both languages, invalid bytes) of valid documents with several delimiters; mutated JSON, YAML, HCL and XML; random command lines on folders of such files; assumption: data that contain themselves and astronomically large numbers are excluded',
why='error recovery re-parses the document after each correction, so that termination depends on the content; the unit tests hold about fifty fixed erroneous documents.',
files=['template/template_error_handler.go', 'template/template_handler.go', 'template/razor.go', 'template/extra_runtime.go', 'collections/convert_data.go', 'main.go', 'utils/io.go'],
mechanism=[('errorHandler.Handler', 'template/template_error_handler.go'), ('processContentInternal', 'template/template_handler.go'), ('runTemplate', 'template/extra_runtime.go'), ('runGotemplate', 'main.go')],
observe=['end of the call within 40 s', 'panic', 'exit code and error output', 'rendering of a valid document afterwards', 'temporary folder'],
note='''Functions with effects outside of the template are replaced by stubs in the library suite and removed from the documents given to the command. Quick: 15000 mutated documents, 10000 data texts through six decoders, 24 endless recursions, 1500 command lines with a memory limit and a time limit. A death of the process under test (stack exhaustion) is seen by the parent monitor.''')
