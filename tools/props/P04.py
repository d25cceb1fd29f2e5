P = dict(id='P04', title='Markers and options that disable the processing disable exactly what they name',
statement='''A document holding no-gotemplate! is rendered unchanged (even if its code is invalid); with no-razor!, or the razor option off, razor marks are text and Go template code is still evaluated; gotemplate-pause!, gotemplate-resume!, razor-pause! and razor-resume!
apply from their own line to the line of the matching resume, and the paused text comes out unchanged while the other lines are fully rendered. Names given to ignore-razor (API, command line flag, GOTEMPLATE_IGNORE_RAZOR) are text, but longer names and other
expressions are still evaluated. The text shown when rendering is disabled (--disable), rendered with razor off, gives the same result as the original document.''',
over=['inputs', 'configurations'],
text='every sequence of lines of text, razor and Go template code with marker lines inserted anywhere, every set of ignored names, every generated razor program',
why='razor_test.go and template_test.go have a few fixtures; per line state and the interaction between markers, delimiters and code need arbitrary sequences.',
files=['template/template_handler.go', 'template/template.go', 'template/razor.go', 'main.go'],
mechanism=[('pause/resume by line', 'template/template_handler.go processContentInternal'), ('IsCode/IsRazor', 'template/template.go'), ('ignored expressions', 'template/razor.go applyRazor')],
observe=['output of Template.ProcessContent', 'stdout and exit code of the command line'],
note='''Each generated line carries its full rendering and its rendering without razor; a per line automaton gives the expected output. Quick: 18000 documents, 400 command lines.''')
