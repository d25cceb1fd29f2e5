P = dict(id='P22', title='Engines used concurrently by several goroutines do not disturb each other',
statement='''When several goroutines each create and use their own engine at the same time (with their own context, options, delimiters and substitutes), including as the very first use of the library in a process, every document gives the same text and the same error as when its engine works alone, no call blocks forever, and no access to the state the engines share (Razor expressions, tables of functions, parser, collection helpers) is unsynchronised.
The same holds for conversions (YAML, JSON, HCL, XML, native) and for operations on collections each owned by one goroutine.''',
over=['schedules', 'inputs'],
text='every interleaving of 2 to 8 goroutines owning their engines or collections, every document',
why='the library is embedded in other tools (tests themselves are parallel); the conversions rely on process-wide tables built lazily, and a race manifests only under particular schedules.',
files=['template/razor.go', 'template/template.go', 'template/template_handler.go', 'template/add_funcs.go', 'template/func_table.go', 'template/extra_sprig.go', 'collections/dictionary.go', 'collections/generic_list.go', 'utils/exec.go'],
mechanism=[('razorMutex and cache of expressions per delimiters', 'template/razor.go'), ('addFuncMutex, templateMutex', 'template/add_funcs.go'), ('helper mutexes', 'collections/dictionary.go')],
observe=['text and error of each document with and without others', 'reports of the race detector', 'goroutines that do not end'],
race=True,
note='''Go race detector (-race build of the harness and of the library) plus an output oracle. Quick: 120 + 80 groups of 2 to 8 engines starting at a barrier with random yields and sleeps under 1 to 8 processors, 60 new processes whose first engines are concurrent, and 200 groups working on collections. Each result is compared with the same engine working alone; each distinct pair of racing functions is a violation.''')
