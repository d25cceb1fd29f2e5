P = dict(id='P08', title='Sub-templates, included content, user functions and extensions compose',
statement='''A template, file or text that is included renders what its content means with, in this order of precedence, the dictionary it is given (nested dictionaries being merged),
the context of the engine, and the arguments in ARGS when they are not a dictionary; _ is the context of its parent, and the template action uses its argument only. User functions bind their positional or named arguments,
their defaults then the globals, aliases prepend their own arguments, and all of them nest and can be piped. What the .gte files found up to the extension depth (in the current folder or GOTEMPLATE_PATH) define is available
to documents of any folder, even if one of these files is in error, and is not when extensions are disabled. What a template or alias of an extension refers to is searched in the folder of the engine (alias) or of the file that defines it (local alias, function).''',
over=['inputs', 'programs', 'configurations'],
text='sets of 3 to 8 definitions (templates, files, functions, aliases, inline code, in the document or in an extension) calling each other with dictionaries, lists or nothing, and trees of extension files',
why='Precedence, nesting and piping of definitions combine: tests include single templates. The result must not depend on the kind of definition, its nesting, or which keys its arguments hide.',
files=['template/extra_runtime.go', 'template/template.go', 'collections/implementation/dict_helper.go', 'utils/io.go'],
mechanism=[('runTemplate: context of the included template', 'template/extra_runtime.go'), ('addAlias: arguments and defaults of functions', 'template/extra_runtime.go'), ('initExtension', 'template/template.go')],
observe=['result of Template.ProcessContent on generated folders', 'output and exit code of the command line with extensions'],
note='''A model (interpreter of the generated definitions, written independently) gives the expected text of 4000 documents quick (150000 thorough) and 150 extension trees (4000); 600 trees decide which folder each kind of definition uses (12000).''')
