P = dict(id='P12', title='Variables reach the templates with the right value, type and precedence',
statement='''Whatever the order of the arguments, imported variables are merged in the order optional files, required files, then named variables, a later one replacing the previous value of the same name, with the exact values (strings, numbers, booleans, lists,
dictionaries) written in JSON, YAML or HCL files whatever their extension, or standard input; named variables accept typed values, files and dictionaries, and unnamed values are listed in ARGS. Collections have the requested type, otherwise the one of the first imported file, otherwise JSON. userContext gives exactly these variables.
Template.Add, Template.Merge (which only fills what is missing) and Context() change what the next documents see, and never their arguments.''',
over=['inputs', 'configurations', 'histories'],
text='command lines with up to 12 imports and variables over shared names in each form and format, and sequences of changes to the context of an engine',
why='Three formats are auto-detected on the content, values are converted according to their look, and origins override each other: an error silently changes the configuration that is rendered.',
files=['context.go', 'collections/convert_data.go', 'template/template.go', 'main.go'],
mechanism=[('createContext', 'context.go'), ('ConvertData: detection of the format', 'collections/convert_data.go'), ('Template.Add/Merge/Context', 'template/template.go')],
observe=['each variable read back by a template as JSON, and the type of the context', 'Template.Context() after each change'],
note='''Native values are the oracle: 1200 command lines and 3000 sequences quick, 30000 and 100000 thorough.''')
