P = dict(id='P24', title='Function table is coherent: addons, aliases, examples and help agree',
statement='''For every set of addons, the functions that exist are exactly those of the enabled addons (a later addon taking over a name) plus the base ones, each doing what it does with its addon alone, and the others are undefined; functions and aliases are disjoint sorted lists whose union is allFunctions, an alias names a function that lists it and gives the same result or error as it.
Every documented example converts and renders to what is documented, whatever the context; the list command shows exactly the functions that match its filters (name and aliases, groups with -c, descriptions with -l); the functions and aliases defined by extensions are described as they were declared; list -t and templateNames give exactly the templates defined in the extensions and documents.''',
over=['inputs', 'histories'],
text='every set of addons, every call of functions with small arguments under their names and aliases, examples in any order, every list filter',
why='the table of about 500 names is assembled from maps with overriding and aliases; tests check only the examples in one engine.',
files=['template/func_table.go', 'template/add_funcs.go', 'template/extra_sprig.go', 'template/extra_math.go', 'template/extra_data.go', 'template/extra_runtime.go', 'template/extra_utils.go', 'template/template_help.go', 'template/template_error_handler.go'],
mechanism=[('addFunctions, aliases', 'template/func_table.go'), ('addFuncs order', 'template/add_funcs.go'), ('filterFunctions', 'template/template_help.go')],
observe=['descriptions given by function, functions, aliases, categories', 'results of calls', 'output of gotemplate list'],
note='''Tables are read through a probe function added to the engine. Quick: 150 sets of addons (50000 entries compared with the ordered union of the tables of single addons), 2500x10 calls compared between a name and its alias, 1500x8 calls under random addons, 100 random orders of all examples, 200 runs of the list command for functions 150 for templates, and 150 sets of user functions.''')
