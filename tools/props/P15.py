P = dict(id='P15', title='Generic lists behave as values: operations are exact and never alias',
statement='''For every sequence of operations on generic lists (append, prepend, clone, reverse, remove, pop, set, get, unique, union, intersect, without, contains, find, removeEmpty, removeNil,
first/last, strings, types, create), in each of the five flavours (base, json, yaml, hcl, xml), every result equals the one of the mathematical list operation: negative indexes
count from the end, out of range reads give nil, set beyond the end extends with nil. An operation that returns a new list never alters its receiver, its arguments or any other
list obtained before, and altering a clone (nested elements included) never reaches its source.''',
over=['histories', 'inputs'],
text='every history of 12 to 32 operations over a pool of lists of one flavour, elements being scalars, strings, nil, nested lists and dictionaries',
why='the generated tests run each method once on fresh lists; aliasing of backing arrays and nested values only shows when results of earlier operations are still held and compared after later ones.',
files=['collections/generic_list.go', 'collections/implementation/list_helper.go', 'json/generated_impl.go', 'yaml/generated_impl.go', 'hcl/generated_impl.go', 'xml/generated_impl.go'],
mechanism=[('list helper generic implementation', 'collections/implementation'), ('generated flavours', '*/generated_impl.go')],
observe=['the lists of the pool after each operation', 'results of the operations'],
note='''Histories with an online model checker: after each operation, the result and every list of the pool are compared with a native Go model. Quick 20000 histories (~370000 operations).''')
