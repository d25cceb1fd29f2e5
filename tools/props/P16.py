P = dict(id='P16', title='Generic dictionaries are maps: operations are exact and never alias',
statement='''For every sequence of operations on generic dictionaries (get, has, default, keys, values, clone, omit, merge, set, add, delete, flush, pop, transpose, types, native, create, count), in each of
the five flavours, results equal those of the mathematical map operation; keys are reported sorted; add accumulates values of an existing key in a list.
Merge keeps existing entries over merged ones, merges nested dictionaries recursively, gives priority to the first source, and never alters a source; clones are deep and altering them never reaches the original.''',
over=['histories', 'inputs'],
text='every history of 12 to 32 operations over a pool of dictionaries of one flavour with nested dictionaries and lists',
why='unit tests call each method once on a fixture; sharing between merged, cloned and source dictionaries is visible only over histories.',
files=['collections/dictionary.go', 'collections/implementation/dict_helper.go', 'json/generated_impl.go', 'yaml/generated_impl.go', 'hcl/generated_impl.go', 'xml/generated_impl.go'],
mechanism=[('dict helper generic implementation', 'collections/implementation'), ('generated flavours', '*/generated_impl.go')],
observe=['the dictionaries of the pool after each operation', 'results of the operations'],
note='''Histories with an online model checker: after each operation, the result and every dictionary of the pool are compared with a native Go model. Quick 20000 histories (~430000 operations).''')
