P = dict(id='P14', title='Data functions compute what they document and alter only what they must',
statement='''The data functions of the templates (lists: append, prepend, reverse, unique, union, without, intersect, contains, find, removeEmpty, rest, initial, slice, extract, safeIndex, mergeList, repeat; dictionaries: get, set, unset, hasKey, keys, values, merge, omit, pick, pickv, pluck, dict, key, content;
values: array, char, lenc, isZero, isNil, undef, iif, bool, string, concat) and their aliases give exactly the documented result, or an error when there is none, called, piped or in Razor, on collections of any origin. Selectors, indexes (negative ones from the end) and slices (reversed when inverted) reach the documented element.
Only set, unset and merge change their target; every other argument is left unchanged, over any sequence of calls. A call whose last argument is followed by ... receives the elements of that list, and the error of pickv names the unexpected keys in the message given.''',
over=['inputs', 'histories'],
text='random calls of 50 functions with nested arguments from the context or from JSON/YAML texts, random paths in nested values, sequences of up to 15 changes to shared variables, calls ending by an ellipsis, and error messages of pickv',
why='Configurations are assembled with these functions: an off by one, a key missed, or a shared list modified by another call corrupts the result without any error.',
files=['template/extra_data.go', 'template/slice.go', 'template/extra_utils.go', 'utils/list.go', 'collections/implementation/list_helper.go', 'collections/implementation/dict_helper.go'],
mechanism=[('data functions', 'template/extra_data.go'), ('slice/extract/safeIndex/key/content', 'template/slice.go'), ('list and dictionary helpers', 'collections/implementation')],
observe=['values captured by a function added to the engine', 'values of the arguments after the call', 'errors', 'JSON of the context after a sequence'],
note='''Models on native Go values are the oracle: 30000 calls, 6000 paths and 4000 sequences quick; 600000, 200000 and 100000 thorough. The values received by a call ending by ... (3000) and the messages of pickv (1500) are compared too. Types of numbers are compared loosely.''')
