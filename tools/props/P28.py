P = dict(id='P28', title='Go values of any type are converted to the plain data they represent',
statement='''For every Go value given by a program (structures with tags, maps with keys of any scalar type, slices, arrays, pointers, interfaces, named types, nil at any depth), MarshalGo gives the plain maps, lists and scalars it represents: fields under the name of their tag (first of hcl, json, yaml, xml, toml), without those ignored, hidden or omitted when empty, inlined or squashed structures merged, all the other fields under the value of the key field; the HCL, tfvars and bash representations are those of this data.
TryConvert, AsList and AsDictionary convert containers deeply to the collections of the helper, leave other values untouched, never panic nor change their argument; templates render native containers as they do the plain data.''',
over=['inputs'],
text='every generated type up to 5 levels and every value of these types',
why='the unit tests convert a handful of structures; nil at a depth, tags combined, arrays, named types and several fields with a key are only met by programs.',
files=['collections/convert_data.go', 'collections/utils.go', 'collections/implementation/base_helper.go', 'hcl/hcl.go', 'hcl/utilities.go'],
mechanism=[('MarshalGo, getTags', 'collections/convert_data.go'), ('TryAsDictionary, TryAsList, NeedConversion', 'collections/implementation/base_helper.go')],
observe=['converted values and their types', 'representations', 'rendered text', 'arguments after the calls'],
note='''Types are created at run time (reflect.StructOf, MapOf, SliceOf...), the value and the data it stands for are generated together. Quick 20000 conversions of structures, 20000 conversions to the collections of the five packages, 3000 documents rendered with the native context and with the plain one.''')
