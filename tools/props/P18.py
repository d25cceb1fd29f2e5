P = dict(id='P18', title='Text functions and String methods compute what they document',
statement='''Every text, including multi-line, Unicode and quoted ones, is treated exactly as documented by the methods of String and of arrays of strings (search, split, trim, replace, indent, center, line numbers, identifiers, quote) and by the functions splitLines, joinLines, concat, center, wrap, indent, nIndent, sIndent, formatList, id, lenc, find and stripColor; lorem gives a text of the kind and size asked.
Protect hides exactly the quoted strings and RestoreProtected gives the original text back; GetWordAtPosition and GetContextAtPosition select the word and the innermost delimiters around a position; UnIndent removes the common indentation of all lines or nothing.''',
over=['inputs'],
text='random texts with words, lines, indentation, quotes, escapes, multi-byte characters, regular expression and format characters, with arguments that are often part of the text',
why='Indentation and text assembly decide the validity of generated YAML or code, and the same helpers implement the protection of strings in Razor and the location of errors.',
files=['collections/string.go', 'collections/string_array.go', 'collections/string_util.go', 'template/extra_utils.go', 'utils/list.go'],
mechanism=[('String methods', 'collections/string.go'), ('StringArray', 'collections/string_array.go'), ('WrapString/UnIndent/Indent/CenterString', 'collections/string_util.go'), ('id/indent/center/formatList', 'template/extra_utils.go')],
observe=['values captured by a function added to the engine', 'results of the exported API'],
note='''Independent models (and the strings package for its direct counterparts) are the oracle: 58000 calls quick, 1160000 thorough. wrap on unindented ASCII text only; the last newline ignored by center and wrap is excluded.''')
