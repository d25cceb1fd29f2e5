P = dict(id='P13', title='Values written as JSON, YAML, HCL, TFVars or bash are read back unchanged',
statement='''Every value (nested lists and dictionaries of strings, numbers and booleans, any character, any key) written by toJson, toPrettyJson, toQuotedJson, toYaml, toHcl, toPrettyHcl, toTFVars, toPrettyTFVars, their quoted and internal variants is valid
for an independent parser, which reads exactly the value, and so do fromJson, fromYaml, fromHcl and data (HCL does not distinguish a list of one dictionary). Quoted variants are the string quotation of the plain one, and toJson is on one line.
What toBash gives, executed by bash, defines each variable, array and associative array with the exact values ($ introduces variables outside of dictionaries).''',
over=['inputs'],
text='random nested values with hostile strings and keys (look alikes of numbers, booleans, nulls, markers, comments, heredocs, control and Unicode characters), given to every conversion with either syntax',
why='Generated configuration files are consumed by other tools: a value that changes type, is cut, or breaks the file when it holds a special character is silent corruption or injection.',
files=['hcl/utilities.go', 'hcl/hcl.go', 'json/json.go', 'yaml/yaml.go', 'collections/convert_data.go', 'template/extra_data.go'],
mechanism=[('marshalHCL', 'hcl/utilities.go'), ('Marshal/Unmarshal', 'json/json.go, yaml/yaml.go, hcl/hcl.go'), ('toBash', 'collections/convert_data.go'), ('toXxx/fromXxx functions', 'template/extra_data.go')],
observe=['texts given by the functions', 'what encoding/json, yaml.v3, hashicorp/hcl and /bin/bash read from them', 'value captured from the fromXxx functions'],
note='''The native value is the oracle: 4000 values in JSON and YAML, 3000 in HCL (7 texts each), 500 bash scripts quick; 150000 each and 10000 scripts thorough. Excluded: texts that the YAML library itself does not read back (strings starting by blanks before a newline), HCL interpolation ${ and nulls read back.''')
