P = dict(id='P09', title='Each processed file gives the documented target file, content and mode',
statement='''Processing a file writes its result, byte for byte, at its path relative to the source under the target folder, without its .gt or .template suffix (name.generated.ext for a template that is in the same folder without
overwrite), with the permissions of its source (0755 if the result is a script), missing folders being created and an existing target keeping its permissions; in the same folder, an unchanged file is not written, a changed one keeps its source as .original
(or is overwritten), an overwritten template is removed. A blank result without extension gives nothing, -P or a gotemplate shebang prints the result instead of writing it, and no other file or folder is created, modified or removed. Running the command again follows the same rules.''',
over=['inputs', 'configurations', 'histories'],
text='random trees of 2 to 8 files (names with spaces, brackets, dots, modes, existing targets) processed with each combination of source, target, overwrite, print, substitution, patterns and explicit files, twice',
why='The destination depends on the folder, suffix, extension, change, options and pre-existing files together; a test looks at one combination, and losing or overwriting the wrong file loses the data of the user.',
files=['template/template_handler.go', 'template/template_process.go', 'template/utils.go', 'main.go', 'utils/io.go'],
mechanism=[('processTemplate: target, original, mode', 'template/template_handler.go'), ('getTargetFile', 'template/utils.go'), ('Overwrite when source is not target', 'main.go')],
observe=['tree of files (content, mode, links, folders) before and after the command line', 'stdout and exit code'],
note='''A model of the file system predicts the exact tree and output after each of two successive runs: 1500 trees quick, 40000 thorough.''')
