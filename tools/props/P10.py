P = dict(id='P10', title='A file in error does not affect the others, and the exit code tells it',
statement='''When a template is in error, is missing, or its result cannot be written (target is a folder, parent is a file, device is full), nothing is written for it, an overwritten template is not removed, every other file is processed as if it
was alone, the error names it, and the exit code is 1; it is 0 if all files are processed. Errors in files that are not templates leave them unchanged (copied as is in another folder) without being failures, unless strict validation or force-gotemplate! is used.
A missing or invalid import, an invalid substitution, file pattern or flag, or a missing source folder prevents any processing with a non zero exit code, unless it is explicitly ignored.''',
over=['inputs', 'faults', 'configurations'],
text='random trees of 3 to 9 files with failing templates and obstacles (folders and files in the way, full device, missing files) in any order and combination; random command lines with missing or invalid requirements',
why='Faults happen at the reading, parsing, rendering, folder creation, renaming and writing steps, for any rank of the file in the batch; tests use good files.',
files=['template/template_handler.go', 'main.go', 'context.go', 'utilities.go'],
mechanism=[('ProcessTemplatesWithHandler: errors are accumulated', 'template/template_handler.go'), ('lenient error mode', 'template/template_handler.go'), ('exit codes', 'main.go')],
observe=['tree of files before and after the command line', 'stdout, stderr and exit code'],
note='''The model of P09 with injected faults: 1500 trees and 600 command lines quick, 40000 and 10000 thorough.''')
