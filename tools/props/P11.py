P = dict(id='P11', title='The files that match are all processed, once, and no other file is',
statement='''The files processed are those matching one of the patterns (*.gt and *.template by default, plus those given) in the source folder and its sub folders up to the requested depth, including hidden folders and, with follow-symlinks,
the folders reached by links even if they loop, minus those matching an exclusion pattern, plus the files explicitly given. Each is processed exactly once whatever the number of patterns, links or arguments leading to it,
and whatever the characters used in the names of the folders.''',
over=['inputs', 'configurations'],
text='random trees of up to 12 folders and 13 files with cycles of links, 0 to 3 patterns, exclusions relative, absolute or recursive, depths from 0 to unlimited, source folder with special characters',
why='Recursion, loops of links, several patterns and exclusions interact; a missed or doubled file is silent.',
files=['utils/io.go', 'utilities.go', 'main.go'],
mechanism=[('FindFilesMaxDepth', 'utils/io.go'), ('exclude', 'utilities.go'), ('source, patterns and explicit files', 'main.go')],
observe=['lines printed by the command line: each line of each file has a unique marker'],
note='''An independent walk of the model of the tree gives the expected set: 1500 trees quick, 40000 thorough.''')
