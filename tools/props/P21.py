P = dict(id='P21', title='Commands and files asked by templates are what the operating system gives',
statement='''run gives exactly the standard output of the command executed in the folder of the template: a program receives each argument as it is (patterns of existing files expanded), other text is a script for the shell or for the program of its #! line, and template code inside is rendered first; exec gives the value of the output; a failing or unknown command is an error that carries the exit status and the error output, and no temporary file stays behind.
save then load gives the same bytes; exists, isDir, isFile, isReadable, isWriteable, isExecutable, size, mode, lastMod, glob, lookPath, joinPath, pwd and current agree with the file system, and a missing file is an error (except for exists); user, username, home and group are those of the process.
diff shows both texts: removing what it marks as inserted gives the first, as deleted the second.''',
over=['inputs'],
text='every command line, script, argument, file content, permission, date and pattern of the generated shapes',
why='the existing tests run two or three fixed commands; quoting of arguments, folder of execution, cleaning and permissions can be observed only on varied executions.',
files=['template/extra_os.go', 'template/extra_runtime.go', 'utils/exec.go', 'utils/io.go'],
mechanism=[('run, exec, runTemplate', 'template/extra_runtime.go'), ('GetCommandFromString, GetCommandFromFile', 'utils/exec.go'), ('file functions', 'template/extra_os.go'), ('globFunc', 'utils/io.go')],
observe=['value given by the functions', 'files written', 'temporary folder', 'exit code of the command line'],
note='''Oracle: the same script given to bash by the monitor, the arguments printed by printf, the file system calls of the Go standard library on files that the monitor created. Quick: 3000 commands, 400 exec, 300 command line runs that look for left files, 1500 folders of files, 1500 differences. All files are in the scratch folder of the case.''')
