P = dict(id='P19', title='An option means the same however it is given on the command line',
statement='''For every combination of options of the command line, the files written, the standard output, the messages and the exit code do not depend on the spelling of each option (long name, alias, short name, grouped short switches, value joined to the name or not, --no- form of the addons, or its GOTEMPLATE_ environment variable, newline separated for repeatable options; values beginning with @ included), nor on the order of distinct options and of the templates, nor on the presence of the run command.
The order of the values of one repeatable option is kept.''',
over=['inputs'],
text='every set of options with values, every spelling, order and way to give them, over every small folder of templates',
why='options interact with a default command, automatic aliases and environment variables; the unit tests never run the command line.',
files=['main.go', 'template/options.go', 'template/template_handler.go', 'template/template_process.go'],
mechanism=[('flag declarations, aliases and environment', 'main.go'), ('second parse with the default command', 'main.go')],
observe=['files of the folder after the run', 'stdout, stderr, exit code'],
note='''Metamorphic oracle over runs of the real binary: a canonical spelling (run templates --long=value...) is compared with two random spellings of the same options in the same folder. Quick 1200 option sets (3600 processes). What each option means is decided by P04, P09 to P12 and P20.''')
