P = dict(id='P26', title='Git, network, terraform and terminal integrations are faithful',
statement='''currentCommit, currentBranch and origin give what git itself says of the repository at this path whatever its state (commits, branches, packed references, detached head, several remotes), or an error when git has no answer.
httpGet and httpDoc (and its aliases) give the status, the headers and the document that the server answers to a GET of the url, or an error if nothing answers.
When terraform is installed, terraform fmt is executed in exactly the folders where files named .tf, .tfvars or .tf.json were written, the printed ones being formatted too; without it, or when it fails, the files are what the templates give.
Colours asked by templates are rendered when colours are enabled (--color) and are not otherwise.''',
over=['inputs', 'histories', 'configurations'],
text='every history of a repository made of the generated git commands, every generated page and status, every tree of templates with or without a terraform program that succeeds or fails',
why='the tests have no repository, server or terraform program; the answers depend on the state of these.',
files=['template/extra_git.go', 'template/extra_net.go', 'utils/terraform.go', 'template/template_handler.go', 'main.go'],
mechanism=[('git functions', 'template/extra_git.go'), ('httpGet, httpDocument', 'template/extra_net.go'), ('TerraformFormat', 'utils/terraform.go'), ('printResult', 'template/template_handler.go'), ('color.NoColor', 'main.go')],
observe=['text given by the functions', 'executions recorded by a stand-in for terraform', 'files and stdout of the command line'],
note='''Oracles: the git program, a local HTTP server of the monitor, a stand-in terraform that records each execution and changes the files in a known way. Quick: 250 histories (1000 repository states), 2000 pages, 400 trees, 300 coloured documents.''')
