P = dict(id='P17', title='Mathematical template functions return the mathematical result',
statement='''Every arithmetic, bitwise, trigonometric, statistical and rounding function callable from templates returns what the operation defines on real numbers
(64 bits integers for bitwise operations), whether operands are numbers, numeric strings, variadic or given as a list (element-wise for unary functions, folded for add/mul/min/max/avg), and results that are whole
numbers representable exactly are rendered as integers. Invalid operands and divisions by zero give an error instead of a value.
to/until/n return exactly the arithmetic progression from start to stop (inclusive for to, exclusive for until) with the requested step, forward or backward, integers or decimals.''',
over=['inputs'],
text='every function of the mathematics categories, operands over integers up to 2^63, decimals, negative, huge, infinite and NaN values, strings and lists; ranges with all combinations of start, stop and step',
why='the existing tests cover a few values per function; overflow, list folding, operand conversion and range accumulation depend on values they do not sample.',
files=['template/extra_math.go', 'template/math_base.go', 'template/math_bits.go', 'template/math_trig.go', 'template/math_utilities.go', 'template/math_stats.go'],
mechanism=[('operand conversion and processing', 'template/math_utilities.go'), ('ranges', 'template/math_utilities.go')],
observe=['values returned through a template by each function'],
note='''Differential oracle: reference functions written independently over math/big-free float64 and int64 semantics. Quick 84000 calls. Trusts Go's math package for transcendental functions.''')
