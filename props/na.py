"""Properties that static analysis can not decide here, with the reason."""
PROPS = []


def N(id, title, statement, over, quant, why, files, mechanism, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism, reason=reason, state=[]))


N('N01', 'Arithmetic expressions evaluate to the mathematically right value',
  'The value printed or stored for an arithmetic expression is the value the documented operator precedence and associativity give it, for every expression.',
  ['inputs'], 'all expressions', 'a handful of expressions is tested', ['pbat/command/pBat_Set.c', 'libfasteval/lib/parser.y'], [('expression grammar', 'libfasteval/lib/parser.y')],
  'quantifies over numerical results of runtime text; the shape of the grammar does not settle the values')
N('N02', 'Variable expansion yields the documented text',
  'Expanding a line replaces each variable reference, substring, substitution and parameter by exactly the documented text, and leaves every other character alone.',
  ['inputs'], 'all lines and environments', 'the expansion test contains a few lines', ['pbat/core/pBat_Var.c', 'pbat/core/pBat_Expand.c'], [('expansion', 'pbat/core/pBat_Var.c')],
  'string-valued equality over unbounded input: no sound static argument in reach bounds it')
N('N03', 'File-name patterns match exactly the documented names',
  'A name is selected by a pattern if and only if the documented wildcard rules say so.',
  ['inputs'], 'all patterns and names', 'no test enumerates patterns', ['libpbat/dir/pBat_Dir.c'], [('matching', 'libpbat/dir/pBat_Dir.c')],
  'a relation between two runtime strings; not visible in the shape of the code')
N('N04', 'Copied files are byte-for-byte identical to their sources',
  'After a successful copy the destination holds exactly the bytes of the source.',
  ['inputs'], 'all files', 'no test copies files', ['pbat/command/pBat_Copy.c'], [('copy loop', 'pbat/command/pBat_Copy.c')],
  'round-trip equality of runtime data; the structural clauses (errors diagnosed, handles closed, source kept) are claimed separately')
