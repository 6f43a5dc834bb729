"""Parts that every expression tree of the parser has, by the kind of the node.  They are not taken from the code: they follow from the
productions of the grammar, which Q03 to Q08 compare the parser with (operators have their operands, bindings their value and what
they are bound in, and so on)."""
BOTH = ('left', 'right')
BINARY = ('Add Subtract Multiply Div IDiv Mod Concat Concatenate And Or To Union Intersect Except '
          'GeneralEQ GeneralNE GeneralLT GeneralLE GeneralGT GeneralGE ValueEQ ValueNE ValueLT ValueLE ValueGT ValueGE '
          'IsSameNode NodeBefore NodeAfter').split()
ALWAYS = {'Operator' + x: BOTH for x in BINARY}
ALWAYS.update({'OperatorUnaryMinus': ('right',), 'OperatorUnaryPlus': ('right',)})
ALWAYS.update({'Operator' + x: ('left', 'right') for x in ('InstanceOf', 'TreatAs', 'CastAs', 'CastableAs')})
ALWAYS.update({'IfExpr': BOTH, 'IfThenElse': BOTH})
ALWAYS.update({x + 'Expr': BOTH for x in ('For', 'Let', 'Some', 'Every')})
ALWAYS.update({x + 'VarBind': BOTH for x in ('For', 'Let', 'Some', 'Every')})
ALWAYS.update({'ApplyArgument': ('left',), 'ApplyPredicate': ('left',), 'ArgumentTop': ('left',), 'UnaryLookupByExpr': ('left',),
               'MapEntry': BOTH, 'ArrayEntry': ('left',), 'InlineFunction': BOTH, 'TypedFunctionTest': ('right',)})
