"""The FCS-QL 2.0 grammar (CLARIN-FCS Core 2.0, section on FCS-QL), frozen as
the oracle for the grammar shipped with the package.  Token numbers follow the
order of the token rules."""

LEXER = r"""
lexer grammar FCSLexer;
L_PAREN: '('; R_PAREN: ')'; L_SQUARE_BRACKET: '['; R_SQUARE_BRACKET: ']';
OR: '|'; AND: '&'; NOT: '!'; FWD_SLASH: '/';
L_CURLY_BRACKET: '{'; R_CURLY_BRACKET: '}';
Q_ONE_OR_MORE: '+'; Q_ZERO_OR_MORE: '*'; Q_ZERO_OR_ONE: '?'; Q_COMMA: ',';
OPERATOR_EQ: '='; OPERATOR_NE: '!='; COLON: ':';
WITHIN: 'within';
SIMPLE_WITHIN_SCOPE: 'sentence' | 's' | 'utterance' | 'u' | 'paragraph' | 'p' | 'turn' | 't' | 'text' | 'session';
REGEXP_FLAGS: [iIcCld]+;
IDENTIFIER: [a-zA-Z] ([a-zA-Z0-9\-]* [a-zA-Z0-9])?;
INTEGER: [0-9]+;
REGEXP: ['] (ESCAPED | ~['\\])* ['] | ["] (ESCAPED | ~["\\])* ["];
QUOTED_STRING: ['] (ESCAPED | ~['\\])* ['] | ["] (ESCAPED | ~["\\])* ["];
fragment ESCAPED: '\\' ([\\'"nt.^$*+?(){}\[\]|] | 'x' HEX HEX | 'u' HEX HEX HEX HEX
                        | 'U' HEX HEX HEX HEX HEX HEX HEX HEX);
fragment HEX: [0-9a-fA-F];
Space: [\u0009-\u000D\u0020\u0085\u00A0\u1680\u2000-\u200A\u2028\u2029\u202F\u205F\u3000] -> skip;
"""

PARSER = r"""
parser grammar FCSParser;
query: main_query (WITHIN within_part)? EOF;
main_query: query_simple | query_group | query_sequence | query_disjunction;
query_disjunction: (query_simple | query_sequence | query_group) (OR (query_simple | query_sequence | query_group))+;
query_sequence: (query_simple | query_group)+;
query_group: L_PAREN (query_disjunction | query_sequence) R_PAREN quantifier?;
query_simple: (query_implicit | query_segment) quantifier?;
quantifier: Q_ONE_OR_MORE | Q_ZERO_OR_MORE | Q_ZERO_OR_ONE
    | L_CURLY_BRACKET (INTEGER | INTEGER? Q_COMMA INTEGER | INTEGER Q_COMMA INTEGER?) R_CURLY_BRACKET;
query_implicit: regexp;
query_segment: L_SQUARE_BRACKET expression? R_SQUARE_BRACKET;
within_part: within_part_simple;
within_part_simple: SIMPLE_WITHIN_SCOPE;
expression: expression_basic | expression_group | expression_or | expression_and | expression_not;
expression_or: (expression_basic | expression_group | expression_and | expression_not)
    (OR (expression_basic | expression_group | expression_and | expression_not))+;
expression_and: (expression_basic | expression_group | expression_not)
    (AND (expression_basic | expression_group | expression_or | expression_not))+;
expression_group: L_PAREN (expression_basic | expression_group | expression_or | expression_and | expression_not) R_PAREN;
expression_not: NOT (expression_basic | expression_group | expression_not | expression_or | expression_and);
expression_basic: attribute (OPERATOR_EQ | OPERATOR_NE) regexp;
attribute: (qualifier COLON)? identifier;
qualifier: IDENTIFIER | WITHIN | SIMPLE_WITHIN_SCOPE | REGEXP_FLAGS;
identifier: IDENTIFIER | WITHIN | SIMPLE_WITHIN_SCOPE | REGEXP_FLAGS;
regexp: regexp_pattern (FWD_SLASH regexp_flag)?;
regexp_pattern: REGEXP;
regexp_flag: REGEXP_FLAGS;
"""
