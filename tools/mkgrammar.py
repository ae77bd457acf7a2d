"""Techniques and notes of the grammar checks (imported by mkmanifest)."""
RT = ("The ANTLR runtime's algorithms (longest match, adaptive LL prediction, error recovery) are taken as specified; what "
      "is analysed is the tables and generated code they run on.")
G = {
 "P27": ("automaton equivalence: the tokenizer's serialised automaton is compiled from the source into the longest-match "
         "machine it drives and compared by product construction with the shipped grammar and a frozen FCS-QL 2.0 grammar; "
         "token tables compared entry by entry", "Covers all inputs, no bound. " + RT),
 "P28": ("automaton equivalence per rule (prediction table, grammar file, .interp, frozen FCS-QL 2.0 grammar) and a joint "
         "abstract walk of each generated rule method with its automaton; abstract interpretation of the entry points for "
         "start rule, input and prediction mode", "All rules, all tokens, every path of every rule method up to the "
         "repetition of an (automaton state, code state) pair. " + RT),
 "P29": ("ordered-derivation analysis of the prediction table over all operator combinations against a stratified "
         "precedence grammar; joint walk of the rule methods; abstract interpretation of the tree builder",
         "Operator combinations up to 10 symbols (12 thorough) inside a segment, 8 (11) between segments; bounded, not "
         "for all lengths. " + RT),
 "P30": ("automaton product of the tokenizer with the language of identifier-shaped words; token kinds per rule from table, "
         "grammar and generated code; abstract interpretation of the tree builder per word kind",
         "Tokenizer and rules for all words; builder for the listed words of each kind in each position. " + RT),
 "P31": ("abstract interpretation of all context classes, listener and visitor with recording clients over child sequences "
         "enumerated from the grammar; joint walk of rule methods for the announced indices",
         "All 23 rules; children sequences up to 5 (7 thorough) per node. " + RT),
}
