# (level, note) per property; mkmanifest.py appends the obligation counts and the trusted base.
LEVEL['H01'] = ('proof', 'Every int pair for + - * and negation, the panic decision of / and %, float operators and the type dispatch are discharged for all inputs; quotient and remainder values are bounded; the operator tables of the parser are discharged.')
LEVEL['H02'] = ('exploration', 'Equality, order and hashing of scalars are discharged for all values, string order up to a length; nested collections, sort and dict keys are decided by the stand-in only.')
LEVEL['H03'] = ('exploration', 'Every index against arrays and strings of bounded length, the type dispatch of reads and writes for every kind of value; the collection functions of std are decided by the stand-in.')
LEVEL['H04'] = ('proof', 'For every node kind but pipelines, conditionals in command blocks and for bodies: whatever each sub-expression does (a value of any type, panic, return, break), the sub-expressions are evaluated in order, once, and only when due. Calls and literals with up to two parts.')
LEVEL['H05'] = ('exploration', 'Every statement kind under contract, for every outcome of its parts; loops for a bounded number of iterations.')
LEVEL['H06'] = ('exploration', 'Calls (arity, argument slots, self, captures, stack height afterwards) and the stack operations under contract, with at most two arguments and small stacks; deep recursion by the stand-in (native stack not modelled: known finding).')
LEVEL['H07'] = ('exploration', 'Only the call of a native function is under contract; catch, import and everything else by the stand-in.')
LEVEL['H08'] = ('exploration', 'Scope tables (declaration, resolution, shadowing, capture through nested functions) and the run-time stack under contract with small tables; whole programs by the stand-in against a reference interpreter.')
LEVEL['H09'] = ('exploration', 'The analysis of while, for, let, break, blocks and top level under contract for every outcome of their parts; return, assignment and function nodes and the rejection by the binary by the stand-in.')
LEVEL['H10'] = ('exploration', 'One step of each lexer automaton under contract for every byte in every state; literals as built by the interpreter; whole-program spelling by the stand-in.')
LEVEL['H11'] = ('exploration', 'Operator tables for every operator; the parse of chains covering every level in both directions; statement shapes under contract; whole programs by the stand-in against an independent printer and evaluator.')
LEVEL['H12'] = ('exploration', 'Bounded: the parse of a word and its expansion build operating-system strings that the verifier cannot carry; the stand-in runs the real binary.')
LEVEL['H13'] = ('exploration', 'Bounded: processes, exit statuses and signals are outside the verifier; the stand-in runs the real binary.')
LEVEL['H14'] = ('exploration', 'Bounded: descriptors, files and pipes are outside the verifier; the stand-in runs the real binary.')
LEVEL['H15'] = ('proof', 'Ranges of every combination of number kinds and of every start, end and step; the head of the for loop for every value; one iteration of the loop. Iteration over collections by the stand-in.')
LEVEL['H16'] = ('exploration', 'Bounded: the encoders are dependencies and float formatting is outside the verifier; the stand-in runs the real binary.')
LEVEL['H17'] = ('exploration', 'One step of each lexer automaton for every byte in every state (always progresses, never panics) and error recovery of the parser under contract; whole inputs by the stand-in.')
