TECH.update({
    'C01': 'bounded exhaustive enumeration of operand types and values on the real evaluator against an integer-semantics model',
    'C02': 'bounded exhaustive enumeration of expression trees, explicit-state abstract machine as oracle, traces replayed on the implementation',
    'C03': 'bounded exhaustive enumeration of conversions on the real evaluator against a conversion model',
    'C04': 'explicit-state model of structured programs, all statement trees x all decision sequences to a bound, traces replayed on the implementation',
    'C05': 'explicit-state model of calls, all call sequences/trees/recursion templates to a bound, replayed on the implementation',
    'C06': 'explicit-state model of scopes, all sequences of scope operations to a bound, replayed on the implementation',
    'C07': 'operation-sequence model checking: all call sequences to a depth against a model of static objects',
    'C08': 'bounded exhaustive enumeration of aggregate types, compared with gcc running the same program',
    'C09': 'operation-sequence model checking against a byte-addressed memory model, replayed on the implementation',
    'C10': 'bounded exhaustive enumeration of native signatures and argument values through compiled probe libraries',
    'C11': 'operation-sequence model checking of callback histories through a compiled probe library',
    'C12': 'exhaustive fault (collection-point) enumeration on the real collector: every allocation point, all pairs, AddressSanitizer',
    'C13': 'bounded exhaustive enumeration of specifier sequences against the C grammar, sizes and arithmetic probed on the implementation',
    'C14': 'bounded exhaustive enumeration of enumerator lists and uses against a model',
    'C15': 'bounded exhaustive enumeration of literal spellings against a model of C lexing',
    'C16': 'bounded exhaustive enumeration of argument vectors, exit statuses and script shapes on the real program',
    'C17': 'operation-sequence model checking of REPL sessions: all line sequences to a depth against a session model',
    'C18': 'operation-sequence model checking of completion: all session prefixes x all prefixes against a model of visible names',
    'C19': 'operation-sequence model checking: all kinds of object x update histories, inspector output against a model',
    'C20': 'fault enumeration: every kind of error at every position of every template program',
    'C21': 'bounded exhaustive enumeration of declarators and typedef chains, used through every operation their type has',
    'C22': 'bounded exhaustive enumeration of programs, dumps parsed and compared with the program that was dumped',
    'C23': 'bounded exhaustive enumeration of configurations (-I lists, libraries, headers) and operation-sequence model checking of sessions with #include against a model of visible names',
    'C24': 'operation-sequence model checking: a model of the script (a coroutine) and of its sessions together, all interleavings of lines and ends of input to a bound, replayed on the implementation',
})
