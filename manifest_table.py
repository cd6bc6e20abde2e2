# One line per property: deciding technique, note on the strength.
M = 'runtime monitor: '
T.update({
 'C02': (M + 'generated multi-function programs and arity/position tables run under bash, online comparison with a reference interpreter',
         'Every table entry (arity, results, swaps, frames, globals, nesting) and every generated program behaved as the reference interpreter prescribes. Sampling of an infinite space; trusts the reference interpreter and the sandbox bash.'),
 'C03': (M + 'slice histories, subscript tables and generated programs run under bash, online comparison with a reference interpreter',
         'All (start,end) pairs over short strings and every slice history explored behaved as the reference prescribes. Sampling beyond the tables; trusts the reference interpreter and the sandbox bash.'),
 'C04': (M + 'effect traces printed by tracing calls in every expression position, compared with the prescribed evaluation order',
         'The trace of every template and generated program equalled the strict left-to-right, exactly-once, eager order. Sampling; trusts the reference interpreter and the sandbox bash.'),
 'C05': (M + 'emitted Batch scripts executed by a cmd.exe model, compared with a 32-bit reference interpreter (and with bash for a share)',
         'Same programs as C01-C04 under a hand-written model of cmd.exe; the model, calibrated on the expectations of the repository, is trusted.'),
 'C06': (M + 'acceptance oracle: every typed position of the grammar filled with every type, single type corruptions of generated well-typed programs, observed at the result of Transpile for both targets',
         'Every (position, context, offered type) combination of the table and every corruption explored was rejected without a script or accepted, as the typing rules say, identically for both targets. Exhaustive over the table, sampling beyond it.'),
 'C07': (M + 'acceptance oracle: definition/use skeletons over all pairs of scopes, misplaced constructs in all places, generated programs and their scope mutants, observed at the result of Transpile',
         'Every skeleton was accepted or rejected as lexical scoping prescribes. Exhaustive over the skeleton pairs, sampling beyond them.'),
 'C08': (M + 'hostile string values from five origins through every data path, run under bash with canaries and bait files, byte comparison of stdout, stderr, status and directory with a reference interpreter',
         'Every printable character in every position class, a list of hostile strings and random strings arrived unchanged on all paths. Sampling of an infinite space; trusts the reference interpreter and the sandbox bash.'),
})
T.update({
 'C16': (M + 'structural monitors over every emitted script: bash -n, a scan of all command words and routine definitions, a structural parse of the Batch text with label/jump/call/helper discipline',
         'Every script emitted for the generated programs, construct nestings and builtin combinations was well-formed. Exhaustive nestings up to the depth of the tier, sampling beyond; trusts bash -n and the cmd.exe parser model.'),
})
T.update({
 'C09': (M + 'generated import graphs run under bash and the cmd.exe model, compared with a module-aware reference interpreter; resolution monitor over every invoked name; acceptance oracle for private, undefined and foreign names',
         'Every generated graph (aliases, diamonds, twins, colliding content hashes) and every input selection behaved as the composition of its modules. Sampling of an infinite space; trusts the reference interpreter, bash and the cmd.exe model.'),
})
T.update({
 'C10': (M + 'renamings of templates, generated and linked programs (harvested from the emitted scripts, derived shapes, shell names, case variants), executed under bash and the cmd.exe model, compared with the original program',
         'Every renamed program explored behaved as the original or was rejected. Every word of the scripts of the templates is used at least once for about half of the names; sampling beyond. Trusts bash and the cmd.exe model.'),
})
T.update({
 'C11': (M + 'token lists of the real tokenizer compared online with an independent longest-match tokenizer and with go/scanner on Go-compatible text',
         'Every pair of the vocabulary with every separation, every escape sequence, every character in every context and all random texts explored were split as the reference prescribes. Exhaustive over these tables, sampling beyond; trusts the reference tokenizer.'),
 'C12': (M + 'single layout changes at every token gap and line break of templates and random layouts of generated, linked and rejected programs, byte comparison of the emitted scripts with those of the original layout',
         'Every layout change of the tables at every position of the templates left acceptance and both scripts unchanged. Exhaustive over templates and kinds of change, sampling beyond.'),
})
T.update({
 'C13': (M + 'totality monitor (result shape, panics, process death, CPU and memory limits) over byte, token, near-miss, nesting, file-fault and import-graph inputs fed to the real transpiler in limited worker processes',
         'Every input explored ended within the limits with a script and no error or a non-empty error and no script. Sampling of an infinite space; a superlinear blow-up is seen only where it exceeds the CPU limit on the inputs generated.'),
})
T.update({
 'C15': (M + 'calls of every library function over exhaustive small tuples, every ASCII character and random strings, executed under bash and the cmd.exe model, compared with Go\'s strings package',
         'Every call explored returned what the Go function of the same name returns. Exhaustive over the small tuples, sampling beyond; trusts Go\'s strings package, bash and the cmd.exe model.'),
})
T.update({
 'C17': (M + 'histories of write/read/exists over hostile paths and contents run under bash in a scratch directory with decoys, compared with a model file system (stdout, status and the complete directory)',
         'Every path, content and history explored behaved as the line store prescribes and touched no other path. Sampling of an infinite space; trusts bash and the model file system.'),
})
T.update({
 'C18': (M + 'command chains of a probe program (name, argument vector, standard input and invocation log recorded) run under bash, compared with a model of the programs',
         'Every argument value, position, count, program name, chain, output and status explored arrived exactly as given, every program ran exactly once, captures were exact. Sampling of an infinite space; Bash only: Batch scripts cannot run programs here.'),
})
T.update({
 'C14': (M + 'histories of transpile calls over program trees (interleaved targets, errors, replaced files, relocated copies, fresh processes with other surroundings, the tsh command), byte comparison with the result of a fresh transpiler in a fresh process',
         'Every history, location and process explored returned the reference bytes. Sampling of an infinite space; the order of map iterations is whatever the Go runtime chose in the repetitions.'),
 'C19': (M + 'the built tsh command run in scratch directories over names, option orders, output directory states and faults; exit status and the complete directory before and after compared with the library results',
         'Every command explored wrote exactly the library output or failed without a new or changed output and left the input alone. Sampling of an infinite space; write faults are limited to file size limits, permissions and occupied names.'),
})
