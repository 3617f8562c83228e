EX = "exhaustive exploration of "
c("C13", "exhaustive enumeration of reader schedules and read faults against the in-memory parse", "fault_enumeration", "Every composition of short texts into chunks, every single and double split, empty reads, data with EOF, and a read error at every offset and read call, on the listed texts; file faults through real files and directories. Other texts are not covered.")
c("C14", "explicit-state model checking of cursor programs: every tree shape and operation assignment run on the real traversal and on a list model in lock step", "model_checking", "All tree shapes up to the bound and all assignments of cursor operations to the visited plugins; larger trees and other call-back behaviour are not covered. The model is bound to the code by replaying every model trace on it.")
c("C15", EX + "all strings over the relevant alphabets up to a length, plus all single bytes and runes, against a table-driven reference", "exploration", "Every string of the listed alphabets and lengths.")
c("C16", EX + "all strings over the relevant alphabets up to a length for every quoting style, read back through the real parser", "exploration", "Every string of the listed alphabets and lengths; invalid UTF-8 is outside the property.")
c("C17", "deviation-bounded exhaustive exploration of constructor programs; each built tree is printed and re-read by the reference parser", "exploration", "Every program that differs from the base programs in at most the bounded number of choices; trusts the reference parser.")
c("C18", EX + "all attribute lists up to a length and all error wrappings up to a depth against a reference lookup", "exploration", "Every list of the listed attribute kinds up to the bound.")
c("C24", EX + "all option combinations, orders and expression limits over a document set", "exploration", "All combinations and all limits on the listed documents; other documents are not covered.")
c("C26", EX + "digit strings, powers of two and ten and their neighbours in all number places against exact rational arithmetic", "exploration", "All numbers of the listed families; other doubles are not covered.")
c("C11", "exhaustive exploration of operation histories: every sequence of public operations up to a depth in fresh processes, each observation compared with the same operation run alone", "exploration", "Every history over the operation alphabet up to the bound; other operations and longer histories are not covered.")
c("C12", "stateless model checking: preemption-bounded exhaustive schedule exploration of the real code under a controlled scheduler, with the race detector on every schedule", "model_checking", "Every schedule of the listed operation pairs and triples up to the preemption bound at every shared-state access the instrumentation sees (package variables, sync, atomic); weak-memory effects only through the race detector.")
CLI = "explicit-state model of the command (files, arguments, options) explored exhaustively; every transition is run on the real binary in lock step and compared"
CN = "Every state of the listed file contents, argument orders and options up to the bound; other contents are not covered. Trusts the reference parser and printer in mc/."
c("C19", CLI, "model_checking", CN)
c("C20", CLI, "model_checking", CN)
c("C21", CLI, "model_checking", CN)
c("C22", CLI, "model_checking", CN)
c("C23", "exhaustive fault and crash-point enumeration: every system call of the real tool as kill, error, delayed-write loss, short transfer and torn write, singly and in pairs (thorough: triples)", "fault_enumeration", "Every fault of the listed kinds at every system call of 25 scenarios; faults are injected in package syscall of the standard library the tool is linked with. Process crashes only, not power loss. Known finding: the rewrite truncates before it writes.")
c("C27", EX + "nested, repeated and broken texts; each is parsed by the real parser under an expression limit linear in its length", "exploration", "Every text of the listed spaces; the constant (1000 per byte) is four times the largest number seen. Work outside of expression evaluation (actions) is not counted.")
c("C28", "explicit-state model of the command line (words, option state, files) explored exhaustively; every line is run on the real binary in lock step and compared", "model_checking", "Every line of at most 3 words over 31 words, and of 4 words (thorough: 5) over 11; lines with an option in front of the command may be refused or understood.")
c("C29", DOC, "exploration", "Every node of every accepted enumerated text is printed alone and read back." + DN)
c("C30", "explicit-state model checking of edit sequences: all sequences of edits at all sites up to a depth, executed on real trees and on a model of values in lock step", "model_checking", "Every single edit of the listed trees, pairs and triples within the bounds stated in the evidence; nodes that a program itself puts into two places are outside. The model is bound to the code by executing every trace.")
NA = {}
