L = "explicit-state lock-step exploration of the real simulator against a reference machine model"
t("C08", L, "All programs over alphabets of instruction words up to a bounded length from boundary start states; every step compares registers, PC, PSR, saved SP and all memory with an independent LC-3 model. Trusts that model.")
t("C09", L, "All 65536 words in user mode at border addresses and PCs, and sequences; memory, devices and the access record outside user space compared with the model.")
t("C10", L, "Every priority gate situation, every placement of a bounded number of interrupts in programs and OS code, and periodic sources; compared with the run without interrupts.")
t("C11", L, "All bounded inputs of every trap routine (all R0 values, all strings over an alphabet, all arrival times) compared with the contract.")
t("C12", L, "All words and all programs of bounded alphabets run with real and with virtual traps in lock-step until HALT or an exception.")
t("C13", L, "All sequences of run-style calls with breakpoints, limits and MCR writes over bounded program alphabets, compared with repeated single steps of a second machine.")
t("C14", L, "All words and sequences in strict and non-strict machines in lock-step over initialization patterns.")
t("C16", L, "All breakpoint trees up to a depth and programs of bounded alphabets, compared with a model of conditions and stops.")
t("C27", L, "All call/return/trap/interrupt sequences up to a depth with every call-signature kind; the frame stack is compared with the model after every step.")
t("C28", L, "All instruction words and programs of bounded alphabets; the observer's record is compared with the accesses of the model.")
t("C29", X, "All object files of bounded layouts and load sequences; memory is compared word by word with a load model.")
t("C30", "explicit-state enumeration of operation histories, each ended by reset, against a fresh machine", "All operation sequences up to a depth over an operation alphabet and flag settings; the whole visible state is compared with Simulator::new.")
t("C31", "exhaustive enumeration of configurations, two executions each compared step by step", "All bounded programs x strategies x seeds x timer ranges; two independent machines are compared after every step.")
t("C32", "explicit-state enumeration of operation histories against a port-table model", "All operation sequences up to a depth over add/remove/set/mmap/munmap/read/write, with recording devices and a port-table model.")
t("C33", "exhaustive enumeration of lock-holding schedules over instruction boundaries of the real simulator", "All 2^w patterns over windows of consecutive boundaries at every position, all placements of a bounded number of intervals, and all periodic patterns; exactly-once, in-order delivery.")
t("C34", "explicit-state enumeration of timer operation histories against an interval automaton", "All bounded histories of polls, toggles and resets over exact counts, ranges and seeds, and inside the simulator.")
