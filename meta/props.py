"""The property table: single source of properties.jsonl and MANIFEST.json."""


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]},
            "technique": technique, "note": note}


S = "src/"
PROPS = [
    P("C01", "Truth functions compute the NAL definitions for all truth values",
      "For every pair of truth values the truth functions (deduction, goal deduction, abduction, induction, comparison, intersection, negation, revision, expectation, confidence/weight conversion) return the value of their NAL definition: e.g. deduction f=f1*f2, c=c1*c2*f1*f2; revision adds evidence weights; w=c/(1-c). "
      "Frequency, confidence and expectation therefore stay in [0,1] and revision never lowers confidence. "
      "The only deviations are the documented values where a defining quotient is 0/0.",
      ["inputs"], "all truth values with frequency in [0,1] and confidence in [0,1)",
      "The tests evaluate no truth function directly; the formulas quantify over a continuum of real inputs.",
      [S + "Tv.rs", S + "TvVec.rs"], [("algebraic definitions", S + "Tv.rs")],
      "value-graph extraction + algebraic normalisation of each truth function", "Exact over the reals for all inputs; floating-point rounding is out of scope."),
    P("C02", "Conclusions only combine disjoint evidence and carry both evidence bases",
      "No conclusion of a two-premise inference, no revised belief, no goal derived from a goal and a rule, and no updated procedural evidence is ever produced from two premises whose evidence bases share an id. "
      "Each such conclusion carries the combination of the evidence bases of exactly the two premises whose term and truth value it was computed from.",
      ["inputs", "histories", "schedules"], "all premise pairs, all histories of input and derivation, both threads of the deriver",
      "Tests run a few derivations; double counting appears only for particular derivation histories in which evidence meets itself again.",
      [S + "NarWorkingCycle.rs", S + "NarInfProcedural.rs", S + "NarProc.rs", S + "NarStamp.rs"],
      [("overlap test before/after two-premise inference", S + "NarWorkingCycle.rs inference2"), ("overlap test in revision", S + "NarWorkingCycle.rs memReviseBelief"),
       ("overlap test in goal deduction", S + "NarInfProcedural.rs infGoalBelief"), ("overlap test in the evidence store worker", S + "NarProc.rs narInit")],
      "guard dominance over an interprocedural value-flow graph", "All paths of the analysed functions; assumes sentences do not change between test and use under their lock."),
    P("C03", "Evidence bases: overlap, combination and identity are exact",
      "Two evidence bases are reported as overlapping exactly if they have at least one id in common, at whatever positions, and as the same exactly if they hold the same ids in the same order. "
      "Combining two evidence bases yields the ids of both and nothing else, taken alternately from both, and drops ids only beyond the first 120.",
      ["inputs"], "all evidence bases of all lengths",
      "Tests only meet evidence bases with very few ids; partial scans, position-dependent comparisons and wrong cut-offs need long or unequal ones.",
      [S + "NarStamp.rs"], [("pairwise comparison", S + "NarStamp.rs checkOverlap"), ("interleaved merge with bound", S + "NarStamp.rs merge"), ("position-wise comparison", S + "NarStamp.rs checkSame")],
      "loop-exit and value-flow rules over the evidence-base operations", "All inputs; std container semantics assumed."),
    P("C04", "Every input enters once, with a fresh evidence id, at the right place",
      "Every accepted input sentence keeps its own term, punctuation and truth value and gets an evidence id never handed out before by that reasoner, whichever thread or operation asks for it. "
      "Eternal judgements and all questions go to declarative reasoning, eternal predictive implications to procedural knowledge (their truth value as counts of evidence), event judgements become observed events stamped with the current procedural time, and event goals become goals.",
      ["inputs", "histories", "schedules"], "all input sentences, all input sequences, all interleavings of threads that create sentences",
      "Uniqueness of ids and the complete routing table quantify over histories and all punctuation/tense/copula combinations; the tests use a handful.",
      [S + "Nar.rs", S + "OpLib.rs", S + "NarWorkingCycle.rs"], [("atomic id counter", S + "NarWorkingCycle.rs DeclarativeShared"), ("case split on punctuation/tense/copula", S + "Nar.rs inputT2")],
      "value-flow and case-split analysis of the input path; crate-wide effect check on the id counter", "All paths; 64-bit counter wrap-around ignored."),
    P("C05", "Two-premise conclusions are instances of the NAL rule table",
      "Every conclusion of two-premise inference is an instance of one of the documented rules (syllogisms for inheritance, similarity and implication, comparison, predicate intersection, union of intensional sets, conditional deduction with unification, detachment of one condition of a conjunction, answering an implication's question), with the shared term equal, the conclusion built from the right components and the rule's truth function applied to the truth values of the right premises. "
      "No conclusion relates a term to itself, and every rule applies whichever order the premises come in.",
      ["inputs"], "all pairs of sentences (terms of any shape, any punctuation, any truth value)",
      "The tests instantiate a few rules with fixed terms and one premise order; soundness quantifies over all premise shapes and orders.",
      [S + "NarWorkingCycle.rs"], [("rule functions and the two-order driver", S + "NarWorkingCycle.rs infBinary, infBinaryInner, inf*")],
      "rule-schema extraction from the value-flow graph, matched against the NAL table", "All paths of the rule code, both premise orders."),
    P("C06", "Single-premise conclusions are instances of the structural rule table",
      "Every conclusion drawn from a single judgement is an instance of one of the documented structural rules (double negation, product/image transformations, decomposition of intersections, sets, conjunctive and parallel compounds) with the documented truth value. "
      "It inherits exactly the premise's evidence base, and questions or goals yield no judgements.",
      ["inputs"], "all sentences", "The tests apply few structural rules to fixed terms.",
      [S + "NarWorkingCycle.rs"], [("structural rule functions", S + "NarWorkingCycle.rs infSinglePremise, infStruct*"), ("sentence construction", S + "NarWorkingCycle.rs infSinglePremise2")],
      "rule-schema extraction from the value-flow graph, matched against the structural table", "All paths of the rule code."),
    P("C07", "Term equality is structural identity and copies are identical",
      "Two terms compare equal exactly if they have the same kind, the same copula or name and pairwise equal components in the same order and number; this holds for both comparison functions and for hashing (equal terms hash alike). "
      "A copy of a term has the same kind and the same components as the original, at any nesting depth.",
      ["inputs"], "all terms of all kinds, sizes and nesting depths",
      "Tests compare few terms; prefix comparisons, ignored copulas, or one forgotten kind only show for particular pairs out of 15x15 kinds.",
      [S + "Term.rs"], [("structural comparison", S + "Term.rs checkEqTerm, PartialEq"), ("structural copy", S + "Term.rs Clone"), ("content hash", S + "Term.rs Hash")],
      "per-variant specialisation of the value-flow graph, checked against the type declaration", "All variant pairs, all paths; by structural induction all terms."),
    P("C08", "Operations over terms reach every component exactly as specified",
      "The subterms of a term are the term itself and the subterms of every component and nothing else; the unique subterms are the same without repetitions. "
      "Complexity counts every name, variable, statement and negation in the term once; the occurrence count counts every occurrence in every component. "
      "Variable introduction replaces every occurrence of the chosen terms wherever it stands and nothing else. "
      "Operation calls are encoded and decoded with the same name and arguments in the same order. A condition made a question keeps everything but its variables, which become question variables, different ones different.",
      ["inputs"], "all terms of all kinds, sizes and nesting depths",
      "A kind or a component that is skipped shows only for terms of that kind; tests use inheritance statements over names mostly.",
      [S + "Term.rs", S + "TermApi.rs", S + "NarInfProcedural.rs"],
      [("subterm enumeration", S + "Term.rs retSubterms, retUniqueSubterms"), ("complexity", S + "Term.rs calcComplexity"), ("occurrence counting", S + "Term.rs count_occurence_subterms"),
       ("replacement by variables", S + "NarInfProcedural.rs"), ("operation encoding", S + "Term.rs encodeOp, decodeOp")],
      "per-variant specialisation and additive normal forms, checked against the type declaration", "All variants, all paths; by structural induction all terms."),
    P("C09", "Unification is a consistent one-way match and substitution is total",
      "Unification succeeds exactly if binding the pattern's variables consistently (equal variables to equal terms) makes the pattern identical to the other term, and returns those bindings. "
      "Substitution replaces every bound variable at every depth by its value and leaves everything else as it was.",
      ["inputs"], "all pairs of terms, all assignments",
      "Tests unify a few statements; inconsistent bindings, ignored components or wrong lengths need repeated variables in particular compounds.",
      [S + "NarUnify.rs"], [("recursive match with assignment list", S + "NarUnify.rs unify"), ("recursive substitution", S + "NarUnify.rs unifySubst")],
      "per-variant-pair specialisation of the matcher, checked against the type declaration", "All variant pairs, all paths; by structural induction all terms."),
    P("C10", "A belief is found under every term it mentions, once, and the best are kept",
      "A stored judgement is afterwards found unchanged (same term, truth value, evidence, time) under itself and every subterm it mentions, in both belief tables of each of those concepts, unless the table already has a belief with the same term and overlapping evidence. "
      "A table holds at most the configured number of beliefs and always those which rank highest: by expectation in one table, by usefulness (use count against age) in the other. "
      "Looking up a concept, or several terms, yields all beliefs of both tables of all concerned concepts.",
      ["inputs", "histories"], "all judgements, all histories of stores, all table sizes",
      "Tests store few beliefs and never fill a table; losing the best belief or missing a subterm shows only with full tables or nested terms.",
      [S + "NarMem.rs", S + "NarSentence.rs"], [("store under all subterms", S + "NarMem.rs storeInConcepts, storeInConcepts2"), ("lookup", S + "NarMem.rs ret_beliefs_of_concept, ret_beliefs_by_terms_nonunique"), ("usage rank", S + "NarSentence.rs calcUsageUsefulness")],
      "loop-coverage, scan and sort/cut rules over the value-flow graph of the store and lookup functions", "All paths; std sort and map semantics assumed; a concept locked by somebody else is reported at run time and skipped."),
    P("C11", "Revision replaces the revised belief everywhere and its result is used",
      "When a judgement meets a stored belief with the same term and disjoint evidence, then under every subterm and in both tables exactly that belief is replaced by one with its term, the revised truth value of the two and the combined evidence base; other beliefs stay as they are. "
      "The judgement itself is stored as a belief of its own exactly if it revised nothing, and both the judgement and the revised belief become tasks for further reasoning.",
      ["inputs", "histories"], "all judgements, all contents of memory",
      "Tests check no revision in memory; wrong element removed, one table forgotten or the result lost needs particular table contents.",
      [S + "NarWorkingCycle.rs"], [("revision in memory", S + "NarWorkingCycle.rs memReviseBelief"), ("adding a judgement", S + "NarWorkingCycle.rs memAddTask")],
      "scan, pairing and value-origin rules over the value-flow graph of the revision", "All paths; a concept locked by somebody else is reported at run time and skipped."),
    P("C12", "Judgements become tasks once, under a fresh id, found by every subterm",
      "A judgement that is added and is not more complex than the configured limit becomes a task, unless there is already a task with the same term and the same evidence base; a sentence over the limit has no effect at all. "
      "Every task has an id of its own and holds the sentence unchanged, and the task is found in the lookup table under its term and every subterm of it, next to the tasks that were there before. A question that is added becomes an open question without answer.",
      ["inputs", "histories"], "all sentences, all contents of the task list and the lookup table, all complexity limits",
      "Tests add few sentences; missing subterms, overwritten table entries or wrong duplicate checks need nested terms, shared subterms or repeated sentences.",
      [S + "NarWorkingCycle.rs"], [("adding tasks", S + "NarWorkingCycle.rs memAddTask"), ("lookup by term", S + "NarWorkingCycle.rs populateTaskByTermLookup"), ("task id counter", S + "NarWorkingCycle.rs DeclarativeShared.taskIdCounter")],
      "path obligations (scan completeness, guard polarity, map-entry update) over the value-flow graph; crate-wide effect check on the task counter", "All paths; two threads adding the very same sentence at the same moment are not modelled."),
    P("C13", "A cycle reasons with the best task and all partners and keeps all conclusions",
      "Each declarative reasoning cycle with at least one task takes out the task of highest credit and reasons with it: alone, with the tasks that share a subterm with it (at most 51 per subterm, of more than 300 the simplest, none twice) and with all beliefs of the concept of its term. "
      "Every conclusion of these inferences is added to memory with the attention its parent and rule give it; none is lost and none is made up.",
      ["inputs", "histories"], "all task lists, lookup tables and memories",
      "Tests only look for a particular final conclusion; a partner or conclusion lost for some term shapes, table sizes or positions goes unnoticed.",
      [S + "NarWorkingCycle.rs"], [("selection", S + "NarWorkingCycle.rs taskSelByCreditTop"), ("cycle", S + "NarWorkingCycle.rs reasonCycle"), ("deriver thread", S + "NarWorkingCycle.rs createMem2"), ("inference over partners", S + "NarWorkingCycle.rs inference")],
      "arg-max, partner-collection and conclusion-coverage rules over the value-flow graphs of cycle and deriver thread", "All paths; both threads analysed separately."),
    P("C14", "Questions are answered by the best match and everyone is told",
      "An answer is reported for a question exactly if it is a judgement whose term matches the question's (the question's variables bound) and whose expectation exceeds that of the best answer reported so far, which it then replaces. "
      "It is reported to the question's own handler and to every registered handler, with the question's term and the judgement. "
      "Every conclusion is tried for every open question when it is derived, and each cycle one open question is tried with all beliefs of the concepts of all subterms of it, taken from procedural memory exactly for predictive implications.",
      ["inputs", "histories"], "all questions, all judgements, all sequences of answers, any number of handlers",
      "Tests ask one question with one handler; worse answers, a second handler, or an answer arriving through one of the two ways only are not exercised.",
      [S + "NarWorkingCycle.rs"], [("answering", S + "NarWorkingCycle.rs qaTryAnswer"), ("conclusions as answers", S + "NarWorkingCycle.rs createMem2"), ("beliefs as answers", S + "NarWorkingCycle.rs reasonCycle"), ("sampling", S + "NarWorkingCycle.rs task2SelByCreditRandom")],
      "guard, update and coverage obligations on all paths of the value-flow graph", "All paths; handlers themselves are outside."),
    P("C15", "The best goal's operation is executed, correctly, and remembered",
      "In each step of the procedural reasoner at most one operation is executed: that of the active goal with the greatest expectation among those still desired, above the decision threshold and with evidence; this goal then loses its desirability and leaves the active set. "
      "Only if there is none, and babbling is enabled, a registered operation that allows it may be executed at random. The operation called is the registered one of the name in the term, with the arguments in the term, and its execution is recorded in the trace as an event of the current time; an unregistered one is neither called nor recorded. "
      "A goal (condition..., op) leads to the op becoming an active goal exactly if its condition matches one of the newest events in the perception window (or it is reached by an answer or a predicted chain that hits a goal), it has the greatest expectation of all these candidates and exceeds the threshold; the op goal has the variables replaced and truth value and evidence of the rule it came from.",
      ["inputs", "histories"], "all goal sets, traces, registered ops and configurations",
      "Tests run one environment with one or two goals; wrong selection, a stale index or an unrecorded execution needs several competing goals.",
      [S + "NarProc.rs", S + "NarGoalSystem.rs", S + "OpLib.rs"], [("decision making", S + "NarProc.rs narStep1"), ("candidates for a state", S + "NarGoalSystem.rs selHighestExpGoalByState"), ("op lookup", S + "NarProc.rs ret_op_by_name"), ("op that executes ops", S + "OpLib.rs Op_nal9__exec_and_inject")],
      "arg-max, guard-dominance, pairing and value-origin rules over the value-flow graph of the step", "All paths; matching itself is decided by C07, op terms by C08, goal deduction by C02/C05."),
    P("C16", "Unfulfilled predictions count against their rule exactly once",
      "Executing a goal while anticipation is enabled adds one anticipation: the rule the goal was derived from, with the deadline of now plus the rule's interval (the shortest if it has none). Nothing else adds one. "
      "At the beginning of each step, anticipations whose predicted event is among the newest events of the perception window vanish without effect; then the rule of each remaining one whose deadline is reached gets exactly one negative count (its count grows by one, its positive count stays) and that anticipation vanishes. All others stay unchanged.",
      ["inputs", "histories"], "all traces, sets of anticipations, clock values and configurations",
      "Tests do not look at negative evidence at all; missed, doubled or premature counts only show as gradually wrong decisions.",
      [S + "NarProc.rs"], [("beginning of a step", S + "NarProc.rs narStep0"), ("adding anticipations", S + "NarProc.rs narStep1")],
      "keep/drop partition, coverage, order and linear-form rules over the value-flow graph of both halves of the step", "All paths; a rule whose evidence is not a count makes the step panic (not reachable for learned or entered rules)."),
    P("C17", "Rules are learned from what happened, in the order it happened",
      "Events are kept in the trace in the order in which they happen, the newest 20 of them. With three or more events each step samples the configured number of times: an event before the ops, distinct executed ops and the newest event (or the one before it, if that follows all ops and is no op). "
      "From these a rule (first, op...) =/> last is learned exactly if first and last are different and no callable ops and everything between are callable ops, in the order they happened; it rests on the evidence of all of them, only positive, and its interval is the largest of the table not above the time between the last two. "
      "The table of intervals consists of the strictly increasing integral powers of the base up to the maximum. Goals are told about the newest event in each step, and each step advances the procedural time by one; nothing else changes it.",
      ["inputs", "histories"], "all traces, registered ops, random choices and configurations",
      "Tests learn one fixed rule; wrong order, doubled ops, wrong intervals or evidence need several ops or unusual timing.",
      [S + "NarProc.rs"], [("trace and sampling", S + "NarProc.rs TraceDefault"), ("rule", S + "NarProc.rs try_build_implSeq"), ("intervals", S + "NarProc.rs findMinTableIdx, narInit"), ("callable ops", S + "NarProc.rs checkIsCallableOp, calcIdxsOfOps")],
      "value-origin, coverage, linear-form and guard rules over the value-flow graphs of trace, sampling and interval table", "All paths; the random choices are unconstrained."),
    P("C18", "Learned rules are revised if known, stored if new, and generalised",
      "For every rule learned, each rule known already with an equal term, disjoint evidence and an interval at least as long gets the counts and the evidence base of the new one added, both together. If none was revised the new rule is stored, otherwise not; no learned rule is lost while the program runs. "
      "Storing a rule stores it and all its generalisations (a rule (x --> [y], op) =/> z in which x occurs more than once has one, the copy with a variable in place of x; others have none), each found from every subterm of its condition and of its consequence. Names of introduced variables are drawn from within their alphabet.",
      ["inputs", "histories"], "all rules arriving in all orders, all stored rules and random choices",
      "The evidence store is a background thread that no test observes; a rule revised with overlapping evidence, lost or filed under half of its terms only shows later as a wrong or missing decision.",
      [S + "NarProc.rs", S + "NarInfProcedural.rs"], [("worker", S + "NarProc.rs narInit"), ("adding", S + "NarProc.rs mem_add_evidence"), ("generalisation", S + "NarInfProcedural.rs matchandintro_var1_sentence, create_random_varname")],
      "guard, paired-effect, path-coverage and value-origin rules over the value-flow graph of the worker thread's closure", "All paths of the worker; message order is unconstrained."),
    P("C19", "Goals are kept once each, found again, derived from and satisfied",
      "A goal handed to the goal system is stored with its evidence, time and depth and full desirability, unless a goal with equal term and the same evidence base is stored already: ops in the active set, all others in the batch of their depth (deeper ones in the last), grouped and indexed by term. The list of all goals contains all of these. "
      "If a batch has goals one is sampled, by its desirability. From a sampled goal, which is a stored one with its own depth, every rule whose consequence equals it, or its detachment, gives a goal one deeper with that rule as its evidence, and every conclusion is handed to the goal system. "
      "An event makes all goals with an equal term undesired, if goal satisfaction is enabled, and changes nothing else. Rules are found by antecedent and by consequence: exactly those with that term.",
      ["inputs", "histories"], "all goals, rules, events, depths and random choices",
      "Tests only run whole environments; a lost, doubled or wrongly evidenced goal needs several goals of the same term or depth and does not fail a run.",
      [S + "NarGoalSystem.rs", S + "BinSearch.rs"], [("adding", S + "NarGoalSystem.rs addEntry, addEntry2, checkSetContains"), ("deriving", S + "NarGoalSystem.rs sampleAndInference, deriveGoalsHelper"), ("sampling", S + "NarGoalSystem.rs sample; " + S + "BinSearch.rs"), ("events and queries", S + "NarGoalSystem.rs event_occurred, query, query_by_antecedent, query_by_consequence, retEntries")],
      "record-origin tracing through collections, complete-scan, flag-feasibility and loop-coverage rules over the value-flow graphs", "All paths; the random choices are unconstrained."),
    P("C20", "Memory is bounded, and what is forgotten is the worst",
      "Goals, concepts and judgement tasks are limited periodically: at least every 13th step the goals to the configured number, every 101st step the concepts of procedural memory to the configured number, every 111th cycle the tasks, every 173rd cycle the concepts of declarative memory. "
      "Limiting keeps the best ones, all of them up to the limit, and forgets exactly the others: goals are rated by expectation times desirability, falling with age; concepts by the best expectation of their beliefs; tasks by their present credit (those with practically none are dropped too). "
      "Afterwards nothing forgotten is reachable through any index or group, and everything kept is reachable again under its own term and depth.",
      ["inputs", "histories"], "all contents of memory, all limits, all ratings",
      "Tests never fill memory to its limits; a wrong order, an index not rebuilt or a bound not enforced shows only after long runs.",
      [S + "NarGoalSystem.rs", S + "NarMem.rs", S + "NarWorkingCycle.rs", S + "NarProc.rs"], [("goals", S + "NarGoalSystem.rs limitMemory"), ("concepts", S + "NarMem.rs limitMemory"), ("tasks", S + "NarWorkingCycle.rs reasonCycle"), ("calls", S + "NarProc.rs narStep1")],
      "monotonicity of the rating expression, sort direction, prefix-cut, flush-before-fill and coverage obligations over the value-flow graphs", "All paths; between two limitings the stores grow; questions are not limited."),
    P("C21", "The threads of the reasoner never wait for each other in a circle",
      "The reasoner's thread, the deriver with its helper, the evidence store and the server's connections share memory under locks and bounded channels, and none of them can stop for ever: "
      "no thread takes a lock it already holds (a second shared acquisition included, where another thread may be waiting to write), no two or three threads can hold and wait for locks in a circle, "
      "and nothing is held across a blocking send, receive or join that the thread which would end the wait needs.",
      ["schedules", "inputs"], "all interleavings, all contents of memory, all commands",
      "A deadlock needs a particular interleaving (a full channel, a writer waiting between two reads); the tests run each path a few times.",
      [S + "NarWorkingCycle.rs", S + "NarProc.rs", S + "NarServer.rs", S + "NarGoalSystem.rs", S + "NarInputFacade.rs"], [("deriver", S + "NarWorkingCycle.rs createMem2"), ("cycle", S + "NarWorkingCycle.rs reasonCycle"), ("store", S + "NarProc.rs narInit"), ("listing", S + "NarWorkingCycle.rs debugCreditsOfTasks"), ("server", S + "NarServer.rs run")],
      "lock-order and held-across-wait analysis over MIR: guard lifetimes, interprocedural acquisition summaries, threads from spawn sites, circle search over thread classes with reader/writer modes", "All functions and interleavings; collection elements reached from different places are taken to be different locks."),
    P("C22", "Every input line is answered; only complete, well-formed sentences enter",
      "Whatever text is given to the input facade or the parser, the process answers and goes on: nothing panics (no byte position inside of a character, no missing part, no malformed number), and reading it ends. "
      "A line is accepted as a sentence only if all of it was understood: the whole text is a term (nothing but blanks is left), the punctuation is . ! or ? and decides judgement, goal or question, it is an event just if it ends with ' :|:', "
      "and a truth value {f c} is taken only if it is two numbers with 0<=f<=1 and 0<=c<1 (NaN is not) - then exactly as written, else the line is rejected; without one it is {1.0 0.9}. What is input is what was parsed; a rejected line changes nothing and is reported.",
      ["inputs"], "all strings, including multi-byte characters and malformed numbers",
      "The tests parse some forty well-formed sentences; the panics were on inputs nobody samples (an unknown suffix, a multi-byte character at a slice position, {NaN 0.9}).",
      [S + "NarseseParser.rs", S + "NarInputFacade.rs", S + "Nar.rs", S + "NarInteractive.rs", S + "NarUtilReadn.rs"], [("parser", S + "NarseseParser.rs parseNarsese, parseNarseseRetTv, parseSubjOrPred"), ("facade", S + "NarInputFacade.rs input"), ("input", S + "Nar.rs inputN")],
      "value-flow analysis over MIR: every partial operation is discharged by path facts about the same value; provenance of what is accepted; progress of loops and recursion", "All inputs; panics of the parser, facade and readers themselves (the reasoner behind inputN is covered by the other properties). Stack depth and time of the parser are not bounded (N01)."),
    P("C23", "Each form of Narsese is read as its term, and terms are written in full",
      "Whatever nesting: a text of the language is read as the term it stands for - statements <S cop P> with subject and predicate in their places and the copula its token names (--> <-> ==> =/> <=>), sequences and products of any number of components, "
      "(A & B), (A | B), conjunctions of two to four, images /1 and /2 (index 0 and 1, relation first), {A}, [A], (! A), variables ?x #x $x, names of letters, digits, - _ ^ of up to 512 characters - with all components, in the order written; "
      "a form is rejected only after every form was tried on the text. Writing a term yields the brackets, the separator and the copula token of its kind and all of its components in order (image index counted from 1).",
      ["inputs"], "all terms of the language, all nestings and numbers of components",
      "The tests read some thirty texts of depth one or two with short names; a wrong component shows only with particular forms, the fifth component or an uncommon copula.",
      [S + "NarseseParser.rs", S + "Term.rs"], [("grammar", S + "NarseseParser.rs parseSubjOrPred and the functions of the forms"), ("writing", S + "Term.rs convTermToStr")],
      "value-flow analysis over MIR: the token sequence consumed on each successful path is recovered from the chain of rests and interpreted by the grammar; exhaustive-choice reachability; decoded format templates", "All inputs. Blanks inside of a text and punctuation are C22's; equality of written and read terms as such is not claimed."),
    P("C24", "The server hands each message to each client once, in order and whole",
      "For every interleaving of clients, the worker and answers: each line the facade returns and each answer to a question is published with a number of its own, numbers increase by one in the order of publishing, and the backlog keeps the newest messages and stays bounded. "
      "Each line a client sends reaches the NAR unchanged, and the server goes on whatever the line is. With each line a client gets the messages published since it connected that are in the backlog and that it didn't get yet: none twice, none left out, oldest first, complete, each as one line.",
      ["schedules", "histories"], "all interleavings of connections, worker and answer handler; all sequences of lines",
      "There is no test of the server at all; repeated and lost messages depend on how publishing and taking interleave and on the backlog being full.",
      [S + "NarServer.rs"], [("worker", S + "NarServer.rs run"), ("answers", S + "NarServer.rs QHandlerImpl::answer"), ("connections", S + "NarServer.rs connectionLoop")],
      "value-flow and path analysis over MIR (coroutine bodies included): number, counter and backlog of one lock region; loop coverage; provenance of what is forwarded, taken and written", "All interleavings, by the lock regions. What a client gets without sending a line, and messages which left the backlog before, are not claimed."),
    P("C25", "Each line does what its command says; sessions process all lines and end",
      "For every line: a comment or an empty line changes nothing; !spA, !spB, !sp, !s, !s<n>, !dtf, !por, !pse, !peb, !.nlp, !dt, !dmd and !QQ have their own effect, on the right data, exactly once (!s<n>: n cycles, none if n is no number), and no other; every other line is input as Narsese, whole; the line break at its end is no part of the line; quit is requested by !QQ alone. "
      "For every input of a session and every file: each line is handed over as it was read, in order (an empty one repeats the last one in a session), what it returns is shown completely, a line which isn't valid text is skipped, and the session or file ends at quit, at its end, or if it can't be read any more, and not before. All files given to the program are read before its session, which isn't started if one of them requested to quit.",
      ["inputs", "histories"], "all lines (by classes which together cover all texts), all sequences of lines, ends and read errors",
      "The tests hand a few lines to the parser and never run a command, a session or a file; which of the overlapping command prefixes wins and how a session ends is settled by none.",
      [S + "NarInputFacade.rs", S + "NarInteractive.rs", S + "NarUtilReadn.rs", S + "bin/main.rs", S + "NarWorkingCycle.rs"],
      [("commands", S + "NarInputFacade.rs input"), ("session", S + "NarInteractive.rs runInteractive"), ("files", S + "NarUtilReadn.rs readNarseseFile"), ("program", S + "bin/main.rs main"), ("tasks shown", S + "NarWorkingCycle.rs debugCreditsOfTasks")],
      "abstract interpretation of the facade over classes of lines (prefix, excluded prefixes, length) on the value-flow graph; path search over read/hand-over/exit nodes of the session loops", "All lines. What the atoms (cycle, steps, input) do is the matter of the other properties."),
    P("C26", "No input and no history makes an operation of the reasoner fail",
      "For every input and every history of steps the reasoner doesn't stop with a panic because of an index, a range or a position beyond the end of a collection, a random draw from nothing, an unsigned difference below zero, a division by zero or an option or result which has no content: of terms, truth values, stamps, sentences, unification, memory, goals, the declarative cycle with its deriver threads, the procedural steps and the operators. What a function expects of its arguments (a collection which isn't empty, a judgement with a truth value) is met by each of its callers.",
      ["inputs", "histories"], "all paths to all operations which can fail in the modules of the reasoner",
      "A test shows that a handful of histories don't crash; the index which is one too far, the random draw from an empty range and the question without a truth value appear in histories which no test has, and a deriver thread which has panicked is silent.",
      [S + "Nar.rs", S + "NarProc.rs", S + "NarWorkingCycle.rs", S + "NarGoalSystem.rs", S + "NarMem.rs", S + "NarInfProcedural.rs", S + "NarUnify.rs", S + "NarStamp.rs", S + "NarSentence.rs", S + "TermUtils.rs", S + "TermApi.rs", S + "Term.rs", S + "Tv.rs", S + "BinSearch.rs", S + "Utils.rs", S + "OpLib.rs"],
      [("sampling of the trace", S + "NarProc.rs TraceDefault::step"), ("decision", S + "NarProc.rs narStep1"), ("cycle", S + "NarWorkingCycle.rs reasonCycle"), ("selection", S + "NarWorkingCycle.rs taskSelByCreditRandom"), ("goals", S + "NarGoalSystem.rs sample"), ("search", S + "BinSearch.rs binSearch")],
      "abstract interpretation: a difference-bound domain over indices, lengths, counters and random numbers on the value-flow graph, obligations at each operation which can fail, contracts of functions checked at each call", "All paths; explicit panics, the experimental NLP modules, signed overflow and stack depth are left out."),
    P("C27", "Derivatives, vectors, images and classifiers compute what they define",
      "For all arguments: the differentiable operations (sum, difference, product, quotient, exponential, dot product, ReLU, sigmoid, neuron) return the value and the derivative of their definition; a network built from parameters uses each parameter once, in order, and marks exactly the one to differentiate by; vector operations (sum, scaled sum, dot product, length, cosine) and map operations (reading and writing by row and column within the bounds only, crop, sum, difference, quotient, squared norm, boxes, circles, lines, convolution over the whole kernel) are those of their names; "
      "the prototype classifiers compare a stimulus with every prototype over all channels, find the greatest similarity if it is at least 0.5, learn into the prototype found (all channels, count, time) or add a new one, return its index, and change nothing if learning isn't asked for.",
      ["inputs"], "all values of the arguments, all sizes of vectors, maps and classifiers",
      "Tests compare a few numbers; a sign, a bound or an index which is off by one shows only at a border, for a negative factor or in the second step of learning.",
      [S + "ad.rs", S + "mlutils.rs", S + "Map2d.rs", S + "Nn.rs", S + "ModVisionB.rs", S + "ModVisionC.rs", S + "ModVisionD.rs"],
      [("derivatives", S + "ad.rs"), ("vectors", S + "mlutils.rs"), ("maps", S + "Map2d.rs readAt, writeAt, crop, drawLine"), ("parameters", S + "Nn.rs buildNnFromParameters"), ("convolution", S + "ModVisionC.rs convo"), ("classifiers", S + "ModVisionD.rs classify, ModVisionB.rs classify")],
      "abstract evaluation of each function on the value-flow graph to algebraic expressions of its arguments (sums as initial value and addend, element-wise results as index and value), compared with the definitions; path rules for classifiers and networks", "All paths; floating-point arithmetic is treated as exact. The Gabor kernel and the scale of a bias' derivative aren't claimed."),
    P("C28", "Operators and environments have exactly the effects they state",
      "For every call: a no-operation changes nothing; an operator of an environment writes its own direction or move into the shared state and nothing else; the operator for relations adds, if it gets exactly two arguments and a declarative memory, exactly one task with the second argument as a certain judgement, where (a * (x, and, y)) --> p becomes (a * (x & y)) --> p and nothing else is rewritten. "
      "For every state of the ball game: the ball moves by its velocity and turns at the walls, each time it is at the bottom exactly one hit (distance to the bat at most its width) or one miss is counted, a new ball is placed inside of the field and marked exactly in the step which placed it, the bat stays within its bounds; the event of a round says where the ball is relative to the bat. "
      "For every state of the board game: a move is made only on an empty field and with the sign of the player, players alternate after valid moves only, exactly the eight lines win for the owner of their fields. Each round of an environment is step 0, one event, step 1 with the declarative memory. An evaluation returns the number of the cycle after which an answer was seen, and none only after all cycles; limited attention is the first items up to the limit.",
      ["inputs", "histories"], "all states of the environments, all arguments of operators, all rounds",
      "No test runs an environment; a wrong count, line or event shows only in a particular state of a game.",
      [S + "OpLib.rs", S + "EnvPong3.rs", S + "Reasoner1Entry.rs", S + "ProcChaosEntry.rs", S + "ProcTicTacToe.rs", S + "Eval.rs", S + "AeraishPerceptionComp.rs"],
      [("relations", S + "OpLib.rs Op__nlp_rel_0::call"), ("ball game", S + "EnvPong3.rs simStep, Reasoner1Entry.rs"), ("rounds", S + "ProcChaosEntry.rs"), ("board game", S + "ProcTicTacToe.rs tryMove, run"), ("evaluation", S + "Eval.rs run"), ("attention", S + "AeraishPerceptionComp.rs limit")],
      "enumeration of everything written on all paths of the value-flow graph with the facts it is written under, path rules for rounds and turns, algebraic comparison of positions and distances", "All paths; the random numbers of the environments are arbitrary. How well an environment is learned isn't claimed."),
]


def N(id, title, statement, over, qtext, why, files, mech, reason):
    d = P(id, title, statement, over, qtext, why, files, mech, "", "")
    d["reason"] = reason
    return d


NA = [
    N("N01", "A line is parsed in time and stack proportional to its length",
      "For every line of n characters the parser answers in time and stack depth bounded by a small polynomial of n.",
      ["inputs"], "all lines", "Tests parse short lines; nested lines take exponentially longer with every level.",
      [S + "NarseseParser.rs"], [("ordered alternatives with backtracking", S + "NarseseParser.rs parse2")],
      "The cost depends on how often alternatives with a common beginning are tried again at each level of nesting, a quantity of the run; it doesn't hold (the grammar backtracks exponentially in the nesting depth), and no sound static argument in reach bounds time and stack."),
    N("N02", "What is printed parses back to the same term",
      "For every term the parser can yield, parsing the printed form yields a term equal to it.",
      ["inputs"], "all terms", "Tests round-trip a handful of terms.",
      [S + "Term.rs", S + "NarseseParser.rs"], [("printing", S + "Term.rs convTermToStr"), ("grammar", S + "NarseseParser.rs")],
      "Equality of two runs over unbounded texts: the grammar is ordered choice with backtracking whose alternatives overlap, so that the first which accepts depends on the text. The two halves are claimed one by one as far as they are decided by the source: what is printed (C23) and what is accepted (C22)."),
    N("N03", "The reasoner learns: hits grow with experience in the environments",
      "In pong and in the other environments the ratio of hits gets better than that of a random agent after enough steps.",
      ["histories", "inputs"], "all histories of the environments", "The tests run no environment; results differ with each seed.",
      [S + "Reasoner1Entry.rs", S + "ProcTicTacToe.rs", S + "Eval.rs"], [("pong", S + "Reasoner1Entry.rs reasoner1Entry")],
      "A statistical statement about runs with random numbers and threads; nothing in the source decides it. The rules by which evidence is made and used are claimed (C15-C19)."),
    N("N04", "A step takes no longer than the time configured for it",
      "The planner and the deriver give back control within the time set for one step.",
      ["schedules", "inputs"], "all machines and loads", "Wall-clock time isn't tested.",
      [S + "NarProc.rs", S + "NarWorkingCycle.rs"], [("expected time of a step", S + "NarProc.rs narStep1")],
      "Wall-clock time is a quantity of the machine and its load, which the source doesn't bound."),
    N("N05", "Every task is eventually processed",
      "A task which stays in memory is selected again after finitely many cycles.",
      ["histories", "schedules"], "all histories", "Selection is random.",
      [S + "NarWorkingCycle.rs"], [("credit", S + "NarWorkingCycle.rs taskCalcCredit")],
      "True only with probability one, by the distribution of random numbers and the dynamics of credit; a safety analysis over paths can't state it. What selection may return is claimed (C13, C14, C26)."),
    N("N06", "Natural sentences are translated to the relations they state",
      "The language modules turn a sentence into the relation which it states.",
      ["inputs"], "all sentences", "There is no test of it.",
      [S + "NarModuleNlp3.rs", S + "ModNlpA.rs"], [("network", S + "ModNlpA.rs network_run")],
      "The translation is the output of a trained network whose weights are read from a file at run time; the source doesn't determine it."),
]
