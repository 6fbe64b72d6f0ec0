NOTE = "Decided on the type-checked program without running it; sound for the clause the rule states up to the modelling assumptions listed in the evidence (library models, opaque user components); functions the analysis gives up on are listed as undecided in the evidence, never passed silently."
NA = {"C19": "check not built in the time available; see DESIGN.md"}
TECH = {
 "C01": ("abstract interpretation: write/result typestate over every variation operator", NOTE),
 "C02": ("abstract interpretation: dirty/valid typestate of individuals through breeders, transforms, perturbations; protocol check of validity accessors", NOTE),
 "C07": ("whole-program query for foreign randomness sources plus abstract interpretation of the generator's reseeding and of address-ordered comparators", NOTE),
 "C18": ("abstract interpretation: open/tested typestate of files, pipes and their status; error-object flow; inventory of rejected misuse", NOTE),
 "C20": ("definite-assignment dataflow of attributes (constructor, initialiser, operations) and of locals by abstract interpretation", NOTE),
 "C14": ("lockset and thread-phase dataflow over every method of the parallel module; abstract interpretation of one arbitrary individual of a work package and one arbitrary neighbour of a batch", NOTE),
 "C15": ("ownership and lifetime analysis: copy/assignment of owning classes, released/used typestate and references into moving containers by abstract interpretation, dangling-reference query", NOTE),
 "C03": ("abstract interpretation: produced/evaluated typestate of one arbitrary individual through every algorithm, population evaluator and restart", NOTE),
 "C04": ("abstract interpretation of every algorithm as an automaton of consultations and search steps; conjunction of an arbitrary member for combined criteria", NOTE),
 "C05": ("abstract interpretation with one arbitrary member per container: call counts, order and final calls on every path of every checkpoint", NOTE),
 "C10": ("abstract interpretation: fate of one arbitrary archive member for each of its relations to the candidate", NOTE),
 "C08": ("abstract interpretation of every saving and loading pair: sequences of entries with one arbitrary element per container matched path by path; line typestate of state files", NOTE),
 "C09": ("abstract interpretation of every comparison relation over the order of its operands' criteria, held against the relation's definition; contradiction of the conditions of two opposite answers", NOTE),
 "C11": ("abstract interpretation: move/undo and fitness typestate of the current solution, evaluated-against typestate of every neighbour", NOTE),
 "C12": ("abstract interpretation: guarded-update analysis of every best record on every path, with one arbitrary position of a particle's memory", NOTE),
 "C13": ("abstract interpretation with linear arithmetic: count change versus evaluations per path, exact limit of every budget criterion", NOTE),
 "C16": ("effect analysis by abstract interpretation: writes reaching the observed population, solution or archive from any observer", NOTE),
 "C06": ("abstract interpretation with linear arithmetic: symbolic population sizes on every path of every replacement, reduction, split, merge and selection of many", NOTE),
 "C17": ("abstract interpretation: provenance and index range of every reference a selector returns", NOTE),
}
