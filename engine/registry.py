"""Which analyses decide which property."""
IRBASE = "clang 18 front end and the LLVM passes listed in engine/cc.py (inlining, SROA, GVN, simplification) preserve the meaning of the source; x86-64 Linux; engine/*.py"
T_IR = "gated value-graph (symbolic dataflow) analysis of the compiler's IR against per-function effect contracts"
T_ASM = "control-flow and dataflow analysis of the inline-assembly critical sections extracted from the compiler's IR"
ASMT = "clang 18 front end (cross targets) for macro expansion and operand binding; the instruction semantics written in engine/asmx.py; the kernel's documented rseq restart semantics"
T_PATH = "path-wise dataflow (every acyclic path, helpers inlined) over the compiler's IR"
def A(rule): return dict(modules=["rules_asm"], technique=T_ASM, rule=rule, trusted=ASMT)
CHECKS = {
 "C01": A("On every path of every operation and architecture the only store to the target is the word-wide commit, the last instruction of the descriptor's range; all caller accesses are inside the range; paths reporting a failure and all abort paths carry no store to the target."),
 "C02": A("Every caller store and every non-abort exit is dominated by equality of the requested index with the area's cpu_id/mm_cid word read inside the armed range; inequality leads to the abort exit with no write."),
 "C03": A("Path conditions, tentative effects, commit address/value (as linear terms over arguments and loads) and return codes of each path equal those of the documented pseudo-code."),
 "C04": A("Data of the armed descriptor and both tables decoded and compared with the code's labels: version, flags, alignment, start, length, abort, signature, exit points, pointer array."),
 "C05": dict(modules=["rules_asm", "rules_barrier"], technique=T_ASM + "; ordering sets of barrier primitives in IR", rule="Release variants: an instruction ordering earlier reads and writes before later writes (or store-release, or TSO) lies between the last tentative access and the commit. Primitives: the pairs of accesses ordered by each expansion include the advertised pairs, with a compiler barrier on the right side.", trusted=ASMT),
 "C06": A("At each exit, and at the abort exit from each point of the section, written registers are declared or restored, input operands restored, flags and memory declared, no stack use, call or trap."),
 "C07": A("For all orderings x index kinds, unprovided combinations fold to 'return -1' without effects, provided ones to exactly one section of the requested index kind."),
 "C09": dict(modules=["rules_reg"], technique=T_PATH, rule="On every path of register/unregister: arguments of the system call, its guard by ownership, and the returned value as terms over the call's result compared with the allowed outcomes."),
 "C10": dict(modules=["rules_reg"], technique=T_PATH, rule="Double-checked initialisation: state written only under the lock after a second look, flag stored last with release and read with acquire, lock released on every path; ownership decided by the C library's three symbols."),
 "C11": dict(modules=["rules_reg"], technique=T_PATH, rule="Each value stored to the published feature size equals the documented function of the kernel's and C library's sizes and fits the registered area, and is stored only after success."),
 "C12": dict(modules=["rules_reg"], technique=T_PATH, rule="Returned values of the queries as terms over system call results and errno on every path compared with the documented answers."),
 "C26": dict(modules=["rules_smp"], technique="cut-point segment analysis and handle typestate on the compiler's IR with the front end's overflow checks", rule="Between two file, byte or directory events each segment makes exactly the allowed transition; positions stay inside the buffer inductively; each handle is closed once; stored count equals the specified function."),
 "C13": dict(modules=["rules_lock", "rules_set"], technique="typestate (lock state) analysis over the control flow graph of the compiler's IR", rule="Each access to shared pool or set state happens with the owner's lock held on every feasible control-flow path; lock, unlock and return only in the right lock state; one critical section per operation."),
 "C14": dict(modules=["rules_loop", "rules_pool", "rules_range", "rules_create"], technique=T_IR, rule="Under every configuration (robust x policy x limit), each successful allocation path takes either the free-list head or the newest range's next_unused slot with an in-range guard, updates the accounting, and returns base+offset; effects compared with the contract on the value graph."),
 "C15": dict(modules=["rules_loop", "rules_pool", "rules_lock"], technique=T_IR, rule="Effects of free on list head, link word and range lookup compared with the contract, and the link address with the one malloc pops from."),
 "C16": dict(modules=["rules_loop", "rules_pool", "rules_range", "rules_set", "rules_lock"], technique=T_IR, rule="Every zeroing/initialising path writes the item on every CPU and in the init area (loop nest closed form) after any link word, with the requested content."),
 "C17": dict(modules=["rules_loop", "rules_pool", "rules_range", "rules_create", "rules_destroy"], technique=T_IR, rule="For robust pools each misuse condition leads to abort before any return, and no abort is reachable under the pool invariants."),
 "C18": dict(modules=["rules_loop", "rules_pool", "rules_create", "rules_lock"], technique=T_IR, rule="Free writes the poison on each CPU's item and in the init area over its whole length except the link word; value from pool->attr.poison."),
 "C19": dict(modules=["rules_loop", "rules_range", "rules_create"], technique=T_IR, rule="Addresses and lengths of all mappings and recorded fields of a range compared with the geometry n*stride (+init) (+free list)."),
 "C20": dict(modules=["rules_loop", "rules_range", "rules_create", "rules_set"], technique=T_IR, rule="On every failing path of range/pool creation and allocation the resources acquired on it are released once and NULL is returned."),
 "C21": dict(modules=["rules_loop", "rules_destroy", "rules_range", "rules_create", "rules_set"], technique=T_IR, rule="On the teardown functions' value graph: the checks run, every range of the list is unmapped, then bitmaps, name and pool are freed exactly once; a failed unmap leaves the list consistent and is returned."),
 "C22": dict(modules=["rules_destroy", "rules_range"], technique=T_IR, rule="Every mapping of a range with initial values gets the no-fork advice over its whole extent, failure of it fails creation; teardown tests accessibility before reading such memory and unmaps only what is mapped."),
 "C23": dict(modules=["rules_create", "rules_pool"], technique=T_IR, rule="The condition of each refusal equals the documented domain; refused calls set errno EINVAL and have no other effect."),
 "C25": dict(modules=["rules_set", "rules_lock"], technique="cut-point segment analysis (dataflow between consecutive accesses to the set's entries) of the compiler's IR", rule="Between two looks at the entries the index grows by one; an entry is skipped only if absent or too small or after ENOMEM; the search starts no later than the smallest fitting order and ends only at the last entry; additions test and fill exactly the pool's own entry under the lock."),
 "C24": dict(modules=["rules_create", "rules_range"], technique=T_IR, rule="Setters store exactly their fields; the created pool's attributes equal the normalised attributes; range limit guards creation."),
 "C27": dict(modules=["rules_loop", "rules_numa"], technique=T_IR + "; cut-point segment analysis for error reporting", rule="Closed forms of the filling and batch loops: pages listed, count, next start and stop condition tile the area; buffers bounded; node slots; results reported."),
 "C28": dict(modules=["rules_bits", "rules_create"], technique="abstract interpretation (intervals x known bits, over input classes that cover every value) of the helpers' IR on 32- and 64-bit targets", rule="For each class of inputs between two powers of two the abstract result of the helper equals the mathematical one; creation's item length and order are the helpers' results with the pointer-size floor."),
 "C08": dict(modules=["rules_abi", "rules_asm", "rules_reg"], technique="layout constants from the compiler and abstract interpretation (linear terms x intervals, per class of feature size and cpu_id) of each accessor's IR, on every architecture", rule="Offsets, sizes, alignments and constants equal the kernel's; each accessor makes exactly one volatile access of the field's width at thread pointer + rseq_offset + field; availability holds exactly from the field's end; sections use the same offsets; an unregistered area has cpu_id -1."),
 "C29": dict(modules=["rules_build", "rules_asm"], technique="compile-time witnesses: every operation, primitive, accessor and pool macro instantiated per architecture, language and option must be accepted by the front end and the assembler; declared names must be defined", rule="Each driver compiles and assembles for each target, language standard and option; each header builds on its own; operations have one type everywhere; each name declared without a body in the headers is defined with external linkage in src."),
}
import json, os
_p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for l in open(_p):
    p = json.loads(l)
    if p["id"] in CHECKS:
        CHECKS[p["id"]].setdefault("trusted", IRBASE); CHECKS[p["id"]]["title"] = p["title"]
NOT_APPLICABLE = {
 "C30": "A progress property over the scheduler's behaviour: it quantifies over runtime interruptions, which no static argument over this source can bound.",
 "C31": "Linearizability of user-built structures over all histories: follows from C01-C06 plus the kernel's restart semantics, but the histories themselves are outside the source; static analysis cannot enumerate them.",
}
