#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SM = "include/hsm/details/sm.h"; FILL = "include/hsm/details/fill_dispatch_table.h"; TT = "include/hsm/details/transition_table.h"
FL = "include/hsm/details/flatten_transition_table.h"; FI = "include/hsm/details/flatten_internal_transition_table.h"; DT = "include/hsm/details/dispatch_table.h"
RES = "include/hsm/details/resolve_state.h"; TR = "include/hsm/details/transition.h"; DSL = "include/hsm/front/transition_dsl.h"; TUP = "include/hsm/front/transition_tuple.h"
TRA = "include/hsm/details/traits.h"; UNX = "include/hsm/details/fill_unexpected_event_handler_tables.h"; VQ = "include/hsm/details/variant_queue.h"; DUP = "include/hsm/details/utils/dunique_ptr.h"
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=kw.pop("state", []), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=kw.pop("observe", ["process_event", "is", "user callbacks"]), hook_needed=None), **kw))
MACH = "every machine of the checked families, every event sequence, every guard outcome and event payload"
p("C01", "An event moves the machine along exactly its enabled transition", "When an event is processed, each region whose current state has an enabled transition for that event takes exactly one such transition: its action runs once and the region ends in the transition's target (for a submachine target, in the submachine's initial state). Every other region, and every region when no transition is enabled, keeps its state, and no other action runs.",
  ["programs", "histories", "inputs"], MACH, "The tests drive a few tables through a few hand-picked event sequences; a wrong table index, a stale dispatch entry or a wrong successor only shows for particular (state, event, history) combinations.",
  [SM, FILL, DT, "include/hsm/details/make_dispatch_tables.h", FL], [("dispatch table lookup by event, parent and state", SM), ("dispatch table filling per transition row", FILL)],
  state=[dict(name="current state index", meaning="(parent, state) pair of each region", where=SM)])
p("C02", "process_event's result says whether a transition was taken", "process_event returns true exactly when some region took an external or internal transition for that event; it returns false when no transition exists, when all candidate guards reject it, and when the event is deferred. The result depends only on the event passed in, not on anonymous transitions or recalled deferred events that run afterwards.",
  ["programs", "histories", "inputs"], MACH, "Tests look at the result in a handful of configurations; combinations of regions, guards, deferral and completion steps are not enumerated.", [SM, FILL], [("result accumulation over regions", SM), ("per-entry result", FILL)])
p("C03", "A guard decides its transition, and only its own", "A transition with a guard is taken only if the guard returned true during this event, and one whose guard returned false has no effect at all: no action, exit or entry runs for it and no state changes. Candidate guards are consulted in priority order until one accepts, each guard receives the event and the source and target state objects of its own transition, and guards of rows that do not match the event and state are never called.",
  ["programs", "histories", "inputs"], MACH + " (guard outcomes are symbolic)", "Tests use guards that are constantly true or false; which guard decides which row, over all outcome vectors, is not sampled.", [FILL, SM, TR], [("guard evaluation inside the transition entry", FILL)])
p("C04", "Exit, action and entry run once each, in that order", "Taking an external transition runs the source state's exit action (if it has one), then the transition's action, then the target state's entry action (if it has one), each exactly once with that transition's event; entering a submachine runs the submachine's entry action and then its initial state's. A self transition is an exit and an entry, and states that are not left or entered run neither.",
  ["programs", "histories", "inputs"], MACH, "Tests check a few combinations with mocks; presence combinations of exit, action and entry on plain, initial, self and submachine rows across histories are not covered.", [FILL, SM, TRA], [("exit/action/entry sequencing", FILL)])
p("C05", "Internal transitions act without leaving the state", "An internal transition runs its action and makes process_event return true, but runs no exit or entry action and leaves every region in the state it was in. Internal transitions of a state, a submachine or the root are available only in the states they were declared for and only when no external transition for the event is enabled.",
  ["programs", "histories", "inputs"], MACH + " with internal tables on states, submachines (for their direct substates) and the root", "Tests fire single internal transitions; their interplay with external rows, guards and nesting over histories is not covered.", [FI, FILL, SM], [("internal rows become targetless rows of each substate", FI), ("targetless entries keep the state", FILL)])
p("C06", "Conflicting transitions are resolved by a fixed priority", "When several transitions match the same event and state, the row declared later takes priority over earlier ones, where a submachine's rows count as declared directly after each row that enters it, and internal transitions come last; a candidate whose guard rejects falls through to the next one. At most one of them fires per region and event.",
  ["programs", "histories", "inputs"], MACH + " with several rows per state and event", "Tests have at most two competing rows and fixed guards; all guard outcome vectors over several competitors at several levels are not sampled.", [FILL, FL, FI, DT, SM], [("entries are pushed to the front of the candidate list", FILL)])
p("C07", "Submachines are entered, run and left at the right places", "A transition to a submachine starts it in its initial state (or in the state named by an entry or direct pseudo state); while inside, the submachine's own rows apply, rows leaving the submachine apply in each of its direct substates, and an exit pseudo state row applies only in the state it names. Leaving returns to the state named by the row in its own table, at any nesting depth, also when the same state type occurs in several submachines.",
  ["programs", "histories", "inputs"], MACH + " with up to three nesting levels, one region per submachine", "Tests visit each pseudo state once from one configuration; the cross product of entry ways, inner states and exit ways is not enumerated.", [FILL, FL, RES, "include/hsm/details/pseudo_states.h", SM], [("resolution of target parent and state", RES), ("exit rows for every substate of a submachine", FILL)])
p("C08", "A history state restores the last active substate", "A transition to a submachine's history pseudo state resumes the substate in which that submachine was last left by the same region, whatever way it was left or entered in between, and its initial state if it was never visited. Recording is per submachine and per region: activity elsewhere does not change what is restored.",
  ["programs", "histories", "inputs"], MACH + " with several history rows, submachines and regions", "Tests exercise one or two leave/resume cycles; what is recorded depends on the entire history.", [SM, FILL], [("history update when a transition leaves a parent", SM)], state=[dict(name="history table", meaning="last substate per parent and region", where=SM)])
p("C09", "Orthogonal regions react independently to every event", "In a machine with several regions each event is offered to every region, in order, and each reacts exactly as it would alone; the event counts as processed if any region reacted, and one region's state, guards and transitions never influence another's: a region inside a submachine does not hold up its siblings. Each region starts in its own initial state and is_/set address exactly the requested region.",
  ["programs", "histories", "inputs"], MACH + " with two to four regions and one-region submachines in any of them (submachines with several regions: see known findings)", "Tests use two or three regions with one event each; combinations of region states, guards and results are not covered.", [SM, "include/hsm/details/collect_initial_states.h", FILL], [("loop over regions", SM)])
p("C10", "Anonymous transitions run to completion", "After an event has been processed, enabled anonymous (event-less) transitions are taken repeatedly, in every region and through submachines, until none is enabled; their guards, actions, entry and exit actions behave as for ordinary transitions. They never run after an event that took no transition, and no further event is looked at before they are finished.",
  ["programs", "histories", "inputs"], MACH + " with anonymous rows, chains, guards and conflicts; in machines with several regions every state has an anonymous row (see known findings)", "Tests have a single anonymous step; chains with symbolic guards interleaved with events, nesting and deferral are not sampled.", [SM, FILL], [("anonymous loop after each processed event", SM)])
p("C11", "Deferred events are kept, in order, and delivered once", "An event deferred by the current state is neither dropped nor processed at once (its payload is kept unchanged); after later events are processed, deferred events are offered again in the order in which they were deferred, one per processed event, and each is delivered exactly once unless the state reached defers it again. Deferral takes precedence over transitions of that state for the same event.",
  ["programs", "histories", "inputs"], MACH + " up to the stated depth; at most three events pending at once", "Tests defer one or two events once; order and loss depend on long interleavings of deferral and recall.", [SM, VQ, FILL], [("typed queue of deferred events", VQ), ("recall of one event after a processed event", SM)], state=[dict(name="defer queue", meaning="deferred events in order", where=SM)])
p("C12", "Unexpected events reach the handler exactly once and change nothing", "If the root declares an unexpected-event handler, an event for which no transition exists in any region's current state calls it exactly once with that event, the current state object and the injected dependencies, changes no state and makes process_event return false. It is not called for events that were processed, deferred, or merely rejected by guards.",
  ["programs", "histories", "inputs"], MACH, "Tests trigger the handler from one or two states.", [SM, UNX, "include/hsm/details/make_unexpected_event_handler_tables.h"], [("unexpected event handler table", UNX)])
p("C13", "Callbacks receive the injected dependencies, event and state objects", "Every guard, action, entry, exit and unexpected-event callback receives references to exactly the dependency objects given at construction, in their declared order, or to the ones most recently given by set_dependency (which changes nothing else and runs no callback), and never to copies. The event argument is the event with its payload unchanged, and the source and target arguments are the machine's own state objects of that transition.",
  ["programs", "histories", "inputs"], MACH + "; any sequence of set_dependency calls and events", "Tests inject once and fire one or two events; re-injection histories and every callback position are not covered.", [SM, FILL, UNX], [("dependencies are stored as references and passed on", SM)])
p("C14", "State objects live as long as the machine and keep their data", "There is exactly one object per state type per machine; it is created with the machine, every callback of that state gets that same object, and what a callback writes into it is still there when the state is left and re-entered, until the machine is destroyed. A state's data never changes through transitions of other states.",
  ["histories", "inputs", "programs"], "every sequence of events writing and reading arbitrary values, up to the stated depth; object identity for all histories", "Tests write and read one value once.", ["include/hsm/details/make_states_map.h", SM, FILL], [("map from state type to its object", "include/hsm/details/make_states_map.h")])
p("C15", "create_state and reuse_state put exactly the given object in place", "Taking a transition with a create_state action makes the object returned by its factory (called once, with that event and source) the target state's object from then on and destroys the previous one exactly once; a reuse_state action works on the target object already there, without replacing it. No state object is ever used after destruction, destroyed twice or leaked, also when the machine is destroyed at any point.",
  ["histories", "inputs"], "every sequence of events over a machine with custom target states, up to the stated depth", "Tests run one create and one reuse.", ["include/hsm/details/create_state.h", "include/hsm/details/reuse_state.h", FILL], [("factory call and replacement", "include/hsm/details/create_state.h")])
p("C16", "is() and set() report and establish exactly the requested configuration", "is(...) is true for exactly the state (and parent, and region) the machine is in and false for every other one; set(...) puts exactly the requested region in the requested state, runs no callback, leaves other regions, the recorded histories and deferred events alone, and the machine then continues as if it had got there by events. Without a region number the first region is meant. A region number outside the machine's regions is rejected with std::out_of_range by set and is.",
  ["programs", "histories", "inputs"], MACH + ", with set calls interleaved anywhere; every 8-bit region number", "Tests query and set a few states.", [SM, "include/hsm/details/resolve_state.h"], [("comparison of the region's combined index", SM)])
p("C18", "No history makes the machine touch invalid memory or leak", "Constructing, driving, moving and destroying a machine never reads uninitialised memory, accesses memory out of bounds or after it was freed, frees twice, calls through a null function, or leaves heap memory behind once the machine is destroyed - for any event sequence, guard outcome and destruction point, also when a state constructor throws or an allocation fails (the exception then reaches the caller). This includes optimised and unoptimised builds.",
  ["programs", "histories", "inputs"], MACH + ", destroyed at every point, on optimised and unoptimised IR", "Sanitizer runs over the tests see only the executed histories; construction and destruction at arbitrary points are not sampled.", [SM, VQ, "include/hsm/details/make_states_map.h", FILL, DT, DUP], [("ownership of dispatch tables, queue and state map", SM)])
p("C19", "All notations of a transition mean the same", "The postfix notation, the prefix notation and transition(...) tuples describe the same machine: for every combination of source kind, event, optional guard, optional action and target kind, a table written in one notation behaves exactly as the same table written in another. Omitting the guard means always enabled, omitting the action means no action.",
  ["programs", "histories", "inputs"], "every combination of guard/action presence on plain, initial, self, submachine, pseudo-state, internal and anonymous rows in the checked tables, mixed random tables, every history", "Tests check each operator combination by its static type or one firing.", [DSL, TUP, TR], [("operator overloads building the extended transition", DSL), ("transition(...) factories", TUP)], observe=["transition tables", "process_event"])
p("C20", "Chained actions all run, in order, on the same arguments", "A chain of actions used as a transition's action (chain or chain_actions, also nested) runs each of them exactly once per firing, left to right, on the very same event, source, target and dependency objects. Effects of earlier actions are visible to later ones and to the caller, an exception from one stops the rest, and a chain can be used any number of times.",
  ["inputs", "histories", "programs"], "chains of one to four actions, nested, with arbitrary payloads and histories", "Tests chain two or three actions once.", ["include/hsm/details/chain_actions.h"], [("fold over the action tuple", "include/hsm/details/chain_actions.h")])
p("C21", "The typed event queue is a loss-free FIFO", "The queue used for deferred events hands out elements of different types in exactly the order they were pushed: visiting removes the oldest element and calls the callable exactly once with that element's own type and unchanged value. Size and emptiness agree with pushes minus visits, elements pushed while visiting go to the end, and visiting an empty queue throws and calls nothing.",
  ["histories", "inputs"], "every sequence of operations up to the stated length over element types of different size, arbitrary values", "Tests push and pop a couple of elements.", [VQ], [("parallel index of element types", VQ)], observe=["variant_queue operations"])
p("C22", "The owning pointer deletes its object exactly once", "At any time each object is owned by at most one pointer, it is alive exactly as long as it is owned, release hands it out without deleting, reset deletes the previous object, swap exchanges, and move construction empties its source. Move assignment hands over the source's object; the target's previous object is deleted exactly once, at the latest together with the source. Access operators reach the owned object, comparisons compare addresses.",
  ["histories"], "every sequence of operations over three pointers (fixpoint)", "Tests exercise each member once.", [DUP], [("unique ownership", DUP)], observe=["dunique_ptr operations"])
p("C23", "An exception from a callback reaches the caller and the machine stays usable", "An exception thrown by a guard, action, entry, exit or unexpected-event callback propagates unchanged out of process_event, no callback runs after it in that call, nothing leaks, and other regions are untouched. The region that was in transition is then in the transition's source or target, and later events are processed normally from there.",
  ["fault_sequences", "programs", "histories"], "any callback of any step throwing (the throwing callback is a symbolic choice), any history, repeated faults, for machines without deferral", "Tests throw from one action once.", [SM, FILL], [("state update before the action", FILL)])
p("C24", "The single amalgamated header behaves like the library", "A program that includes the single-header distribution instead of the library headers behaves the same: same states, callback order and arguments, results, deferral, history and unexpected-event handling for every history. It offers the same interface (set, is, process_event's result).",
  ["programs", "histories", "inputs"], MACH + " (a subset), compiled against the amalgamated header", "A single test includes it and checks the initial state.", ["include/hsm/gen/hsm.h"], [("generated from the headers", "include/hsm/gen/hsm.h")])
p("C25", "Machines of the same type are independent and movable", "Two machine objects of one type never influence each other, whatever the interleaving of their events: current states, histories, deferred events and state data are per object. Move-constructing a machine (and, where it compiles, move-assigning or swapping) preserves its configuration, histories, deferred events, dependencies and state data.",
  ["programs", "histories", "inputs"], "every interleaving of events on two instances with moves at any point, for the listed machines", "Tests use one instance each.", [SM, DT, "include/hsm/details/make_dispatch_tables.h"], [("per-type shared tables versus per-object state", SM)])
p("C27", "Callbacks work on the caller's event object", "For an event that is not deferred, guards, actions, entry, exit and unexpected-event callbacks all receive the very object passed to process_event: what an earlier callback writes into it is seen by the later ones and by the caller afterwards. The machine itself never modifies or copies it.",
  ["inputs", "histories", "programs"], "arbitrary event contents and writes, every history of the listed machines", "Tests pass empty or constant events.", [SM, FILL], [("event passed by reference through dispatch", SM)])
NA = [("C30", "Invalid tables are rejected at compile time", "A table without an initial state, with a non-callable guard or action, or with an event never handled is rejected by a static_assert with a message.", "decided by the C++ front end when a table is instantiated; there is no run-time code to execute symbolically", ["include/hsm/details/transition_table_traits.h", SM]),
      ("C31", "Transition logging prints the transition taken", "The log action prints source, event and target type names of the transition it is attached to.", "pure iostream formatting of compiler-generated type names through libstdc++'s precompiled stream code, whose IR is not available offline; the part that matters (which arguments a callback gets) is C13", ["include/hsm/details/log.h"]),
      ("C32", "Concurrent use from several threads", "The library documents no thread safety; concurrent calls on one machine are undefined.", "no guarantee is made, so there is nothing to decide; independence of separate objects is C25", [SM])]
for id, t, s, r, f in NA:
    p(id, t, s, ["programs"], "every transition table", "not testable at run time" if id == "C30" else "tests do not look at it", f, [("see reason under not_applicable", f[0])])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
NOTE = "Symbolic execution (own executor over LLVM IR, Z3 deciding every branch, assertion and memory obligation) of the real headers instantiated with the listed machines. Closed jobs reach a fixpoint over canonical program states, i.e. cover histories of any length of that machine for every guard outcome and payload; the others are complete to the depth stated in the evidence. Counterexamples are replayed on native builds before they are reported; sampled paths are co-simulated on a g++ build. Trusts clang's lowering, the executor and its small model of libstdc++ externals; nothing is claimed for machines outside the listed and seeded families."
EXTRA = {"C11": " Depth-bounded (not a fixpoint): 10 events with one-bit payloads, 5 with 32-bit payloads in the quick tier.", "C15": " Depth-bounded: 6 events quick.", "C14": " Data values: depth-bounded; object identity: fixpoint.", "C21": " Depth-bounded: 7 operations quick.", "C18": " Unoptimised-IR jobs stop at their time bound and report the depth reached.", "C24": " Checks the header in include/hsm/gen against the same reference semantics as C01-C13."}
checks = [dict(property=x["id"], quick_cmd=f"python3 tools/run.py {x['id']} quick", thorough_cmd=f"python3 tools/run.py {x['id']} thorough", technique="symbolic execution of the library's LLVM IR with Z3, canonical-state fixpoint, against a reference semantics", level="model_checking", level_note=NOTE + EXTRA.get(x["id"], "")) for x in P if x["id"] not in {n[0] for n in NA}]
for c in checks:
    if c["property"] in ("C20", "C21", "C22", "C27"): c["technique"] = "symbolic execution of the library's LLVM IR with Z3 against a reference model in the harness"
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", hooks=dict(guard="HSM_VERIF_UNUSED", enable="no hooks: the checks drive the public API only", source_commits=[]), checks=checks,
    not_applicable=[dict(property=n[0], reason=n[3]) for n in NA], notes="No hooks are needed; /repo carries only fix: commits. See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
