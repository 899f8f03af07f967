"""The fixed machine set plus seeded random machines."""
import random
from gen import Machine, R, I

def flat():
    return Machine("flat", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("A", "e2", "C", "a"), R("B", "e1", "C", "g"), R("B", "e2", "B"), R("B", "e3", "A", ""),
        R("C", "e1", "D", "ga"), R("C", "e3", "A", "g"), R("D", "e2", "A", "a"), R("D", "e3", "B", "ga"), R("A", "e3", "A", "ga")]})

def order():
    return Machine("order", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("A", "e2", "P"), R("B", "e1", "A", ""), R("B", "e2", "B"), R("B", "e3", "C", "g"),
        R("C", "e1", "P", "a"), R("C", "e2", "D", ""), R("D", "e1", "A"), R("D", "e2", "D", ""), R("P", "e3", "C"), R("A", "e3", "A")],
        "P": [R("*X", "e1", "Y"), R("Y", "e1", "X", ""), R("Y", "e2", "Y", "g"), R("X", "e2", "X")]},
        entry={"A", "C", "P", "X", "D"}, exit={"A", "B", "D", "P", "Y"})

def order2():
    # every presence combination of exit / action / entry on plain, starred and submachine rows
    return Machine("order2", ["e1", "e2", "e3", "e4"], {"Root": [
        R("*S0", "e1", "S1", ""), R("S0", "e2", "S2", "a"), R("S0", "e3", "S3", "g"), R("S0", "e4", "P", ""),
        R("S1", "e1", "S0", "a"), R("S1", "e2", "S2", ""), R("S1", "e3", "S3", "ga"), R("S1", "e4", "P", "a"),
        R("S2", "e1", "S0", "g"), R("S2", "e2", "S1", ""), R("S2", "e3", "S3", "a"), R("S2", "e4", "Q", ""),
        R("S3", "e1", "S0", ""), R("S3", "e2", "S1", "a"), R("S3", "e3", "S2", ""), R("S3", "e4", "Q", "ga"),
        R("P", "e4", "S0", ""), R("P", "e3", "Q", "a"), R("Q", "e4", "S3", "a"), R("Q", "e3", "P", "")],
        "P": [R("*X", "e1", "Y", "")], "Q": [R("*Z", "e1", "W", "a"), R("W", "e2", "Z", "")]},
        entry={"S1", "S3", "P", "Z"}, exit={"S0", "S1", "P"})

def internal():
    return Machine("internal", ["e1", "e2", "e3", "e4"], {"Root": [
        R("*A", "e1", "B"), R("B", "e2", "A"), R("B", "e3", "P", "g"), R("P", "e3", "A", "ga"), R("A", "e4", "C", "a"), R("C", "e1", "B", "g")],
        "P": [R("*X", "e1", "Y"), R("Y", "e2", "X")]},
        entry={"B", "X"}, exit={"B", "C", "Y"},
        internal={"Root": [I("e4"), I("e2", "a")], "B": [I("e1"), I("e2")], "P": [I("e1"), I("e4", "g")], "Y": [I("e1"), I("e3", "a")], "C": [I("e3")]})

def internal2():
    # internal-only events, several rows per state, starred row also naming the state plainly
    return Machine("internal2", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("B", "e1", "A"), R("A", "e2", "A", "g")]},
        entry={"A", "B"}, exit={"A", "B"},
        internal={"B": [I("e3"), I("e3"), I("e2", "a"), I("e1")], "Root": [I("e3", "g"), I("e3")]})

def conflict():
    return Machine("conflict", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("A", "e1", "C"), R("A", "e1", "A", "a"), R("A", "e2", "P"), R("A", "e2", "B"),
        R("B", "e1", "A"), R("B", "e1", "C"), R("B", "e2", "P", "ga"), R("C", "e1", "A", "a"), R("C", "e1", "B"),
        R("P", "e1", "A"), R("P", "e2", "B"), R("P", "e2", "C", "ga"), R("C", "e3", "B"), R("C", "e3", "C")],
        "P": [R("*X", "e1", "Y"), R("X", "e1", "X"), R("X", "e2", "Y"), R("Y", "e1", "X"), R("Y", "e3", "X"), R("Y", "e3", "Y")]},
        internal={"B": [I("e1"), I("e3")], "Y": [I("e3"), I("e1")], "P": [I("e3")]})

def sub():
    return Machine("sub", ["e1", "e2", "e3", "e4"], {"Root": [
        R("*A", "e1", "P"), R("A", "e2", "direct:P:Z", "ga"), R("A", "e3", "entry:P:N"), R("B", "e1", "P", "a"),
        R("exit:P:O", "e2", "B"), R("P", "e4", "A"), R("B", "e4", "A", ""), R("B", "e3", "Q"), R("Q", "e4", "B", "a"), R("Q", "e2", "P")],
        "P": [R("*X", "e1", "Y"), R("Y", "e1", "X"), R("X", "e2", "Z"), R("Z", "e1", "O", "a"), R("N", "e1", "Y"), R("Y", "e3", "O"), R("O", "e1", "X"), R("Z", "e3", "Q"), R("Q", "e4", "Y", "ga")],
        "Q": [R("*X", "e1", "V"), R("V", "e1", "X", "a"), R("V", "e3", "V")]},
        entry={"P", "Q", "X", "B"}, exit={"P", "A", "V"})

def sub2():
    # three levels, the same state type used in several parents
    return Machine("sub2", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "P", "a"), R("A", "e2", "direct:Q:C", "g"), R("P", "e3", "A", "a"), R("A", "e3", "Q"), R("Q", "e2", "A"), R("exit:Q:C", "e1", "B", "a"), R("B", "e1", "A", "")],
        "P": [R("*A", "e1", "B"), R("B", "e1", "L", "ga"), R("L", "e2", "A", "a"), R("B", "e2", "A")],
        "L": [R("*A", "e1", "B", "a"), R("B", "e1", "A"), R("B", "e3", "C")],
        "Q": [R("*A", "e1", "C"), R("C", "e3", "B"), R("B", "e1", "C", "a")]})

def sub4():
    # several guarded rows in the substates and on the submachine for the very events that leave it, at two levels
    return Machine("sub4", ["e1", "e2"], {"Root": [
        R("*A", "e1", "P"), R("A", "e2", "B", "a"), R("B", "e1", "A", "a"), R("P", "e2", "A"), R("P", "e2", "B"), R("P", "e1", "B"), R("P", "e2", "A", "ga")],
        "P": [R("*X", "e2", "Y"), R("X", "e2", "X"), R("X", "e1", "Y", "ga"), R("X", "e1", "L"), R("Y", "e2", "X"), R("Y", "e2", "Y"), R("Y", "e2", "L"), R("L", "e2", "X"), R("L", "e2", "Y"), R("L", "e1", "L")],
        "L": [R("*V", "e2", "W"), R("V", "e2", "V"), R("W", "e2", "V"), R("W", "e1", "V"), R("W", "e1", "W")]})

def hist():
    return Machine("hist", ["e1", "e2", "e3", "e4"], {"Root": [
        R("*A", "e1", "P"), R("A", "e2", "hist:P", "ga"), R("P", "e3", "A"), R("A", "e3", "hist:Q", "a"), R("Q", "e3", "B", "a"), R("B", "e2", "hist:P", "g"),
        R("B", "e1", "A", ""), R("B", "e3", "Q"), R("Q", "e2", "hist:P"), R("P", "e4", "hist:P", "g")],
        "P": [R("*X", "e1", "Y"), R("Y", "e1", "Z"), R("Z", "e1", "X", "a"), R("Y", "e2", "X")],
        "Q": [R("*X", "e1", "W"), R("W", "e1", "X"), R("W", "e2", "W", "g")]})

def hist2():
    # history combined with direct entry, exit pseudo state and nesting
    return Machine("hist2", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "direct:P:Y", "a"), R("A", "e2", "hist:P", "ga"), R("exit:P:Z", "e2", "A", "a"), R("P", "e3", "B", "ga"), R("B", "e1", "hist:P", "a"), R("B", "e2", "P"), R("A", "e3", "B", "")],
        "P": [R("*X", "e1", "Y"), R("Y", "e1", "Z"), R("Y", "e2", "L", "a"), R("L", "e3", "X", "a"), R("X", "e2", "hist:L", "ga")],
        "L": [R("*V", "e1", "W"), R("W", "e1", "V", "a")]})

def ortho():
    return Machine("ortho", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("B", "e2", "A"), R("B", "e1", "B"),
        R("*C", "e1", "D"), R("D", "e1", "C", "a"), R("D", "e3", "C"),
        R("*E", "e2", "F"), R("F", "e2", "E"), R("F", "e1", "F", "ga")]},
        entry={"B", "D", "E"}, exit={"A", "D", "F"}, internal={"B": [I("e3")], "D": [I("e2")]})

def orthosub():
    return Machine("orthosub", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("B", "e1", "A", "a"),
        R("*C", "e1", "P"), R("P", "e3", "C"), R("C", "e2", "D"), R("D", "e2", "P", "a")],
        "P": [R("*X", "e1", "Y"), R("Y", "e2", "X"), R("Y", "e1", "Z", "g"), R("Z", "e1", "X", "a")]},
        entry={"P", "X"}, exit={"P", "B"})

def orthosub0():
    # submachines in every region, the first one included: the others go on
    return Machine("orthosub0", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "P", "a"), R("P", "e3", "A", "ga"), R("A", "e2", "hist:P", "g"), R("exit:P:Y", "e3", "B", ""), R("B", "e1", "A", "a"),
        R("*C", "e1", "Q", "ga"), R("Q", "e2", "D", "a"), R("D", "e1", "hist:Q", "a"), R("D", "e3", "C", "g"),
        R("*E", "e2", "F", "ga"), R("F", "e2", "E", "a")],
        "P": [R("*X", "e1", "Y"), R("Y", "e2", "X", "a")], "Q": [R("*V", "e3", "W", "a"), R("W", "e1", "V", "ga")]},
        entry={"P", "D", "F"}, exit={"C", "E", "F"})

def lateinit():
    # the rows that mark the initial states are not the first ones, and mark one of several rows of the state
    return Machine("lateinit", ["e1", "e2", "e3"], {"Root": [
        R("B", "e1", "A", "a"), R("D", "e2", "P", "ga"), R("A", "e3", "B", ""), R("*A", "e1", "B", "ga"), R("P", "e3", "C", "a"), R("C", "e3", "hist:P", "g"), R("*C", "e2", "D", "a"), R("C", "e1", "P", "g")],
        "P": [R("X", "e1", "Y", "a"), R("Y", "e2", "X", ""), R("*Y", "e1", "Z", "ga"), R("Z", "e1", "X", "g"), R("Y", "e1", "X", "ga")]}, entry={"P", "Y"}, exit={"C", "B"})

def orthoshare():
    # the same states and rows serve several regions
    return Machine("orthoshare", ["e1", "e2"], {"Root": [
        R("*A", "e1", "S"), R("*B", "e1", "S", "a"), R("*C", "e2", "S"), R("S", "e2", "A"), R("S", "e2", "B"), R("S", "e1", "S"), R("A", "e2", "B", "g"), R("B", "e2", "C", "a")]},
        entry={"S", "B"}, exit={"S", "A"})

def orthohist2():
    # two regions in and out of the same submachine, each with its own history of it
    return Machine("orthohist2", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B", "g"), R("B", "e1", "A", "a"),
        R("*C", "e1", "hist:P", "a"), R("C", "e2", "P", "g"), R("*D", "e2", "hist:P"), R("D", "e1", "D", "a"), R("P", "e3", "D", "ga"), R("P", "e3", "C")],
        "P": [R("*X", "e1", "Y"), R("Y", "e1", "X", "a")]})

def deep():
    # five levels, pseudo states below the first level
    return Machine("deep", ["e1", "e2", "e3", "e4"], {"Root": [
        R("*A", "e1", "P", "a"), R("P", "e4", "A", "a"), R("A", "e2", "direct:L:W", "g"), R("A", "e3", "hist:Q", "a")],
        "P": [R("*X", "e1", "Q", "ga"), R("X", "e2", "hist:Q"), R("X", "e3", "direct:Q:Y2", "a"), R("Q", "e3", "X", "ga"), R("exit:Q:Y2", "e4", "X", "a")],
        "Q": [R("*Y1", "e1", "L", "a"), R("Y1", "e2", "Y2"), R("L", "e2", "Y1", "a"), R("Y2", "e1", "hist:L", "g"), R("exit:L:W", "e4", "Y2", "a")],
        "L": [R("*V", "e1", "K", "a"), R("V", "e3", "W", "ga"), R("K", "e3", "V", "a"), R("W", "e1", "V", "g")],
        "K": [R("*M", "e1", "N"), R("N", "e2", "M", "a"), R("N", "e1", "N", "")]}, internal={"N": [I("e4", "a")], "K": [I("e4")]})

def orthohist():
    return Machine("orthohist", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("B", "e1", "A", "a"),
        R("*C", "e1", "P", "a"), R("C", "e2", "hist:P"), R("P", "e3", "C", "ga")],
        "P": [R("*X", "e1", "Y"), R("Y", "e1", "Z", "g"), R("Z", "e1", "X", "a")]})

def anon():
    return Machine("anon", ["e1", "e2"], {"Root": [
        R("*A", "e1", "B"), R("B", None, "C"), R("C", None, "D", "ga"), R("D", None, "E", "g"), R("E", "e2", "A", "a"), R("D", "e2", "A"), R("C", "e2", "P", "a"), R("B", "e1", "A"),
        R("C", None, "P"), R("P", None, "A", "ga"), R("P", "e2", "A", "a")],
        "P": [R("*X", None, "Y", "ga"), R("Y", "e1", "X", "a"), R("X", "e1", "Y")]},
        entry={"C", "P", "Y"}, exit={"B", "D", "P"})

def anon2():
    # anonymous transitions in several regions; every state has one (see DESIGN.md, known findings)
    return Machine("anon2", ["e1", "e2"], {"Root": [
        R("*A", "e1", "B"), R("A", None, "A2", "ga"), R("B", None, "A", "ga"), R("A2", None, "B", "ga"), R("A2", "e2", "A", "a"),
        R("*C", "e1", "D"), R("D", None, "C", "ga"), R("C", None, "C", "ga"),
        R("*F", "e2", "H", "a"), R("H", None, "F", "ga"), R("H", "e1", "F"), R("F", None, "H", "ga")]}, entry={"B", "K"}, exit={"A", "C"})

def anon4():
    # chains through a submachine, self-anonymous rows, two anonymous rows in conflict
    return Machine("anon4", ["e1", "e2"], {"Root": [
        R("*A", "e1", "P", "a"), R("P", "e2", "A"), R("A", None, "B", "g"), R("A", None, "C", "ga"), R("B", "e1", "A", ""), R("C", None, "P", "ga"), R("exit:P:Z", None, "A", "ga")],
        "P": [R("*X", None, "Y", "ga"), R("Y", None, "Z", "ga"), R("Y", "e1", "X", "a"), R("Z", "e1", "Y", "a")]}, entry={"Y", "B"}, exit={"C", "Y"})

def anon5():
    # anonymous rows to every kind of target and from an exit pseudo state, competing for the same state
    return Machine("anon5", ["e1", "e2"], {"Root": [
        R("*A", "e1", "B", "a"), R("B", None, "C", "ga"), R("B", None, "hist:P", "ga"), R("C", None, "direct:P:Y", "ga"), R("C", None, "A", "ga"), R("C", None, "entry:P:Z", "ga"),
        R("exit:P:Y", None, "B", "ga"), R("P", None, "C", "ga"), R("P", "e2", "A", "a"), R("C", "e2", "A"), R("B", "e2", "hist:P", "g")],
        "P": [R("*X", "e1", "Y", "a"), R("Y", None, "Z", "ga"), R("Z", None, "Z", "ga"), R("Y", "e1", "X", "g"), R("Z", "e1", "Y", "a")]})

def anonint():
    # internal rows (of a leaf, of a submachine) next to anonymous rows: an internal transition is followed by completion too
    return Machine("anonint", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("B", None, "P", "ga"), R("B", None, "B", "ga"), R("P", None, "A", "ga"), R("P", "e1", "B", "g")],
        "P": [R("*X", "e1", "Y"), R("Y", None, "X", "ga")]}, entry={"B", "X"}, exit={"A", "Y"},
        internal={"B": [I("e2", "ga"), I("e3", "")], "P": [I("e2", "a"), I("e3", "g")], "Root": [I("e3", "a")]})

def anonrep():
    # completion loops much longer than the machine has states or rows (ANON_REP)
    return Machine("anonrep", ["e1", "e2"], {"Root": [
        R("*A", "e1", "B", "a"), R("B", None, "C", "ga"), R("C", None, "B", "ga"), R("C", "e1", "A"), R("B", "e1", "A"), R("B", "e2", "P", "a"), R("P", None, "B", "ga")],
        "P": [R("*X", None, "Y", "ga"), R("Y", None, "X", "ga")]}, entry={"C"})

def anon3():
    return Machine("anon3", ["e1", "e2"], {"Root": [
        R("*A", "e1", "B", "a"), R("B", None, "C", "a"), R("C", None, "D", ""), R("D", "e1", "A", "a"), R("D", "e2", "P"),
        R("P", None, "A", "ga")],
        "P": [R("*X", "e1", "Y"), R("Y", "e2", "X", "a")]}, exit={"B", "C"}, entry={"C", "D"})

def defer():
    return Machine("defer", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B", "a"), R("A", "e3", "A", "ga"), R("B", "e2", "C"), R("B", "e3", "A"), R("C", "e2", "B", "a"), R("C", "e1", "A", "ga")]},
        defer={"A": ["e2"], "B": ["e1"]}, qmax=3)

def defer2():
    # deferral in a submachine, deferral overriding an own transition, unexpected handler present
    return Machine("defer2", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "P", "a"), R("A", "e2", "B"), R("B", "e3", "A", "a"), R("B", "e2", "B", "ga"), R("P", "e3", "A", "ga")],
        "P": [R("*X", "e1", "Y", "a"), R("Y", "e2", "X"), R("X", "e2", "X", "a")]},
        defer={"X": ["e2"], "A": ["e3"]}, unexpected=True, qmax=2)

def defer3():
    # deferral + anonymous transitions: run-to-completion before recall
    return Machine("defer3", ["e1", "e2"], {"Root": [
        R("*A", "e1", "B", "ga"), R("B", None, "C", "ga"), R("C", "e2", "A", "a"), R("B", "e1", "A"), R("C", "e1", "C", "a")]},
        defer={"A": ["e2"], "B": ["e2"]}, qmax=3)

def unexp():
    return Machine("unexp", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("B", "e2", "P"), R("P", "e3", "A"), R("B", "e3", "C", "a"), R("C", "e1", "A", "a")],
        "P": [R("*X", "e1", "Y"), R("Y", "e2", "X", "g")]}, unexpected=True, internal={"C": [I("e2")], "Y": [I("e1")]})

def unexp2():
    return Machine("unexp2", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("B", "e2", "A", "a"), R("*C", "e1", "D"), R("D", "e3", "C"), R("B", None, "E", "ga"), R("E", "e3", "A", "a")]},
        unexpected=True, deps=1)

def deps():
    return Machine("deps", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B"), R("B", "e2", "P"), R("P", "e3", "A"), R("B", None, "C", "ga"), R("C", "e1", "A"), R("C", "e2", "hist:P")],
        "P": [R("*X", "e1", "Y"), R("Y", "e1", "X")]}, deps=3, unexpected=True, entry={"B", "P", "X"}, exit={"A", "P", "Y"}, internal={"C": [I("e3")], "P": [I("e2")]})

def forms():
    rows = [("*A", "e1", "B"), ("B", "e1", "C"), ("B", "e2", "A"), ("C", "e1", "A"), ("C", "e2", "B"), ("A", "e2", "A"), ("A", "e3", "C"), ("C", "e3", "C")]
    opts = ["ga", "g", "a", "", "ga", "g", "a", ""]
    return rows, opts
# the same pseudo-state / submachine / anonymous / internal machine in the three notations
def forms2(form):
    f = lambda *x: R(*x, form)
    it = "tuple" if form == "tuple" else "dsl"
    return Machine("forms2_" + form, ["e1", "e2", "e3", "e4"], {"Root": [
        f("*A", "e1", "P", "ga"), f("A", "e2", "direct:P:Y", "g"), f("A", "e3", "entry:P:X", "a"), f("exit:P:Y", "e2", "B", "ga"), f("exit:P:X", "e2", "B", ""),
        f("P", "e3", "B", "a"), f("B", "e2", "hist:P", "ga"), f("B", "e3", "hist:P", ""), f("B", "e1", "C", ""), f("C", None, "A", ""), f("C", "e4", "B", "a"), f("B", "e4", "B", "g")],
        "P": [f("*X", "e1", "Y", ""), f("Y", "e1", "X", "ga"), f("X", "e4", "X", "a"), f("Y", "e4", "Y", "ga")]}, internal={"B": [I("e2", "ga", it), I("e4", "a", it), I("e4", "g", it)], "P": [I("e4", "g", it), I("e2", "", it)]})
def forms2_dsl(): return forms2("dsl")
def forms2_tuple(): return forms2("tuple")
def forms2_prefix(): return forms2("prefix")
# starred row without event: anonymous transition straight out of the initial state
def forms3():
    return Machine("forms3", ["e1", "e2"], {"Root": [
        R("*A", None, "B", "ga"), R("A", "e2", "C", "g"), R("B", "e1", "A", "a"), R("C", None, "B", "a"), R("C", "e1", "A", ""), R("B", "e2", "C", "")]})
def forms3t():
    m = forms3(); m.name = "forms3t"
    for r in m.tables["Root"]: r.form = "tuple"
    return m
def forms_dsl():
    r, o = forms(); return Machine("forms_dsl", ["e1", "e2", "e3"], {"Root": [R(*x, y, "dsl") for x, y in zip(r, o)]})
def forms_tuple():
    r, o = forms(); return Machine("forms_tuple", ["e1", "e2", "e3"], {"Root": [R(*x, y, "tuple") for x, y in zip(r, o)]})
def forms_prefix():
    r, o = forms(); return Machine("forms_prefix", ["e1", "e2", "e3"], {"Root": [R(*x, y, "prefix") for x, y in zip(r, o)]})

# every combination of source kind, guard, action and target kind, in one notation each: the grid machines
GT = ["B", "A0", "P", "direct:P:Y", "entry:P:X", "hist:P"]; GO = ["ga", "g", "a", ""]
def grid(form):
    f = lambda *x: R(*x, form)
    rows = [f("*A0", "e7", "A1", "")]
    for i, o in enumerate(GO):
        if i: rows.append(f(f"A{i}", "e7", f"A{(i + 1) % 4}", ""))
        rows += [f(f"A{i}", f"e{j + 1}", t.replace("A0", f"A{i}"), o) for j, t in enumerate(GT)]
    rows += [f("B", "e7", "A0", "a"), f("P", "e7", "A2", "g"), f("P", "e6", "A1", "ga"), f("P", "e5", "B", "a"), f("P", "e4", "A3", ""), f("P", "e3", "P", "g"), f("P", "e2", "hist:P", "a")]
    return Machine(f"grid_{form}", [f"e{i}" for i in range(1, 8)], {"Root": rows, "P": [f("*X", "e1", "Y", "a"), f("Y", "e1", "X", "g")]}, entry={"B", "A1"}, exit={"A2"})
def gridexit(form):
    f = lambda *x: R(*x, form)
    rows = [f("*A0", "e7", "Q", "")]
    for i, o in enumerate(GO): rows += [f(f"exit:Q:Y{i}", f"e{j + 1}", t, o) for j, t in enumerate(GT)]
    rows += [f("B", "e7", "Q", "a"), f("P", "e7", "A0", "g"), f("P", "e6", "hist:Q", "ga")]
    q = [f("*Y0", "e7", "Y1", "")] + [f(f"Y{i}", "e7", f"Y{(i + 1) % 4}", "") for i in range(1, 4)]
    return Machine(f"gridexit_{form}", [f"e{i}" for i in range(1, 8)], {"Root": rows, "P": [f("*X", "e1", "Y", "a"), f("Y", "e1", "X", "g")], "Q": q}, entry={"B"}, exit={"A0"})
def gridanon(form):
    f = lambda *x: R(*x, form)
    rows = [f("*A0", "e7", "A1", "")]
    for i, o in enumerate(GO):
        if i: rows.append(f(f"A{i}", "e7", f"A{(i + 1) % 4}", ""))
        for j, t in enumerate(["B", "P", "direct:P:Y", "hist:P"]):
            rows += [f(f"A{i}", f"e{j + 1}", f"N{i}{j}", ""), f(f"N{i}{j}", None, t, o)]
            if "g" in o: rows.append(f(f"N{i}{j}", "e7", "A0", ""))
    rows += [f("B", "e7", "A0", "a"), f("P", "e7", "A0", "g")]
    return Machine(f"gridanon_{form}", [f"e{i}" for i in (1, 2, 3, 4, 7)], {"Root": rows, "P": [f("*X", "e1", "Y", "a"), f("Y", "e1", "X", "g")]}, entry={"B", "N10"}, exit={"N23"})
def gridinit(form, k):
    # initial rows of every kind, one region each; the event that leaves the region's initial state and the one that returns
    f = lambda *x: R(*x, form); rows = []; tabs = {}
    for j, t in enumerate(GT):
        t = t.replace("A0", f"A{j}").replace("B", f"B{j}").replace("P", f"P{j}").replace("X", f"X{j}").replace("Y", f"Y{j}")
        rows.append(f(f"*A{j}", "e1", t, GO[(j + k) % 4]))
        if j == 1: continue
        if "P" in t: tabs[f"P{j}"] = [f(f"*X{j}", "e3", f"Y{j}", GO[(j + k + 1) % 4])] + ([f(f"Y{j}", "e3", f"X{j}", "")])
        rows.append(f(f"P{j}" if "P" in t else f"B{j}", "e2", f"A{j}", "g" if j == 0 else ""))
    return Machine(f"gridinit{k}_{form}", ["e1", "e2", "e3"], dict(Root=rows, **tabs), entry={"B0", "A3"}, exit={"A4"})
GRIDS = {f"{fn.__name__}{k}_{fo}": (fn, fo, k) for fn in (grid, gridexit, gridanon, gridinit) for fo in ("dsl", "tuple", "prefix") for k in (range(4) if fn is gridinit else [""])}

def internal3():
    # internal rows on a submachine, on its substates and on the root, against external rows of all levels
    return Machine("internal3", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "P", "a"), R("P", "e2", "A", "ga"), R("A", "e2", "B", "g"), R("B", "e1", "A", "a")],
        "P": [R("*X", "e1", "Y", "ga"), R("Y", "e3", "X", "ga"), R("Y", "e1", "X", "a")]},
        entry={"X", "P"}, exit={"Y", "P"},
        internal={"P": [I("e1"), I("e2"), I("e3")], "X": [I("e2"), I("e3")], "Y": [I("e3"), I("e1", "g")], "B": [I("e3"), I("e2", "a")]})

def conflict2():
    # many rows for the same (state, event): document order reversed priority, guarded and unguarded, in two regions
    return Machine("conflict2", ["e1", "e2"], {"Root": [
        R("*A", "e1", "B"), R("A", "e1", "A"), R("A", "e1", "C"), R("A", "e1", "B", "g"), R("B", "e1", "A", "a"), R("B", "e1", "C"), R("B", "e2", "A"), R("B", "e2", "B"), R("C", "e2", "A", "a"),
        R("*D", "e1", "E"), R("D", "e1", "D"), R("D", "e2", "E", "a"), R("D", "e2", "D"), R("E", "e2", "D"), R("E", "e2", "E", "a"), R("E", "e1", "D")]})

def conflict0():
    return Machine("conflict0", ["e1"], {"Root": [R("*A", "e1", "B"), R("A", "e1", "A"), R("B", "e1", "A", "a")]}, entry={"A"}, exit={"B"})

def sub3():
    # nesting with leaving at every level, state types shared between levels, several ways in
    return Machine("sub3", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "P"), R("A", "e2", "entry:P:L2", "a"), R("A", "e3", "direct:L:V", "a"), R("exit:L:W", "e3", "A", "a"), R("P", "e3", "B", "ga"), R("B", "e1", "P", ""), R("B", "e2", "A", "a"), R("exit:P:L2", "e2", "B", "ga")],
        "P": [R("*X", "e1", "L", "ga"), R("L", "e2", "X", "a"), R("L2", "e1", "L"), R("X", "e2", "L2", "a"), R("L2", "e3", "L2", "g")],
        "L": [R("*V", "e1", "W"), R("W", "e1", "V", "a"), R("V", "e2", "V")]}, entry={"L", "A", "V"}, exit={"P", "L", "B"})

def hist3():
    # two submachines, each other's history, history re-entered many times, left by exit pseudo state and by transition
    return Machine("hist3", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "hist:P", "a"), R("A", "e2", "P", ""), R("A", "e3", "hist:Q", ""), R("P", "e3", "hist:Q", "ga"), R("Q", "e3", "hist:P", "g"), R("exit:P:Y", "e2", "A", "a"), R("Q", "e2", "A", "a")],
        "P": [R("*X", "e1", "Y", "ga"), R("Y", "e1", "X", "a")], "Q": [R("*V", "e1", "W", "ga"), R("W", "e1", "V", "a")]})
def hist4():
    return Machine("hist4", ["e1", "e2"], {"Root": [R("*A", "e1", "hist:P", "a"), R("P", "e2", "A", "ga")], "P": [R("*X", "e1", "Y", "g"), R("Y", "e1", "X", "a")]})

def ortho4():
    return Machine("ortho4", ["e1", "e2"], {"Root": [
        R("*A", "e1", "B", "g"), R("B", "e1", "A", "a"), R("*C", "e1", "D", "a"), R("D", "e2", "C", "ga"),
        R("*E", "e2", "F", "g"), R("F", "e1", "E", "a"), R("*H", "e2", "K", "ga"), R("K", "e2", "H", "ga")]}, entry={"B", "D"}, exit={"E", "H"})

def defer4():
    # two regions that both defer; what is deferred has no transition in any configuration that defers it
    return Machine("defer4", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B", "ga"), R("B", "e1", "A", "a"), R("B", "e2", "B", "a"),
        R("*C", "e3", "D", "a"), R("D", "e3", "C", "ga")]}, defer={"A": ["e2"]}, qmax=2)

def defer6():
    # deferring states without a row of their own: a last substate, one left by an exit pseudo state, one with internal rows only
    return Machine("defer6", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "P", "a"), R("A", "e2", "A", "a"), R("P", "e3", "A", "ga"), R("A", "e3", "direct:P:Z", "a"), R("exit:P:Z", "e1", "A", "a")],
        "P": [R("*X", "e1", "Y", "a"), R("X", "e3", "Z", "ga"), R("X", "e2", "W", "a")]},
        defer={"Y": ["e2"], "Z": ["e2"], "W": ["e1"]}, internal={"W": [I("e2", "a")], "Y": [I("e1", "a")]}, qmax=2)

def defer7():
    # a recalled event enables completions; events nobody expects arrive while others wait
    return Machine("defer7", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B", "a"), R("B", "e2", "C", "ga"), R("C", None, "D", "ga"), R("D", "e2", "A", "a"), R("D", "e3", "C", "a")]},
        defer={"A": ["e2"]}, internal={"B": [I("e3", "a")]}, unexpected=True, qmax=2)

def defer5():
    # many events waiting at once; two types of different size share the queue
    return Machine("defer5", ["e1", "e2", "e3"], {"Root": [
        R("*A", "e1", "B", "a"), R("B", "e2", "B", "a"), R("B", "e3", "B", "a")]}, defer={"A": ["e2", "e3"]}, qmax=7)

def defer0():
    return Machine("defer0", ["e1", "e2"], {"Root": [R("*A", "e1", "B", "a"), R("B", "e2", "A", "a")]}, defer={"A": ["e2"]}, qmax=2)

def deps2():
    return Machine("deps2", ["e1", "e2"], {"Root": [
        R("*C", "e1", "D", "ga"), R("D", "e2", "C"),
        R("*A", "e1", "B"), R("B", "e1", "direct:P:Y", "ga"), R("exit:P:Y", "e2", "A", "ga"), R("P", "e2", "B", "ga")],
        "P": [R("*X", "e1", "Y"), R("Y", "e1", "X", "a")]}, deps=2, unexpected=True, entry={"B", "D"}, exit={"A", "C"}, internal={"D": [I("e1")]})

def wide():
    # eight regions (the last one with a submachine) and nine alternatives for one state and event
    T = [R("*A", "e1", "B", "ga")] + [R("A", "e1", "B" if i % 2 else "A", "ga") for i in range(8)] + [R("B", "e2", "A", "a")]
    for i in range(6): T += [R(f"*C{i}", "e2" if i < 5 else "e1", f"D{i}", "ga" if i in (1, 4) else "a" if i == 2 else ""), R(f"D{i}", "e3", f"C{i}", "a" if i % 2 else "")]
    T += [R("*Z", "e3", "P", "a"), R("P", "e1", "Z", "a")]
    return Machine("wide", ["e1", "e2", "e3"], {"Root": T, "P": [R("*X", "e2", "Y", "a"), R("Y", "e2", "X", "")]}, entry={"D4", "Y"}, exit={"C0", "P"})

def big():
    # more than 256 combinations of parent and state, ten events (compiles for 40 s)
    T = {"Root": [R("*A", "e1", "P0", "ga")]}
    for i in range(7):
        if i: T["Root"].append(R(f"P{i-1}", "e1", f"P{i}", "a" if i % 2 else ""))
        T["Root"].append(R(f"P{i}", f"e{2 + i % 4}", "A" if i % 3 else "B", "ga" if i == 6 else "a"))
        T[f"P{i}"] = [R(f"*S{i}", f"e{6 + i % 3}", f"T{i}", "ga" if i == 5 else ""), R(f"T{i}", f"e{6 + (i + 1) % 3}", f"U{i}", ""), R(f"U{i}", "e9", f"V{i}", "a"), R(f"V{i}", "e10", f"S{i}", "")]
    T["Root"] += [R("B", "e1", "P6", "a"), R("B", "e2", "P3", ""), R("B", "e3", "direct:P6:V6", "a"), R("exit:P6:V6", "e4", "A", "")]
    return Machine("big", ["e%d" % i for i in range(1, 11)], T, entry={"V6", "P5"}, exit={"U6"})

ALL = {f.__name__: f for f in [wide, lateinit, orthosub0, orthoshare, orthohist2, deep, defer6, defer7, big, sub4, flat, order, order2, internal, internal2, conflict, sub, sub2, hist, hist2, ortho, orthosub, orthohist,
       anon, anon2, anon3, anon4, anon5, anonint, anonrep, defer, defer2, defer3, unexp, unexp2, deps, forms_dsl, forms_tuple, forms_prefix, forms2_dsl, forms2_tuple, forms2_prefix, forms3, forms3t, internal3, conflict2, conflict0, sub3, hist3, hist4, ortho4, defer4, defer5, defer0, deps2]}

def rnd(seed, regions=None, internal=True, subs=True, kind=""):
    """A random well-formed machine: root regions of simple states, (single-region) submachines reached
    from any region, guards/actions/entry/exit at random."""
    g = random.Random(seed)
    nreg = regions or g.choice([1, 1, 1, 2, 3])
    if kind == "o": nreg = g.choice([2, 2, 3])
    if kind in "asq" and kind: nreg = 1
    evs = ["e%d" % i for i in range(1, g.choice([2, 3, 3]) + 1)]
    if kind in "ct" and kind: evs = evs[:2]
    op = lambda: g.choice(["ga", "ga", "ga", "g", "a", "", "a"])
    form = lambda: g.choice(["dsl", "tuple", "prefix"])
    if kind == "c": op = lambda: g.choice(["ga", "ga", "ga", "a"])
    tables = {"Root": []}
    entry, exit_, ints = set(), set(), {}
    nsub = g.choice([0, 1, 1, 2]) if subs else 0
    if kind in "sh" and kind: nsub = g.choice([1, 2])
    if kind == "t": nsub = g.choice([0, 1])
    more = 3 if kind == "c" else 0
    subn = ["P", "Q"][:nsub]
    budget = 14
    sub_states = {}
    def table(name, states, targets, nrows, extra=()):
        rows = []
        s0 = states[0]
        for i in range(nrows):
            s = states[i % len(states)] if i < len(states) else g.choice(states)
            rows.append(R(("*" if i == 0 else "") + s, g.choice(evs), g.choice(targets), op(), form() if True else "dsl"))
        # every state must be reachable by name; chain any unnamed
        return rows
    pool = ["A", "B", "C", "D", "E", "F", "H", "K"]
    owner = {s: g.randrange(nreg) for s in subn}
    if nreg > 1:
        for s in subn: owner[s] = g.randrange(nreg)
    for s in subn:
        n = g.choice([2, 2, 3])
        st = ["X", "Y", "Z"][:n] if g.random() < .5 else [s + x for x in "XYZ"[:n]]
        if g.random() < .2 and nreg == 1: st[-1:] = ["A"] if "A" not in st else []
        sub_states[s] = st
        tables[s] = table(s, st, st, g.choice([2, 3, 4]))
        sub_states[s] = sorted({x.lstrip("*") for r in tables[s] for x in (r.src, r.dst)})
    for r in range(nreg):
        n = g.choice([2, 3]) if nreg > 1 else g.choice([2, 3, 4])
        st = [pool.pop(0) for _ in range(min(n, len(pool)))]
        mine = [s for s in subn if owner[s] == r]
        tg = st + mine
        rows = table("Root", st, tg, max(len(st), g.choice([3, 4, 5]) - (nreg > 1) + (0 if nreg > 1 else more)))
        for s in mine:
            rows.append(R(g.choice(st), g.choice(evs), s, op(), form()))
            rows.append(R(s, g.choice(evs), g.choice(tg), op(), form()))
            if g.random() < .3: rows.append(R(g.choice(st), g.choice(evs), f"direct:{s}:{g.choice(sub_states[s])}", op(), "dsl"))
            if g.random() < .3: rows.append(R(f"exit:{s}:{g.choice(sub_states[s])}", g.choice(evs), g.choice(st), op(), "dsl"))
            if g.random() < .4 or kind == "h": rows.append(R(g.choice(st), g.choice(evs), f"hist:{s}", op(), "dsl"))
        for k in range(1, len(rows)):
            if rows[k].form == "prefix" and ":" in rows[k].src: rows[k].form = "dsl"
        tables["Root"] += rows
    if kind == "a":   # anonymous rows: guarded with an action (the action consumes the guard, so chains are finite)
        for nm in ["Root"] + subn:
            sts = sorted({x.lstrip("*") for r in tables[nm] for x in (r.src, r.dst) if ":" not in x})
            for k in range(g.choice([1, 2, 3])):
                tables[nm].append(R(g.choice(sts), None, g.choice([x for x in sts]), "ga", "dsl"))
    g2 = random.Random(seed + 1)
    if g2.random() < .4:   # any row order: initial states marked late, rows leaving a submachine before those entering it
        for t in tables.values(): g2.shuffle(t)
    allstates = [s for s in ["A", "B", "C", "D", "E", "F", "H", "K"] if s not in pool]
    # entry/exit actions only where their semantics is documented (not on states left/entered through pseudo states)
    pseudo = set()
    for t in tables.values():
        for r in t:
            for x in (r.src, r.dst):
                if ":" in x: pseudo.update(x.split(":")[1:])
    left_by_sub = set()
    for s in subn: left_by_sub.update(sub_states[s])
    for s in allstates + subn:
        if s in pseudo: continue
        if g.random() < .4: entry.add(s)
        if g.random() < .4 and s not in left_by_sub: exit_.add(s)
    for s in subn:
        for x in sub_states[s]:
            if x not in pseudo and g.random() < .3: entry.add(x)
    init = {r.src[1:] for r in tables["Root"] if r.src.startswith("*")}
    if internal:
        for s in allstates + [x for v in sub_states.values() for x in v]:
            if s not in init and g.random() < (.6 if kind == "i" else .2): ints[s] = [I(g.choice(evs), op()) for _ in range(g.choice([1, 2]))]
        hasex = any(":" in r.src or "direct" in r.dst for r in tables["Root"])
        for s in subn + ([] if hasex or nreg > 1 else ["Root"]):
            if g.random() < (.6 if kind == "i" else .2): ints[s] = [I(g.choice(evs), op())]
    if kind == "f":
        for k, v in enumerate(ints.values()):
            if k % 2 == 0:
                for ir in v: ir.form = "tuple"
    if kind == "w":   # rows that share guard and action types
        ext = [r for t in tables.values() for r in t] + [r for t in ints.values() for r in t]
        for r in ext: r.gi, r.ai = g.randrange(3), g.randrange(3)
    df = {}
    if kind == "q":   # deferral: any state, also in submachines, also of events the state has rows for
        for s in g.sample(allstates + [x for v in sub_states.values() for x in v], g.choice([1, 2])):
            df[s] = g.sample(evs, g.choice([1, 1, 2]))
    used = {r.ev for t in list(tables.values()) + list(ints.values()) for r in t}
    evs = [e for e in evs if e in used]
    un, dp = g.random() < .5, g.choice([0, 0, 2])
    if kind == "u": un = True
    if kind == "d": dp = g.choice([1, 2, 3])
    return Machine(f"rnd{kind}{seed}", evs, tables, entry, exit_, ints, {s: [e for e in v if e in evs] for s, v in df.items() if set(v) & set(evs)}, un, dp)

def get(name):
    if name.startswith("rnd"):
        k = name[3] if name[3].isalpha() else ""
        return rnd(int(name[3 + len(k):]), kind=k)
    if name in GRIDS: fn, fo, k = GRIDS[name]; return fn(fo, k) if fn is gridinit else fn(fo)
    return ALL[name]()
