"""C12: event registration is predictable and conflict-free."""
from symex.case import case
from harness.common import ftrace, col, quiet

ASSUMPTIONS = [
    "class names are words with one capital each; markers of at most 4 "
    "characters; sequences of at most 3 registrations",
]
SCOPES = ["all", "sched", "thermal"]


def trace_path(ctx):
    return ctx.write(["  a-1 [000] 1.000000: alpha: v=1",
                      "  a-1 [000] 2.000000: sched_switch: prev_comm=x "
                      "prev_pid=1 prev_state=R next_comm=y next_pid=2",
                      "  a-1 [000] 3.000000: beta: v=2"])


@case("snake case", bounds="class names of 2 words of up to n symbolic "
      "letters or digits", quick=[dict(a=1, b=2), dict(a=3, b=2),
                                  dict(a=2, b=0)],
      thorough=[dict(a=4, b=4)])
def snake_case(ctx, a, b):
    import trappy.dynamic
    low = "az09_"
    one = ctx.text("A", 1, "AMZ") + ctx.text("a", a, low)
    two = ctx.text("B", 1, "AMZ") + ctx.text("b", b, low) if b else ""
    if hasattr(trappy.dynamic, "_get_name"):
        got = trappy.dynamic._get_name(one + two)
    else:       # (the name is made concrete)
        made = trappy.register_dynamic_ftrace(str(one + two), "kzq:",
                                              scope="sched")
        trappy.unregister_dynamic_ftrace(made)
        got = made.name
    want = one.lower() + ("_" + two.lower() if b else "")
    ctx.check(ctx.eq(got, want), "snake case of the class name")
    ctx.observe("name", got)


@case("scopes", bounds="an event registered in any scope, then unregistered; "
      "traces of every scope before, between and after",
      quick=[dict(fn="dynamic"), dict(fn="parser")])
def scopes(ctx, fn):
    import trappy
    from trappy.base import Base
    quiet()
    scope = ctx.choice("scope", SCOPES)
    asked = ctx.choice("asked", SCOPES + ["custom"])
    byevents = ctx.choice("events", [[], ["my_alpha_event"], ["alpha"],
                                     ["alpha:"]])
    path = trace_path(ctx)

    def registry():
        return [dict(getattr(trappy.ftrace.GenericFTrace, s + "_classes"))
                for s in ("thermal", "sched", "dynamic")]
    start = registry()
    before = ftrace(path, scope=asked)
    ctx.check(not hasattr(before, "my_alpha_event"), "not there before")
    if fn == "dynamic":
        cls = trappy.register_dynamic_ftrace("MyAlphaEvent", "alpha:", scope,
                                             pivot="v")
        ctx.check(cls.pivot == "v", "pivot")
    else:
        class Mine(Base):
            unique_word = "alpha:"
            name = "my_alpha_event"
            pivot = "v"
        cls = Mine
        trappy.register_ftrace_parser(Mine, scope)
    t = ftrace(path, scope=asked, events=byevents)
    there = bool(byevents) or (
        asked != "custom" and (scope == "all" or asked in (scope, "all")))
    ctx.check(("my_alpha_event" in t.class_definitions) == there,
              "available in exactly its scope")
    if there:
        ctx.check(type(t.my_alpha_event) is cls, "registered parser")
        ctx.check(col(t.my_alpha_event.data_frame, "v") == [1], "parsed")
        ctx.check(t.my_alpha_event.pivot == "v", "pivot kept")
    ctx.check("alpha" not in t.class_definitions, "one name only")
    if asked == "custom":
        ctx.check(set(t.class_definitions) ==
                  ({"my_alpha_event"} if byevents else set()),
                  "exactly the requested events")
    else:
        ctx.check(set(t.class_definitions) == set(before.class_definitions)
                  | ({"my_alpha_event"} if there else set()),
                  "other events as before")
    ctx.check("my_alpha_event" not in before.class_definitions,
              "earlier traces unchanged")
    trappy.unregister_ftrace_parser(cls)
    ctx.check(registry() == start, "unregistering undoes it")
    after = ftrace(path, scope=asked)
    ctx.check(set(after.class_definitions) == set(before.class_definitions),
              "gone afterwards")


@case("two registrations", bounds="two events in any scopes, one of them "
      "unregistered", quick=[{}])
def two_registrations(ctx):
    import trappy
    s1 = ctx.choice("s1", SCOPES)
    s2 = ctx.choice("s2", SCOPES)
    which = ctx.choice("which", [0, 1])
    path = trace_path(ctx)
    base = set(ftrace(path).class_definitions)
    cls = [trappy.register_dynamic_ftrace("AlphaOne", "alpha:", s1),
           trappy.register_dynamic_ftrace("BetaOne", "beta:", s2)]
    names = ["alpha_one", "beta_one"]
    trappy.unregister_ftrace_parser(cls[which])
    left = names[1 - which]
    t = ftrace(path)
    ctx.check(set(t.class_definitions) == base | {left}, "only one is gone")
    ctx.check(col(getattr(t, left).data_frame, "v") == [2 - which],
              "the other still works")
    for s, scope in ((s1, "sched"), (s2, "thermal")):
        u = ftrace(path, scope=scope)
        mine = (s2 if which == 0 else s1)
        ctx.check((left in u.class_definitions) ==
                  (mine in ("all", scope)), "scope of the other one")


@case("same name", bounds="two events of one name in any scopes, one of them "
      "unregistered once or twice", quick=[{}])
def same_name(ctx):
    import trappy
    s1 = ctx.choice("s1", SCOPES)
    s2 = ctx.choice("s2", SCOPES)
    which = ctx.choice("which", [0, 1])
    path = trace_path(ctx)
    cls = [trappy.register_dynamic_ftrace("MyThing", "alpha:", s1),
           trappy.register_dynamic_ftrace("MyThing", "beta:", s2)]
    G = trappy.ftrace.GenericFTrace
    reg = {"thermal": G.thermal_classes, "sched": G.sched_classes,
           "all": G.dynamic_classes}
    # the later one takes the place of the first in the same scope
    want = {s1: cls[0]}
    want[s2] = cls[1]
    for s in SCOPES:
        ctx.check(reg[s].get("my_thing") is want.get(s), "registered")
    for _ in range(ctx.choice("times", [1, 2])):
        trappy.unregister_ftrace_parser(cls[which])
    want = {s: c for s, c in want.items() if c is not cls[which]}
    for s in SCOPES:
        ctx.check(reg[s].get("my_thing") is want.get(s),
                  "only the given parser is unregistered")
    t = ftrace(path)
    ctx.check(("my_thing" in t.class_definitions) == bool(want), "in traces")
    if want:
        ctx.check(col(t.my_thing.data_frame, "v") == [2 - which], "parsed")


@case("markers", bounds="two markers of n and m symbolic characters",
      quick=[dict(n=2, m=2, how="registered"), dict(n=3, m=2, how="events")],
      thorough=[dict(n=2, m=4, how="registered"),
                dict(n=4, m=3, how="events")])
def markers(ctx, n, m, how):
    import trappy
    quiet()
    one = ctx.text("one", n, "XYZ:")
    two = ctx.text("two", m, "XYZ:")
    short, lng = (one, two) if n <= m else (two, one)
    inside = False
    for i in range(len(lng) - len(short) + 1):
        inside = ctx.any(inside, ctx.eq(lng[i:i + len(short)], short))
    path = trace_path(ctx)
    one_cls = trappy.register_dynamic_ftrace("One", one)
    two_cls = trappy.register_dynamic_ftrace("Two", two)
    raised, t = False, None
    try:
        if how == "events":
            t = ftrace(path, events=["one", "two"], scope="custom")
        else:
            t = ftrace(path)
    except RuntimeError:
        raised = True
    if raised:
        ctx.check(inside, "refused only when one contains the other")
    else:
        ctx.check(ctx.neg(inside), "conflicting markers are refused")
    # without the second one nothing conflicts
    trappy.unregister_ftrace_parser(two_cls)
    t = ftrace(path, events=["one"], scope="custom")
    ctx.check(list(t.class_definitions) == ["one"], "no conflict left")
    trappy.unregister_ftrace_parser(one_cls)


NAMES = ["alpha", "sched_switch", "sched_switch:", "sched_contrib_scale_f",
         "sched_contrib_scale_factor", "beta"]
ATTR = {"sched_switch:": "sched_switch",
        "sched_contrib_scale_f": "sched_contrib_scale_factor"}


@case("requested", bounds="up to 3 requested events, known and unknown, by "
      "name or marker, repeated", quick=[dict(n=1), dict(n=2), dict(n=3)])
def requested(ctx, n):
    import trappy
    names = [ctx.choice("n%d" % i, NAMES) for i in range(n)]
    single = n == 1 and ctx.bool("string")
    path = trace_path(ctx)
    G = trappy.ftrace.GenericFTrace
    reg = [dict(G.thermal_classes), dict(G.sched_classes),
           dict(G.dynamic_classes)]
    t = ftrace(path, events=names[0] if single else names, scope="custom")
    want = {ATTR.get(x, x) for x in names}
    ctx.check(set(t.class_definitions) == want, "exactly the requested")
    ctx.check(len(t.trace_classes) == len(want), "one object each")
    for w in want:
        ctx.check(getattr(t, w) in t.trace_classes, "attribute")
        if w in G.sched_classes:
            ctx.check(type(getattr(t, w)) is G.sched_classes[w],
                      "registered parser")
        else:
            ctx.check(getattr(t, w).unique_word == w + ":", "marker")
    if "alpha" in want:
        ctx.check(col(t.alpha.data_frame, "v") == [1], "parsed")
    if "sched_switch" in want:
        ctx.check(col(t.sched_switch.data_frame, "next_pid") == [2], "parsed")
    if "sched_contrib_scale_factor" in want:
        try:
            t.sched_contrib_scale_f
            ctx.check(False, "the marker is no attribute")
        except AttributeError as e:
            ctx.check("sched_contrib_scale_factor" in str(e), "told the name")
    ctx.check(reg == [G.thermal_classes, G.sched_classes, G.dynamic_classes],
              "nothing leaks into the registry")
    u = ftrace(path, events=["beta"], scope="custom")
    ctx.check(list(u.class_definitions) == ["beta"], "nor another trace")
    v = ftrace(path, scope="custom")
    ctx.check(list(v.class_definitions) == [], "nor the defaults")


@case("requested parser", bounds="a registered event with one of five "
      "markers, requested by one of six names: known exactly by its name or "
      "its marker, with or without the colon", quick=[{}])
def requested_parser(ctx):
    import trappy
    word = ctx.choice("word", ["alpha:", "alpha", "alpha: v=", "xalpha:",
                               "lpha:"])
    event = ctx.choice("event", ["alpha", "alpha:", "my_event", "alph",
                                 "MyEvent", "lpha"])
    path = trace_path(ctx)
    cls = trappy.register_dynamic_ftrace("MyEvent", word)
    try:
        t = ftrace(path, events=[event], scope="custom")
    finally:
        trappy.unregister_dynamic_ftrace(cls)
    known = event in (word, "my_event") or event + ":" == word
    ctx.check(list(t.class_definitions) == ["my_event" if known else event],
              "its name")
    made = list(t.class_definitions.values())[0]
    ctx.check((made is cls) == known, "its parser")
    ctx.check(made.unique_word == (word if known else event + ":"), "marker")


@case("adding", bounds="adding a frame under a present or new name",
      quick=[dict(kind="ftrace"), dict(kind="bare")])
def adding(ctx, kind):
    import pandas
    import trappy
    name = ctx.choice("name", ["alpha", "counters", "name", "trace_classes",
                               "beta", "get_filters"])
    pivot = ctx.choice("pivot", [None, "cpu"])
    v = ctx.int("v", 0, 99)

    def frame(x):
        return pandas.DataFrame({"v": [x], "cpu": ["c"]},
                                index=pandas.Index([1.5], name="Time"))
    if kind == "bare":
        t = trappy.BareTrace("n")
        t.add_parsed_event("alpha", frame(1))
        other = trappy.BareTrace("m")
    else:
        path = trace_path(ctx)
        t = ftrace(path, events=["alpha"], scope="custom", name="n")
        other = ftrace(path, events=["alpha"], scope="custom")
    before = list(t.trace_classes), dict(t.class_definitions), t.alpha
    raised = False
    try:
        t.add_parsed_event(name, frame(v), pivot)
    except ValueError:
        raised = True
    taken = name not in ("counters", "beta")
    ctx.check(raised == taken, "refused exactly when present")
    if raised:
        ctx.check((t.trace_classes, t.class_definitions, t.alpha) == before,
                  "trace unchanged")
        ctx.check(t.name == "n", "attribute unchanged")
        return
    ev = getattr(t, name)
    ctx.check(ctx.eq(col(ev.data_frame, "v"), [v]), "frame held")
    ctx.check(ev.data_frame.index.tolist() == [1.5], "times")
    ctx.check(getattr(ev, "pivot", None) == pivot, "pivot")
    ctx.check(t.trace_classes == before[0] + [ev], "listed")
    ctx.check(set(t.class_definitions) == set(before[1]) | {name}, "named")
    ctx.check(name not in other.class_definitions and
              not hasattr(other, name), "other traces unchanged")
    ctx.check(name in t.get_filters() and name in t.get_filters(name[1:]) and
              name not in t.get_filters("zz"), "filters")
