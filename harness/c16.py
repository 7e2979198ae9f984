"""C16: power and frequency tables per cluster are exact."""
from symex.case import case
from harness.common import ftrace, col, index

ASSUMPTIONS = [
    "every labelled cluster has a highest frequency above zero; the joined "
    "tables are asked for clusters with input and output events",
]
NAN = float("nan")
MASKS = {"juno": ["000000f0", "0000000f"],
         "wide": ["00000000,00000030", "00000000,0000000f"],
         "short": ["30", "0f", "c0"],
         "mixed": ["7", "300"],
         "high": ["0b000001", "00000006", "e0000000"]}
SIZE = {"000000f0": 4, "0000000f": 4, "00000000,00000030": 2,
        "00000000,0000000f": 4, "30": 2, "0f": 4, "c0": 2, "7": 3, "300": 2, "0b000001": 4,
        "00000006": 2, "e0000000": 3}


def line(i, body):
    return "  kworker-7 [001] %d.500000: " % (i + 1) + body


def number(ctx, name, n):
    v = ctx.digits(name, n)
    ctx.assume(v[0] != "0")
    return v


def padded(rows, names):
    """Latest value per label: rows are (label, value) in order of time."""
    last = {n: NAN for n in names}
    out = []
    for label, value in rows:
        last[label] = value
        out.append([last[n] for n in names])
    return out


def check_table(ctx, dfr, times, rows, names, what):
    ctx.check(sorted(dfr.columns) == sorted(names), what + ": columns")
    ctx.check(ctx.eq(index(dfr), times), what + ": times")
    got = [[col(dfr, n)[i] for n in names] for i in range(len(dfr))]
    ctx.check(ctx.eq(got, padded(rows, names)), what + ": values")
    ctx.observe(what, got)


def frozen(df):
    return [df.index.tolist()] + [[c] + col(df, c) for c in df.columns]


@case("frequencies", bounds="k events over 2-3 clusters of 4 mask styles, "
      "frequencies of n digits, input and output power",
      quick=[dict(k=2, n=7), dict(k=3, n=4), dict(k=4, n=2)],
      thorough=[dict(k=5, n=3)])
def frequencies(ctx, k, n):
    masks = MASKS[ctx.choice("style", sorted(MASKS))]
    which = ctx.choice("which", ["in", "out"])
    event = {"in": "thermal_power_cpu_get_power",
             "out": "thermal_power_cpu_limit"}[which]
    use = [masks[ctx.choice("m%d" % i, range(2 if k > 3 else len(masks)))]
           for i in range(k)]
    freqs = [number(ctx, "f%d" % i, n) for i in range(k)]
    path = ctx.write([line(i, event + ": cpus=" + use[i] + " freq=" +
                           freqs[i] + " cdev_state=5 power=12")
                      for i in range(k)])
    trace = ftrace(path, scope="thermal", normalize_time=False)
    power = trace.cpu_in_power if which == "in" else trace.cpu_out_power
    labels = {m: "L" + m for m in masks}
    before = frozen(power.data_frame)
    dfr = power.get_all_freqs(labels)
    check_table(ctx, dfr, [i + 1.5 for i in range(k)],
                [(labels[m], int(f) / 1000) for m, f in zip(use, freqs)],
                sorted(set(labels[m] for m in use)), "freqs")
    ctx.check(ctx.eq(frozen(power.data_frame), before), "events unaltered")
    ctx.check(power.pivot == "cpus", "pivot")


def power_lines(ctx, k, n, masks):
    """Events of the clusters with one load per CPU."""
    use = [masks[ctx.choice("m%d" % i, range(len(masks)))] for i in range(k)]
    loads = [[number(ctx, "l%d_%d" % (i, j), 2) if j < n else str(7 + j)
              for j in range(SIZE[use[i]])] for i in range(k)]
    freqs = [number(ctx, "f%d" % i, 6) for i in range(k)]
    lines = [line(i, "thermal_power_cpu_get_power: cpus=" + use[i] +
                  " freq=" + freqs[i] + " load={" + " ".join(loads[i]) +
                  "} power=12") for i in range(k)]
    return lines, use, [[int(x) for x in row] for row in loads], \
        [int(f) for f in freqs]


@case("load", bounds="k events over 2 clusters, n symbolic loads each",
      quick=[dict(k=2, n=2), dict(k=3, n=1), dict(k=1, n=2)],
      thorough=[dict(k=4, n=1), dict(k=3, n=2)])
def load(ctx, k, n):
    masks = MASKS[ctx.choice("style", ["wide", "short", "mixed"])][:2]
    lines, use, loads, freqs = power_lines(ctx, k, n, masks)
    power = ftrace(ctx.write(lines), scope="thermal",
                   normalize_time=False).cpu_in_power
    labels = {m: "L" + m for m in masks}
    before = frozen(power.data_frame)
    times = [i + 1.5 for i in range(k)]
    names = sorted(set(labels[m] for m in use))
    sums = [sum(x) for x in loads]
    check_table(ctx, power.get_load_data(labels), times,
                [(labels[m], s) for m, s in zip(use, sums)], names, "load")
    norm = power.get_normalized_load_data(labels)
    top = {}
    for m, f in zip(use, freqs):
        top[m] = f if m not in top else ctx.ite(ctx.lt(top[m], f), f, top[m])
    ctx.check(sorted(norm.columns) == names, "normalised: columns")
    ctx.check(ctx.eq(index(norm), times), "normalised: times")
    want = padded([(labels[m], (s, f, m)) for m, s, f in
                   zip(use, sums, freqs)], names)
    for i in range(k):
        for j, name in enumerate(names):
            got = col(norm, name)[i]
            if type(want[i][j]) is tuple:
                s, f, m = want[i][j]
                ctx.check(ctx.eq(got, s * f / (top[m] * SIZE[m])),
                          "normalised: value")
            else:
                ctx.check(ctx.eq(got, NAN), "normalised: empty")
    ctx.check(ctx.eq(frozen(power.data_frame), before), "events unaltered")
    check_table(ctx, power.get_load_data(labels), times,
                [(labels[m], s) for m, s in zip(use, sums)], names, "again")


@case("unlabelled", bounds="k events over 3 clusters, labels for a subset",
      quick=[dict(k=1), dict(k=2)], thorough=[dict(k=3)])
def unlabelled(ctx, k):
    masks = MASKS[ctx.choice("style", ["short", "high"])]
    given = [m for m in masks if ctx.bool("has" + m)]
    lines, use, loads, freqs = power_lines(ctx, k, 1, masks)
    power = ftrace(ctx.write(lines), scope="thermal").cpu_in_power
    labels = {m: "L" + m for m in given}
    missing = [m for m in use if m not in given]
    for method in (power.get_all_freqs, power.get_load_data,
                   power.get_normalized_load_data):
        try:
            method(labels)
            ctx.check(not missing, "accepted")
        except KeyError as e:
            ctx.check(missing, "refused")
            text = e.args[0]
            ctx.check(any(text.startswith('"' + m + '"') for m in missing),
                      "names the cluster")
            ctx.check(all(m in text.split("available")[1] for m in given),
                      "gives the available names")
            ctx.check(not any(m in text.split("available")[1]
                              for m in missing), "and only those")


@case("mask size", bounds="masks of n symbolic hexadecimal digits in groups "
      "of g", quick=[dict(n=1, g=8), dict(n=2, g=8), dict(n=2, g=1),
                     dict(n=3, g=2)],
      thorough=[dict(n=4, g=8), dict(n=4, g=3)])
def mask_size(ctx, n, g):
    from trappy.cpu_power import num_cpus_in_mask
    digits = ctx.chars("m", n, "0123456789abcdefABCDEF" if n < 3
                       else "013578af")
    text = "00000000,"
    for i in range(n):
        text = text + ("," if i and i % g == 0 else "") + digits[i]
    bits = {"0": 0, "1": 1, "2": 1, "3": 2, "4": 1, "5": 2, "6": 2, "7": 3,
            "8": 1, "9": 2, "a": 2, "b": 3, "c": 2, "d": 3, "e": 3, "f": 4}
    want = 0
    for i in range(n):
        for c, b in bits.items():
            want = want + ctx.ite(ctx.any(digits[i] == c,
                                          digits[i] == c.upper()), b, 0)
    got = num_cpus_in_mask(text)
    ctx.check(ctx.eq(got, want), "number of set bits")
    ctx.observe("got", got)


@case("wide mask", bounds="masks of many digits, any of them set",
      quick=[dict(n=20)])
def wide_mask(ctx, n):
    from trappy.cpu_power import num_cpus_in_mask
    at = ctx.int("at", 0, n - 1)
    text = ""
    for i in range(n):
        text = text + ("," if i and i % 8 == 4 else "") + \
            ("f" if i == at else "1" if i % 5 == 0 else "0")
    want = (n + 4) // 5 + 4
    for i in range(n):
        if i == at and i % 5 == 0:
            want -= 1
    ctx.check(num_cpus_in_mask(text) == want, "number of set bits")


@case("pivot", bounds="pivot_with_labels on k rows with symbolic values and "
      "two or three keys", quick=[dict(k=2), dict(k=3)],
      thorough=[dict(k=4)])
def pivot(ctx, k):
    import pandas
    from trappy.cpu_power import pivot_with_labels
    keys = [ctx.choice("k%d" % i, ["x", "y", "z"]) for i in range(k)]
    vals = [ctx.int("v%d" % i, -50, 50) for i in range(k)]
    gaps = [ctx.choice("g%d" % i, [1, 3]) for i in range(k)]
    times = [sum(gaps[:i + 1]) * 0.5 for i in range(k)]
    dfr = pandas.DataFrame({"cpus": keys, "freq": vals, "other": 1},
                           index=pandas.Index(times, name="Time"))
    labels = {"x": "b", "y": "a", "z": "c"}
    before = frozen(dfr)
    out = pivot_with_labels(dfr, "freq", "cpus", labels)
    check_table(ctx, out, times, [(labels[x], v) for x, v in
                                  zip(keys, vals)],
                sorted(set(labels[x] for x in keys)), "pivot")
    ctx.check(ctx.eq(frozen(dfr), before), "input unaltered")


@case("joined", bounds="k events of input and output power of 2 clusters and "
      "of the GPU in symbolic order, symbolic frequencies",
      quick=[dict(k=1, gpu=True), dict(k=1, gpu=False), dict(k=2, gpu=False)],
      thorough=[dict(k=2, gpu=True)])
def joined(ctx, k, gpu):
    m1, m2 = MASKS["juno"]
    base = [("in", m1), ("out", m1), ("in", m2), ("out", m2)]
    if gpu:
        base += [("in", "gpu"), ("out", "gpu")]
    extra = [ctx.choice("e%d" % i, base) for i in range(k)]
    order = ctx.choice("order", [0, 1, 3])
    todo = base[order:] + base[:order] + extra
    texts = [number(ctx, "f%d" % i, 4 + i % 3) for i in range(len(todo))]
    freqs = [int(f) for f in texts]
    lines = []
    for i, (way, who) in enumerate(todo):
        if who == "gpu":
            event = "thermal_power_devfreq_get_power: type=gpu freq=" \
                if way == "in" else "thermal_power_devfreq_limit: type=gpu " \
                "freq="
        else:
            event = ("thermal_power_cpu_get_power" if way == "in" else
                     "thermal_power_cpu_limit") + ": cpus=" + who + " freq="
        lines.append(line(i, event + texts[i]))
    trace = ftrace(ctx.write(lines), scope="thermal", normalize_time=False)
    labels = {m1: "A57", m2: "A53"}
    tables = trace.get_all_freqs_data(labels)
    ctx.check(sorted(n for n, _ in tables) ==
              sorted(["A57", "A53"] + (["GPU"] if gpu else [])), "tables")
    for name, dfr in tables:
        who = {"A57": m1, "A53": m2, "GPU": "gpu"}[name]
        short = "gpu" if who == "gpu" else name
        names = [short + "_freq_in", short + "_freq_out"]
        times, rows = [], []
        for i, (way, w) in enumerate(todo):
            if w == who:
                times.append(i + 1.5)
                rows.append((short + "_freq_" + way,
                             freqs[i] / (1000000 if who == "gpu" else 1000)))
        if who != "gpu":
            # CPU frequency tables have every time of that kind of event
            times, rows = cluster_rows(todo, freqs, who, short)
            check_values(ctx, dfr, times, rows, names, name)
        else:
            check_table(ctx, dfr, times, rows, names, name)


def cluster_rows(todo, freqs, who, short):
    """The tables of a cluster have the times of all clusters."""
    times, rows = [], []
    last = {}
    for i, (way, w) in enumerate(todo):
        if w == "gpu":
            continue
        if w == who:
            last[way] = freqs[i] / 1000
        times.append(i + 1.5)
        rows.append([last.get("in", NAN), last.get("out", NAN)])
    return times, rows


def check_values(ctx, dfr, times, rows, names, what):
    ctx.check(sorted(dfr.columns) == sorted(names), what + ": columns")
    ctx.check(ctx.eq(index(dfr), times), what + ": times")
    ctx.check(ctx.eq([[col(dfr, n)[i] for n in names]
                      for i in range(len(dfr))], rows), what + ": values")
    ctx.observe(what, rows)


@case("gpu", bounds="k GPU events with symbolic frequencies",
      quick=[dict(k=2)], thorough=[dict(k=4)])
def gpu_freqs(ctx, k):
    kinds = [ctx.choice("w%d" % i, ["in", "out"]) for i in range(k)]
    freqs = [number(ctx, "f%d" % i, 9) for i in range(k)]
    trace = ftrace(ctx.write([line(i, {
        "in": "thermal_power_devfreq_get_power: type=g freq=",
        "out": "thermal_power_devfreq_limit: type=g freq="}[kinds[i]] +
        freqs[i] + " load=5") for i in range(k)]), scope="thermal",
        normalize_time=False)
    for way, event in (("in", trace.devfreq_in_power),
                       ("out", trace.devfreq_out_power)):
        mine = [i for i in range(k) if kinds[i] == way]
        if not mine:
            continue
        before = frozen(event.data_frame)
        dfr = event.get_all_freqs()
        ctx.check(dfr.columns.tolist() == ["freq"], "columns")
        ctx.check(ctx.eq(index(dfr), [i + 1.5 for i in mine]), "times")
        ctx.check(ctx.eq(col(dfr, "freq"), [int(freqs[i]) / 1000000
                                            for i in mine]), "MHz")
        ctx.check(ctx.eq(frozen(event.data_frame), before), "unaltered")
