/* Draw line plots, do to them what a user does, tell what is shown. */

function seen(name) {
    return GRAPHS.filter(function (g) {
        return g.div_.attrs.id === name;
    }).map(function (g) {
        var options = {};
        for (var k in g.options)
            if (k !== "valueRange" && k !== "dateWindow")
                options[k] = g.options[k];
        return {rows: g.rawData_.map(function (row) {
                    var out = [];
                    for (var i = 0; i < row.length; i++)
                        out.push(row[i] === undefined ? null : row[i]);
                    return out;
                }), options: options, size: g.size,
                window: g.xAxisRange().slice(), values: g.yAxisRange()};
    });
}

function tellAll(names) {
    return {plots: names.map(seen), synced: SYNCS.filter(function (s) {
        return s.on;
    }).map(function (s) {
        return {names: s.graphs.map(function (g) { return g.div_.attrs.id; }),
                zoom: !!s.opts.zoom && !!s.opts.range};
    })};
}

function drive(plots, steps) {
    var out = [];
    var names = plots.map(function (p) { return p.data.name; });
    steps.forEach(function (s) {
        var p = plots[s.plot];
        if (s.kind === "draw") {
            PAGE.div(p.data.name, p.area);
            PAGE.adopt(PAGE.body, new Element("div")).attrs.id =
                p.data.name + "_legend";
            if (p.colors)
                ILinePlot.generate(p.data, p.colors);
            else
                ILinePlot.generate(p.data);
        } else if (s.kind === "remove")
            PAGE.drop(PAGE.byId(p.data.name));
        else if (s.kind === "resize") {
            plots.forEach(function (q) {
                var div = PAGE.byId(q.data.name);
                if (div)
                    div.parentNode.pixels = s.area;
            });
            PAGE.fire(PAGE.win, "resize");
        }
        out.push(tellAll(names));
    });
    return out;
}

function runPage(names, area) {
    names.forEach(function (n) { PAGE.div(n, area); });
    pageScripts();
    return tellAll(names);
}
