/* Draw event plots, do to them what a user does, tell what is on the page. */

function controlOf(div, kind) {
    var found = [];
    PAGE.below(div, function (n) {
        n.controls.forEach(function (c) {
            if (c.kind === kind)
                found.push([n, c]);
        });
        return false;
    });
    return found;
}

function hasHandler(node, type) {
    for (var k in node.handlers)
        if (k === type || k.indexOf(type + ".") === 0)
            return true;
    return false;
}

function tipOf(node) {
    PAGE.tip = null;
    PAGE.fire(node, "mouseover");
    var words = PAGE.tip;
    PAGE.fire(node, "mouseout");
    return words;
}

function place(node, root) {
    var at = [0, 0];
    while (node && node !== root) {
        var t = node.attrs.transform;
        if (t) {
            var inner = t.split("(")[1].split(")")[0];
            var xy = inner.split(inner.indexOf(",") < 0 ? " " : ",");
            at[0] += parseFloat(xy[0]);
            at[1] += parseFloat(xy[1]);
        }
        node = node.parentNode;
    }
    return at;
}

function pick(node, names) {
    var out = {};
    names.forEach(function (n) {
        var v = node.attrs[n] !== undefined ? node.attrs[n] : node.styles[n];
        out[n] = v === undefined ? null : v;
    });
    return out;
}

function tell(div) {
    var charts = div.kids.filter(function (n) { return n.tag === "svg"; });
    return charts.map(function (svg) {
        var out = {main: controlOf({kids: [svg]}, "zoom").length > 0,
                   paths: [], lines: [], texts: [], rects: [], axes: [],
                   width: svg.attrs.width};
        PAGE.below(svg, function (n) {
            if (n.drawn)
                out.axes.push({domain: n.drawn.domain, range: n.drawn.range,
                               at: place(n, svg)});
            if (!PAGE.visible(n))
                return false;
            if (n.tag === "path" && n.attrs.d !== undefined) {
                var p = pick(n, ["d", "stroke", "stroke-width"]);
                p.tip = tipOf(n);
                p.at = place(n, svg);
                out.paths.push(p);
            } else if (n.tag === "line") {
                var l = pick(n, ["x1", "x2", "y1", "y2", "stroke"]);
                l.at = place(n, svg);
                out.lines.push(l);
            } else if (n.tag === "text") {
                var t = pick(n, ["x", "y", "fill"]);
                t.words = n.words === null ? "" : n.words;
                t.at = place(n, svg);
                out.texts.push(t);
            } else if (n.tag === "rect") {
                var r = pick(n, ["x", "y", "width", "height", "class",
                                 "stroke"]);
                r.at = place(n, svg);
                out.rects.push(r);
            }
            return false;
        });
        return out;
    });
}

function drive(plots, steps) {
    var out = [];
    plots.forEach(function (p) {
        PAGE.div(p.name, p.width);
        EventPlot.generate(p.name, p.base, p.chart);
    });
    function snap() {
        out.push(plots.map(function (p) {
            return tell(PAGE.byId(p.name));
        }));
    }
    snap();
    steps.forEach(function (s) {
        var div = s.plot === undefined ? null :
            PAGE.byId(plots[s.plot].name);
        var c;
        if (s.kind === "zoom") {
            c = controlOf(div, "zoom")[0];
            c[1].gesture(c[0], s.k, s.tx);
            if (s.end !== false)
                c[1].end(c[0]);
        } else if (s.kind === "brush") {
            c = controlOf(div, "brush")[0];
            c[1].gesture(c[0], s.a, s.b);
        } else if (s.kind === "resize") {
            plots.forEach(function (p, i) {
                PAGE.byId(p.name).pixels = s.widths[i];
            });
            PAGE.fire(PAGE.win, "resize");
        } else if (s.kind === "click") {
            var svg = controlOf(div, "zoom")[0][0];
            var target = svg, prevented = 0;
            if (!hasHandler(target, "contextmenu"))
                target = PAGE.below(svg, function (n) {
                    return hasHandler(n, "contextmenu");
                })[0];
            d3.event = {at: [s.x, s.y], root: svg, ctrlKey: !!s.ctrl,
                        altKey: !!s.alt, shiftKey: false, pageX: s.x,
                        pageY: s.y,
                        preventDefault: function () { prevented++; },
                        stopPropagation: function () {}};
            PAGE.fire(target, "contextmenu");
            d3.event = null;
        }
        snap();
    });
    return out;
}

function runPage(name, width) {
    PAGE.div(name, width);
    pageScripts();
    return tell(PAGE.byId(name));
}

function help(base) {
    PAGE.div("plot", 400);
    EventPlot.generate("plot", base, {
        lanes: [{id: 0, label: "0"}], xDomain: [0, 1], keys: ["a"],
        showSummary: true, colorMap: null, data: {a: {"0": [[0, 1]]}}});
    var div = PAGE.byId("plot");
    var said = PAGE.wordsOf(div);
    var call = said.split('onclick="')[1].split('"')[0];
    EventPlot.create_help_dialog(base);
    return [call, PAGE.dialogs.map(PAGE.wordsOf)];
}
