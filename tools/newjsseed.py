"""Write seeded/<id>/ for a change of a script of the page.

    seed(id, property, kind, edits, needs, breaks, demo)

demo is JavaScript run in node with the stand-ins of harness/js (copied) and
the script of the repository loaded; it has to throw when the property is
broken.  drive(...) is the driver's.
"""
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = '''const fs = require('fs'), path = require('path'), vm = require('vm');
const assert = require('assert');
globalThis.window = globalThis;
%s.forEach(function (f) {
    const p = f.indexOf('/') < 0 ? path.join(__dirname, f) : f;
    vm.runInThisContext(fs.readFileSync(p, 'utf8'));
});
function near(a, b) { assert(Math.abs(a - b) < 1e-6, a + ' is not ' + b); }

'''
FILES = {"EventPlot": ["page.js", "d3.js", "trappy/plotter/js/EventPlot.js",
                       "eventplot_driver.js"],
         "ILinePlot": ["page.js", "dygraph.js",
                       "trappy/plotter/js/ILinePlot.js",
                       "ilineplot_driver.js"]}
HELP = {"EventPlot": '''
/* [start, end, y] in pixels of what is drawn in the main area of plot i */
function marks(state, i) {
    const main = state[i || 0].filter(function (c) { return c.main; })[0];
    const out = [];
    main.paths.forEach(function (p) {
        const t = p.d.split(/[M\\sH]+/).filter(function (x) {
            return x !== ''; }).map(Number);
        for (let k = 0; k < t.length; k += 3)
            out.push([t[k] , t[k + 2], t[k + 1], p.stroke]);
    });
    return out.sort(function (a, b) { return a[0] - b[0]; });
}
function chart(data, more) {
    return Object.assign({lanes: [{id: 0, label: 'L0'}, {id: 1, label: 'L1'}],
        xDomain: [0, 16], keys: Object.keys(data), showSummary: true,
        stride: false, colorMap: null, data: data}, more || {});
}
function plot(data, more, name) {
    return {name: name || 'p', base: '/b/', width: 149,
            chart: chart(data, more)};
}
''', "ILinePlot": '''
function plot(name, rows, more) {
    return {area: 400, data: Object.assign({name: name, title: name,
        rangesel: false, data: {data: rows, labels: ['index', 'a']},
        logscale: false, step_plot: true, fill_graph: false, per_line: 1,
        height: 200, drawPoints: false, strokeWidth: 1, pointSize: 3,
        syncZoom: true, syncGroup: 'g'}, more || {})};
}
function draw(i) { return {kind: 'draw', plot: i}; }
'''}


def seed(id, prop, kind, edits, needs, breaks, demo):
    d = os.path.join(ROOT, "seeded", id)
    work = tempfile.mkdtemp()
    try:
        repo = os.path.join(work, "r")
        shutil.copytree("/repo", repo, symlinks=True)
        for old, new in edits:
            p = os.path.join(repo, "trappy/plotter/js/%s.js" % kind)
            s = open(p).read()
            assert s.count(old) == 1, (id, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, text=True,
                              stdout=subprocess.PIPE, check=True).stdout
        assert diff, id
    finally:
        shutil.rmtree(work)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    for f in FILES[kind]:
        if "/" not in f:
            shutil.copy(os.path.join(ROOT, "harness/js", f), d)
    open(os.path.join(d, "demo.js"), "w").write(
        PRELUDE % json.dumps(FILES[kind]) + HELP[kind].lstrip() +
        demo)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexec node "$(dirname "$0")/demo.js"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
