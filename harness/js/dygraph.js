/* Dygraph and its synchronizer as far as the plots use them, after the
 * documentation of dygraphs 1.0. */

var GRAPHS = [], SYNCS = [];

function Dygraph(div, data, attrs) {
    if (!div)
        throw new Error("no place for the graph");
    this.div_ = div;
    this.options = {};
    this.rawData_ = data.map(function (row) { return row.slice(); });
    this.dateWindow_ = null;
    this.size = null;
    GRAPHS.push(this);
    this.updateOptions(attrs);
}

Dygraph.prototype.updateOptions = function (attrs) {
    for (var k in attrs)
        if (attrs[k] !== undefined)
            this.options[k] = attrs[k];
    if ("dateWindow" in attrs)
        this.dateWindow_ = attrs.dateWindow ? attrs.dateWindow : null;
};

Dygraph.prototype.getOption = function (k) {
    return this.options[k];
};

Dygraph.prototype.xAxisExtremes = function () {
    return [this.rawData_[0][0], this.rawData_[this.rawData_.length - 1][0]];
};

Dygraph.prototype.xAxisRange = function () {
    return this.dateWindow_ ? this.dateWindow_ : this.xAxisExtremes();
};

Dygraph.prototype.yAxisRange = function () {
    if (this.options.valueRange)
        return this.options.valueRange.slice();
    var lo = null, hi = null;
    this.rawData_.forEach(function (row) {
        for (var i = 1; i < row.length; i++) {
            if (row[i] === null || row[i] === undefined)
                continue;
            if (lo === null || row[i] < lo)
                lo = row[i];
            if (hi === null || row[i] > hi)
                hi = row[i];
        }
    });
    return [lo, hi];
};

Dygraph.prototype.yAxisRanges = function () {
    return [this.yAxisRange()];
};

Dygraph.prototype.numRows = function () {
    return this.rawData_.length;
};

Dygraph.prototype.resize = function (width, height) {
    this.size = width === undefined ?
        [this.div_.pixels, this.div_.high] : [width, height];
};

Dygraph.prototype.ready = function (fn) {
    fn(this);
};

Dygraph.prototype.destroy = function () {
    GRAPHS.splice(GRAPHS.indexOf(this), 1);
};

Dygraph.synchronize = function () {
    var graphs = [], opts = {zoom: true, selection: true, range: true};
    for (var i = 0; i < arguments.length; i++) {
        var a = arguments[i];
        if (a instanceof Dygraph)
            graphs.push(a);
        else if (Array.isArray(a))
            graphs = graphs.concat(a);
        else
            for (var k in a)
                opts[k] = a[k];
    }
    if (graphs.length < 2)
        throw new Error("two or more graphs needed");
    var me = {graphs: graphs, opts: opts, on: true,
              detach: function () { me.on = false; }};
    SYNCS.push(me);
    return {detach: function () { me.detach(); }};
};
