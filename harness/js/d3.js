/* What the event plot uses of d3 3.5, on the page of page.js. */
var d3 = (function () {

    var d3 = {event: null};

    d3.round = function (x, n) {
        if (n) {
            var p = Math.pow(10, n);
            return Math.round(x * p) / p;
        }
        return Math.round(x);
    };

    d3.extent = function (items, fn) {
        var out = [undefined, undefined];
        items.forEach(function (d, i) {
            var v = fn ? fn(d, i) : d;
            if (v === null || v === undefined)
                return;
            if (out[0] === undefined) {
                out = [v, v];
                return;
            }
            if (v < out[0])
                out[0] = v;
            if (v > out[1])
                out[1] = v;
        });
        return out;
    };
    d3.min = function (items, fn) { return d3.extent(items, fn)[0]; };
    d3.max = function (items, fn) { return d3.extent(items, fn)[1]; };
    d3.keys = Object.keys;
    d3.values = Object.values;
    d3.range = function (n) {
        var out = [];
        for (var i = 0; i < n; i++)
            out.push(i);
        return out;
    };
    d3.bisector = function (fn) {
        function search(up) {
            return function (a, x, lo, hi) {
                if (lo === undefined) lo = 0;
                if (hi === undefined) hi = a.length;
                while (lo < hi) {
                    var mid = lo + hi >>> 1;
                    var v = fn(a[mid]);
                    if (up ? !(v > x) : v < x)
                        lo = mid + 1;
                    else
                        hi = mid;
                }
                return lo;
            };
        }
        return {left: search(false), right: search(true)};
    };

    /* -- scales ------------------------------------------------------ */
    function linear(domain, range) {
        function scale(v) {
            var a = domain[0], b = domain[1] - domain[0];
            /* d3: 1 / b for an empty domain */
            var t = b ? (v - a) / b : (v - a) * (1 / b);
            return range[0] + t * (range[1] - range[0]);
        }
        scale.invert = function (p) {
            var a = range[0], b = range[1] - range[0];
            var t = b ? (p - a) / b : (p - a) * (1 / b);
            return domain[0] + t * (domain[1] - domain[0]);
        };
        scale.domain = function (d) {
            if (!arguments.length)
                return domain.slice();
            domain = d.map(Number);
            return scale;
        };
        scale.range = function (r) {
            if (!arguments.length)
                return range;
            range = r;
            return scale;
        };
        scale.copy = function () {
            return linear(domain, range);
        };
        return scale;
    }

    function ordinal() {
        var domain = [], range = [], index = {};
        function scale(v) {
            var key = String(v);
            if (!index.hasOwnProperty(key))
                index[key] = domain.push(v);
            return range[(index[key] - 1) % range.length];
        }
        scale.domain = function (d) {
            if (!arguments.length)
                return domain;
            domain = [];
            index = {};
            for (var i = 0; i < d.length; i++)
                if (!index.hasOwnProperty(String(d[i])))
                    index[String(d[i])] = domain.push(d[i]);
            return scale;
        };
        scale.range = function (r) {
            if (!arguments.length)
                return range;
            range = r;
            return scale;
        };
        return scale;
    }

    var category20 = [
        "#1f77b4", "#aec7e8", "#ff7f0e", "#ffbb78", "#2ca02c", "#98df8a",
        "#d62728", "#ff9896", "#9467bd", "#c5b0d5", "#8c564b", "#c49c94",
        "#e377c2", "#f7b6d2", "#7f7f7f", "#c7c7c7", "#bcbd22", "#dbdb8d",
        "#17becf", "#9edae5"];

    d3.scale = {
        linear: function () { return linear([0, 1], [0, 1]); },
        ordinal: ordinal,
        category20: function () {
            return ordinal().range(category20.slice());
        },
        category10: function () {
            return ordinal().range([0, 2, 4, 6, 8, 10, 12, 14, 16, 18].map(
                function (i) { return category20[i]; }));
        }
    };

    /* -- selections ---------------------------------------------------- */
    /* groups: [{parent, nodes}]; nodes may have holes (to be entered) */
    function Selection(groups) {
        this.groups = groups;
    }

    function only(node, parent) {
        return new Selection([{parent: parent || null, nodes: [node]}]);
    }

    function tagOf(name) {
        var at = name.indexOf(":");
        return at < 0 ? name : name.slice(at + 1);
    }

    Selection.prototype.each = function (fn) {
        this.groups.forEach(function (g) {
            g.nodes.forEach(function (n, i) {
                if (n)
                    fn.call(n, n.datum, i);
            });
        });
        return this;
    };

    Selection.prototype.node = function () {
        var found = null;
        this.each(function () {
            if (!found)
                found = this;
        });
        return found;
    };

    Selection.prototype.size = function () {
        var n = 0;
        this.each(function () { n++; });
        return n;
    };

    Selection.prototype.empty = function () { return this.node() === null; };

    Selection.prototype.select = function (what) {
        return new Selection(this.groups.map(function (g) {
            return {parent: g.parent, nodes: g.nodes.map(function (n) {
                if (!n)
                    return null;
                var found = PAGE.find(n, what);
                if (!found.length)
                    return null;
                if (n.datum !== undefined)
                    found[0].datum = n.datum;
                return found[0];
            })};
        }));
    };

    Selection.prototype.selectAll = function (what) {
        var groups = [];
        this.each(function () {
            groups.push({parent: this, nodes: PAGE.find(this, what)});
        });
        return new Selection(groups);
    };

    Selection.prototype.filter = function (fn) {
        return new Selection(this.groups.map(function (g) {
            return {parent: g.parent, nodes: g.nodes.filter(function (n, i) {
                return n && fn.call(n, n.datum, i);
            })};
        }));
    };

    function setter(put, get) {
        return function (name, value) {
            if (arguments.length < 2 && typeof name !== "object") {
                var n = this.node();
                return n ? get(n, name) : undefined;
            }
            if (typeof name === "object") {
                for (var k in name)
                    setter(put, get).call(this, k, name[k]);
                return this;
            }
            return this.each(function (d, i) {
                put(this, name, typeof value === "function" ?
                    value.call(this, d, i) : value);
            });
        };
    }

    Selection.prototype.attr = setter(function (n, k, v) {
        if (v === null)
            delete n.attrs[k];
        else
            n.attrs[k] = v;
    }, function (n, k) { return n.attrs[k]; });

    Selection.prototype.style = setter(function (n, k, v) {
        if (v === null)
            delete n.styles[k];
        else
            n.styles[k] = v;
    }, function (n, k) { return n.styles[k]; });

    Selection.prototype.property = setter(function (n, k, v) {
        n[k] = v;
    }, function (n, k) { return n[k]; });

    Selection.prototype.classed = function (name, yes) {
        return this.each(function () {
            var mine = PAGE.classes(this), at = mine.indexOf(name);
            if (yes && at < 0)
                mine.push(name);
            if (!yes && at >= 0)
                mine.splice(at, 1);
            this.attrs["class"] = mine.join(" ");
        });
    };

    Selection.prototype.text = function (value) {
        if (!arguments.length)
            return PAGE.wordsOf(this.node());
        return this.each(function (d, i) {
            var v = typeof value === "function" ? value.call(this, d, i) :
                value;
            this.kids = [];
            this.html = [];
            this.words = v === undefined || v === null ? "" : v;
        });
    };

    Selection.prototype.html = function (value) {
        return this.each(function (d, i) {
            this.kids = [];
            this.words = null;
            this.html = [typeof value === "function" ?
                value.call(this, d, i) : value];
        });
    };

    Selection.prototype.datum = function (value) {
        if (!arguments.length)
            return this.node().datum;
        return this.each(function () { this.datum = value; });
    };

    Selection.prototype.append = function (name) {
        return new Selection(this.groups.map(function (g) {
            return {parent: g.parent, nodes: g.nodes.map(function (n) {
                if (!n)
                    return null;
                var kid = new Element(tagOf(name));
                kid.datum = n.datum;
                return PAGE.adopt(n, kid);
            })};
        }));
    };

    Selection.prototype.insert = Selection.prototype.append;

    Selection.prototype.remove = function () {
        return this.each(function () { PAGE.drop(this); });
    };

    Selection.prototype.on = function (type, fn) {
        if (arguments.length < 2) {
            var h = this.node().handlers[type];
            return h ? h[0] : undefined;
        }
        return this.each(function () {
            if (fn === null) {
                delete this.handlers[type];
                return;
            }
            this.handlers[type] = [function () {
                fn.call(this, this === window ? undefined : this.datum, 0);
            }];
        });
    };

    Selection.prototype.call = function (fn) {
        var args = Array.prototype.slice.call(arguments);
        args[0] = this;
        fn.apply(this, args);
        return this;
    };

    Selection.prototype.transition = function () { return this; };
    Selection.prototype.duration = function () { return this; };
    Selection.prototype.delay = function () { return this; };
    Selection.prototype.ease = function () { return this; };
    Selection.prototype.order = function () { return this; };

    Selection.prototype.data = function (values, key) {
        var enter = [], update = [], exit = [];
        this.groups.forEach(function (g) {
            var list = typeof values === "function" ?
                values.call(g.parent, g.parent.datum) : values;
            var up = {parent: g.parent, nodes: []};
            var add = {parent: g.parent, fresh: [], update: up};
            var used = [];
            list.forEach(function (d, i) {
                var n = null;
                if (key) {
                    g.nodes.forEach(function (m) {
                        if (!n && used.indexOf(m) < 0 &&
                            key.call(m, m.datum) === key.call(g.parent, d))
                            n = m;
                    });
                } else if (i < g.nodes.length)
                    n = g.nodes[i];
                if (n) {
                    n.datum = d;
                    used.push(n);
                    up.nodes.push(n);
                } else {
                    add.fresh.push([i, d]);
                    up.nodes.push(null);
                }
            });
            update.push(up);
            enter.push(add);
            exit.push({parent: g.parent, nodes: g.nodes.filter(function (n) {
                return used.indexOf(n) < 0;
            })});
        });
        var out = new Selection(update);
        out.enter = function () {
            var e = {
                append: function (name) {
                    return new Selection(enter.map(function (add) {
                        var nodes = add.fresh.map(function (f) {
                            var kid = new Element(tagOf(name));
                            kid.datum = f[1];
                            /* d3 3: entered elements join the update */
                            add.update.nodes[f[0]] = kid;
                            return PAGE.adopt(add.parent, kid);
                        });
                        return {parent: add.parent, nodes: nodes};
                    }));
                },
                empty: function () {
                    return enter.every(function (a) {
                        return a.fresh.length === 0;
                    });
                },
                size: function () {
                    return enter.reduce(function (n, a) {
                        return n + a.fresh.length;
                    }, 0);
                }
            };
            e.insert = e.append;
            return e;
        };
        out.exit = function () { return new Selection(exit); };
        return out;
    };

    d3.select = function (what) {
        if (what instanceof Selection)
            return what;
        if (typeof what === "string") {
            var found = PAGE.find(PAGE.body, what);
            return only(found.length ? found[0] : null, PAGE.body);
        }
        return only(what === window ? PAGE.win : what);
    };

    d3.selectAll = function (what) {
        if (typeof what === "string")
            return new Selection([{parent: PAGE.body,
                                   nodes: PAGE.find(PAGE.body, what)}]);
        return new Selection([{parent: null, nodes: what}]);
    };

    /* where the event is, as seen from a node */
    d3.mouse = function (node) {
        var at = d3.event.at.slice();
        while (node && node !== d3.event.root) {
            var t = node.attrs.transform;
            if (t) {
                var inner = t.split("(")[1].split(")")[0];
                var xy = inner.split(inner.indexOf(",") < 0 ? " " : ",");
                at[0] -= parseFloat(xy[0]);
                at[1] -= parseFloat(xy[1]);
            }
            node = node.parentNode;
        }
        return at;
    };

    /* -- axis, tip ------------------------------------------------------- */
    d3.svg = {};
    d3.svg.axis = function () {
        var scale = linear([0, 1], [0, 1]);
        function axis(g) {
            g.each(function () {
                var node = this;
                if (!node.drawn) {
                    var p = PAGE.adopt(node, new Element("path"));
                    p.attrs["class"] = "domain";
                }
                node.drawn = {domain: scale.domain(),
                              range: scale.range().slice()};
            });
        }
        axis.scale = function (s) {
            if (!arguments.length)
                return scale;
            scale = s;
            return axis;
        };
        ["orient", "ticks", "tickFormat", "tickSize", "tickPadding",
         "innerTickSize", "outerTickSize", "tickValues"].forEach(
            function (name) {
                axis[name] = function () { return axis; };
            });
        return axis;
    };

    d3.tip = function () {
        var html = function () { return ""; };
        function tip() {}
        tip.shown = null;
        tip.attr = function () { return tip; };
        tip.style = function (name, value) {
            return arguments.length < 2 ? "10px" : tip;
        };
        tip.html = function (fn) {
            html = typeof fn === "function" ? fn : function () {
                return fn;
            };
            return tip;
        };
        tip.offset = tip.direction = function () { return tip; };
        tip.show = function () {
            PAGE.tip = html.apply(this, arguments);
            return tip;
        };
        tip.hide = function () {
            PAGE.tip = null;
            return tip;
        };
        return tip;
    };

    /* -- zoom and brush -------------------------------------------------- */
    function dispatcher(me) {
        var handlers = {};
        me.on = function (type, fn) {
            if (arguments.length < 2)
                return handlers[type];
            handlers[type] = fn;
            return me;
        };
        return function (node, type, event) {
            if (handlers[type]) {
                d3.event = event;
                handlers[type].call(node, node.datum, 0);
                d3.event = null;
            }
        };
    }

    d3.behavior = {};
    d3.behavior.zoom = function () {
        var view = {x: 0, y: 0, k: 1};
        var x0, x1, extent = [0, Infinity];
        function zoom(g) {
            g.each(function () { this.controls.push(zoom); });
        }
        zoom.kind = "zoom";
        var fire = dispatcher(zoom);
        function clamp(k) {
            return Math.max(extent[0], Math.min(extent[1], k));
        }
        function rescale() {
            if (x1)
                x1.domain(x0.range().map(function (p) {
                    return (p - view.x) / view.k;
                }).map(x0.invert));
        }
        zoom.translate = function (t) {
            if (!arguments.length)
                return [view.x, view.y];
            view = {x: +t[0], y: +t[1], k: view.k};
            rescale();
            return zoom;
        };
        zoom.scale = function (k) {
            if (!arguments.length)
                return view.k;
            view = {x: view.x, y: view.y, k: clamp(+k)};
            rescale();
            return zoom;
        };
        zoom.scaleExtent = function (e) {
            if (!arguments.length)
                return extent;
            extent = [+e[0], +e[1]];
            return zoom;
        };
        zoom.x = function (scale) {
            if (!arguments.length)
                return x1;
            x1 = scale;
            x0 = scale.copy();
            view = {x: 0, y: 0, k: 1};
            return zoom;
        };
        zoom.size = zoom.center = function () { return zoom; };
        /* what the user does: to a scale and a place */
        zoom.gesture = function (node, k, tx) {
            fire(node, "zoomstart", {type: "zoomstart"});
            view = {x: tx, y: view.y, k: clamp(k)};
            rescale();
            fire(node, "zoom", {type: "zoom", scale: view.k,
                                translate: [view.x, view.y]});
        };
        zoom.end = function (node) {
            fire(node, "zoomend", {type: "zoomend"});
        };
        return zoom;
    };

    d3.svg.brush = function () {
        var x = null, px = [0, 0], inDomain = null;
        function brush(g) {
            g.each(function () {
                if (this.controls.indexOf(brush) < 0)
                    this.controls.push(brush);
                if (!PAGE.find(this, ".extent").length) {
                    ["background", "extent"].forEach(function (c) {
                        var r = PAGE.adopt(this, new Element("rect"));
                        r.attrs["class"] = c;
                    }, this);
                }
                var node = this;
                ["background", "extent"].forEach(function (c) {
                    PAGE.find(node, "." + c).forEach(function (r) {
                        var e = c === "extent" ? px : x.range();
                        r.attrs.x = e[0];
                        r.attrs.width = e[1] - e[0];
                    });
                });
            });
        }
        brush.kind = "brush";
        var fire = dispatcher(brush);
        brush.x = function (scale) {
            if (!arguments.length)
                return x;
            x = scale;
            return brush;
        };
        brush.extent = function (e) {
            if (!arguments.length)
                return inDomain ? [inDomain[0], inDomain[1]] :
                    px.map(function (p) { return x.invert(p); });
            inDomain = [e[0], e[1]];
            px = [x(e[0]), x(e[1])];
            return brush;
        };
        brush.empty = function () { return px[0] == px[1]; };
        brush.clear = function () {
            px = [0, 0];
            inDomain = null;
            return brush;
        };
        /* what the user does: drag a window between two times */
        brush.gesture = function (node, a, b) {
            fire(node, "brushstart", {type: "brushstart"});
            px = [x(a), x(b)];
            inDomain = null;
            brush(only(node));
            fire(node, "brush", {type: "brush"});
            fire(node, "brushend", {type: "brushend"});
        };
        return brush;
    };

    return d3;
})();
